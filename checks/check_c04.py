"""Grouping of operators in expressions and conditions."""
from plancheck import PlanCheck, compare
from cmds import CmdGen
from harness import Violation
from spl import C, E, F, O, W, SPARK, kw, spell, tight


class Ops(CmdGen):
    """Operands are plain, so that expressions consist of operators."""

    def leaf(self):
        if self.r.random() < 0.7:
            return self.field()
        return self.lit_int(self.r.randint(0, 9)) if self.r.random() < 0.8 else self.lit_double()

    def call(self, depth):
        return self.named_call(self.r.choice(("abs", "max", "if", "coalesce")), depth)

    def plain_value(self, words=True):
        v = self.r.randint(0, 99)
        return str(v), v


class CHECK(PlanCheck):
    id = "C04"

    KNOWN = {
        "eval-or-binds-tighter": ("eval x=if(a=1 OR b=2 AND c=3, 1, 0)", "eval and if(): OR binds tighter than AND, as in search: eval x=if(a=1 OR b=2 AND c=3, 1, 0)"),
    }

    def known_cases(self):
        return [(k, d, k) for k, (_, d) in self.KNOWN.items()]

    def fixed_cases(self):
        return [
            (q, q)
            for q in (
                "where a=1 OR b=2 AND c=3", "where NOT a=1 AND b=2", "where a=1 b=2 OR c=3", "search a=1 OR b=2 c=3", "search NOT a=1 b=2", "search (a=1 AND b=2) OR c=3",
                "eval x=a - b - c", "eval x=a / b / c", "eval x=a - b + c * d / e", "eval x=a * b - c", "eval x=a - (b - c)", "eval x=a / (b * c)", "eval x=a + b . c + d", "eval x=if(NOT a=1 AND b=2, 1, 2)",
                "eval x=if(a+1>b * 2, 1, 2)",
            )
        ]

    def run_fixed(self, name, value):
        c = {n: F.col(n) for n in "abcde"}
        a, b, cc, d, e = (c[n] for n in "abcde")
        main = SPARK.table("main")
        eq = lambda n, v: c[n] == F.lit(v)
        wants = {
            "where a=1 OR b=2 AND c=3": lambda: main.where(eq("a", 1) | (eq("b", 2) & eq("c", 3))),
            "where NOT a=1 AND b=2": lambda: main.where(~eq("a", 1) & eq("b", 2)),
            "where a=1 b=2 OR c=3": lambda: main.where((eq("a", 1) & eq("b", 2)) | eq("c", 3)),
            "search a=1 OR b=2 c=3": lambda: main.where((eq("a", 1) | eq("b", 2)) & eq("c", 3)),
            "search NOT a=1 b=2": lambda: main.where(~eq("a", 1) & eq("b", 2)),
            "search (a=1 AND b=2) OR c=3": lambda: main.where((eq("a", 1) & eq("b", 2)) | eq("c", 3)),
            "eval x=a - b - c": lambda: main.withColumn("x", (a - b) - cc),
            "eval x=a / b / c": lambda: main.withColumn("x", (a / b) / cc),
            "eval x=a - b + c * d / e": lambda: main.withColumn("x", (a - b) + ((cc * d) / e)),
            "eval x=a * b - c": lambda: main.withColumn("x", (a * b) - cc),
            "eval x=a - (b - c)": lambda: main.withColumn("x", a - (b - cc)),
            "eval x=a / (b * c)": lambda: main.withColumn("x", a / (b * cc)),
            "eval x=a + b . c + d": lambda: main.withColumn("x", F.concat(a + b, cc + d)),
            "eval x=if(NOT a=1 AND b=2, 1, 2)": lambda: main.withColumn("x", F.when(~eq("a", 1) & eq("b", 2), F.lit(1)).otherwise(F.lit(2))),
            "eval x=if(a+1>b * 2, 1, 2)": lambda: main.withColumn("x", F.when((a + 1) > (b * 2), F.lit(1)).otherwise(F.lit(2))),
            "eval-or-binds-tighter": lambda: main.withColumn("x", F.when(eq("a", 1) | (eq("b", 2) & eq("c", 3)), F.lit(1)).otherwise(F.lit(0))),
        }
        q = self.KNOWN[value][0] if value in self.KNOWN else value
        compare(q, wants[value](), False)
        return q, q

    def run(self, rng, i):
        g = Ops(rng, unusual_names=rng.random() < 0.1)
        kind = rng.choice(("eval", "eval", "condition", "where", "where", "search"))
        if kind == "eval":
            e = rng.choice((g.arith, g.arith, g.concat))(rng.choice((2, 3, 3, 4)))
            text = "eval x" + O + "=" + O + e.text
            want = SPARK.table("main").withColumn("x", e.sa)
        elif kind == "condition":
            e = g.condition(rng.choice((2, 3, 4)))
            text = "eval x" + O + "=" + O + "if(" + O + e.text + O + "," + O + "1" + O + "," + O + "0" + O + ")"
            want = SPARK.table("main").withColumn("x", F.when(e.sa, F.lit(1)).otherwise(F.lit(0)))
        elif kind == "where":
            e = g.where_tree(3)
            text = kw("where") + W + e.text
            want = SPARK.table("main").where(e.sa)
        else:
            e = g.search_tree(3)
            text = kw("search") + W + e.text
            want = SPARK.table("main").where(e.sa)
        q = spell(text, rng if rng.random() < 0.7 else None)
        compare(q, want, False)
        self.observed["conditions and expressions compared"] += 1
        self.observed["kind " + kind] += 1
        return q, q[:300]
