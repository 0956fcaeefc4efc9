"""Eval expressions compute what SPL defines, in both modes, on a real Spark session."""
from evalref import SCHEMA, EvalGen, random_row
from harness import Violation
from sparkbase import SparkCheck, same_value


class CHECK(SparkCheck):
    id = "C22"
    rule = "distinct eval commands, each run on a table of rows with missing values in both modes and compared value by value"
    assumptions = [
        "a local Spark session with the settings of a new installation (ANSI mode), apart from those that make small queries fast",
        "numbers are compared up to a relative error of 1e-9; inputs stay away from overflow, division by zero and malformed numbers, which are errors in Spark",
    ]

    def prepare(self):
        self.data = None
        self.cases = 0

    def new_table(self, rng):
        self.data = [random_row(rng) for _ in range(16)]
        self.table("main", SCHEMA, [[r[n] for n, _ in SCHEMA] for r in self.data])

    def run(self, rng, i):
        # The table depends on the case alone, so that the case can be run again alone
        import random

        block = i // 40
        if self.data is None or self.block != block:
            self.block = block
            self.new_table(random.Random(f"{self.seed}:table:{block}"))
        g = EvalGen(rng)
        xs = [g.any(rng.choice((1, 2, 3, 3, 4))) for _ in range(rng.choice((1, 4, 8, 12)))]
        q = "index=main | eval " + ", ".join(f"r{n}={x.text}" for n, x in enumerate(xs))
        for runtime in self.modes:
            code = self.render(q, runtime)
            names, rows = self.rows(code, f"{q}\nallow_runtime={runtime}")
            if len(rows) != len(self.data):
                raise Violation(f"eval changes the number of rows: {len(rows)} of {len(self.data)}\n{q}\n{code}")
            at = {n: k for k, n in enumerate(names)}
            for n, x in enumerate(xs):
                if f"r{n}" not in at:
                    raise Violation(f"no field r{n} after {q}\n{code}")
                for row, got in zip(self.data, rows):
                    value, expected = got[at[f"r{n}"]], x.f(row)
                    if not same_value(value, expected):
                        raise Violation(f"{x.text} is {value!r} instead of {expected!r} (allow_runtime={runtime})\nrow: {row}\nquery: {q}\n{code}")
                    self.observed["values compared"] += 1
                    if value is not None:
                        self.observed["values other than null"] += 1
        for name, k in g.used.items():
            self.observed["uses of " + name] += k
        return q, q
