"""The runtime library called from hand-written Python: every form of a call means the same."""
import datetime as dt
import random

import check_c20
import check_c22
import check_c23
import check_c26
import forms
from check_c26 import EPOCH, UTC, add, random_time, snap
from harness import Violation
from sparkbase import SparkCheck, same_value

SCALES = ("months", "weeks", "days", "hours", "minutes", "seconds")
BLOCK = 40
KINDS = ["eval", "time", "pipeline", "stats", "relative", "pipeline", "fill", "tstats", "search"]

FILL_SCHEMA = [("i", "int"), ("l", "bigint"), ("d", "double"), ("f", "boolean"), ("s", "string"), ("t", "timestamp"), ("n", "array<int>"), ("e", "string")]
# What a filling text is in columns of each type; a text that is no value of the type fills nothing
NOTHING = object()
FILLS = {
    "0": dict(int=0, bigint=0, double=0.0, boolean=False),
    "-17": dict(int=-17, bigint=-17, double=-17.0),
    "1": dict(int=1, bigint=1, double=1.0, boolean=True),
    "1.25": dict(double=1.25),
    "9999999999": dict(bigint=9999999999, double=9999999999.0),
    "true": dict(boolean=True),
    "NULL": {},
    "": {},
    "a b": {},
    "'": {},
    "2024-02-29 12:30:00": dict(timestamp=dt.datetime(2024, 2, 29, 12, 30)),
}


class Program:
    """A program of one statement per line, whose order of execution and result are known"""

    def __init__(self, r):
        self.r, self.lines, self.log, self.values, self.k = r, [], [], {}, 0

    def call(self):
        """Text that records that it ran; its value"""
        self.k += 1
        v = self.r.choice((self.k, str(self.k), None, [self.k], 0, ""))
        self.log.append(self.k)
        return f"t({self.k}, {v!r})", v

    def expression(self):
        """Text, value"""
        k = self.r.random()
        if k < 0.5 or not self.values:
            return self.call()
        if k < 0.7:
            name = self.r.choice(list(self.values))
            return name, self.values[name]
        (a, x), (b, y) = self.call(), self.call()
        if k < 0.8:
            return f"({a}, {b})", (x, y)
        if k < 0.9:
            return f"[{a},\n {b}]", [x, y]
        return "{" + f"'k': {a}, 'l': {b}" + "}", {"k": x, "l": y}

    def statement(self, last):
        r = self.r
        kind = r.choice(("expression", "assign", "assign", "tuple", "annotated", "augmented", "other", "chain", "comment", "string"))
        name = r.choice("abcxyz") + r.choice(("", "1", "_df"))
        if kind == "expression":
            text, v = self.expression()
            self.lines.append(text)
            return v
        if kind == "string":
            self.lines.append("'''some\n  text'''")
            return "some\n  text"
        if kind == "assign":
            text, v = self.expression()
            self.lines.append(f"{name} = {text}")
            self.values[name] = v
            return v
        if kind == "chain":
            text, v = self.expression()
            self.lines.append(f"{name} = {name}2 = {text}")
            self.values[name] = self.values[name + "2"] = v
            return v
        if kind == "tuple":
            (a, x), (b, y) = self.call(), self.call()
            self.lines.append(f"{name}, {name}3 = {a}, {b}")
            self.values[name], self.values[name + "3"] = x, y
            return (x, y)
        if kind == "annotated":
            text, v = self.expression()
            self.lines.append(f"{name}: object = {text}")
            self.values[name] = v
            return v
        if kind == "augmented":
            self.k += 1
            self.log.append(self.k)
            start = r.randint(0, 9)
            self.lines.append(f"{name} = {start}")
            self.lines.append(f"{name} += t({self.k}, {self.k})")
            self.values[name] = start + self.k
            return start + self.k
        if kind == "comment":
            text, v = self.expression()
            self.lines.append(f"# a comment\n{text}  # another; x = 1\n")
            return v
        which = r.randint(0, 4)
        if which == 0:
            (a, x), (b, y) = self.call(), self.call()
            self.lines.append(f"for {name} in [{a}, {b}]:\n    t(-1, {name})")
            self.log += [-1, -1]
            self.values[name] = y
        elif which == 1:
            self.lines.append("pass")
        elif which == 2:
            text, v = self.call()
            self.lines.append(f"if True:\n    {name} = {text}\nelse:\n    t(-2, 0)")
            self.values[name] = v
        elif which == 3:
            self.lines.append("import math")
        else:
            text, v = self.call()
            self.lines.append(f"try:\n    {name} = {text}\nfinally:\n    t(-3, 0)")
            self.log.append(-3)
            self.values[name] = v
        return None


class CHECK(SparkCheck):
    id = "C21"
    rule = "distinct calls of the runtime library: code for it rewritten into other forms of the same calls, and direct calls with known results"
    assumptions = check_c20.CHECK.assumptions + ["times without changes of the offset of the time zone"]

    def prepare(self):
        self.kind = self.block = None
        self.delegates = {}
        for kind, module in (("eval", check_c22), ("time", check_c26), ("pipeline", check_c20), ("stats", check_c23)):
            d = module.CHECK(self.tier, self.seed)
            d.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ("observed", "delegates")})
            d.prepare()
            d.modes, d.render = (True,), self.other_form
            self.delegates[kind] = d

    def other_form(self, q, runtime):
        code = super().render(q, True)
        new = forms.other_form(code, self.rng, self.observed)
        self.observed["programs in another form" if new != code else "programs as they are"] += 1
        return new

    def run(self, rng, i):
        kind = KINDS[i // BLOCK % len(KINDS)]
        # The forms depend on the case alone
        self.rng = random.Random(f"{self.seed}:forms:{i}")
        if kind != self.kind:
            self.kind = kind
            self.spark.conf.set("spark.sql.session.timeZone", "UTC")
            for d in self.delegates.values():
                d.block = None
        for _ in range(20):
            self.program(random.Random(rng.random()))
        if kind in self.delegates:
            d = self.delegates[kind]
            try:
                key, sample = d.run(rng, i)
            finally:
                for name, n in d.observed.items():
                    if name.startswith(("values", "rows", "groups", "uses of", "commands")):
                        self.observed[name] += n
                d.observed.clear()
            return f"{kind} {key} {i}", sample
        return getattr(self, kind)(rng, i)

    # ------------------------------------------------------------------ programs

    def program(self, r):
        p = Program(r)
        want = None
        n = r.choice((0, 1, 1, 2, 3, 5))
        for k in range(n):
            want = p.statement(k == n - 1)
        code = "\n".join(p.lines)
        log = []

        def t(k, v):
            log.append(k)
            return v

        local = {}
        try:
            got = self.exec_with_return(code, {"t": t}, local)
        except Exception as e:
            raise Violation(f"exec_with_return fails: {type(e).__name__}: {e}\n{code}") from None
        if log != p.log:
            raise Violation(f"the statements ran in the order {log} instead of {p.log}\n{code}")
        if got != want or type(got) is not type(want):
            raise Violation(f"exec_with_return gives {got!r} instead of {want!r}\n{code}")
        for name, v in p.values.items():
            if name not in local or local[name] != v:
                raise Violation(f"{name} is {local.get(name)!r} instead of {v!r} afterwards\n{code}")
        self.observed["Python programs"] += 1

    # -------------------------------------------------------------- direct calls

    def call(self, what, f):
        from py4j.protocol import Py4JError
        from pyspark.errors import PySparkException

        try:
            df = f()
            return df.columns, [tuple(r) for r in df.collect()]
        except (PySparkException, Py4JError, ValueError, TypeError, AttributeError, KeyError, NotImplementedError) as e:
            raise Violation(f"{what}\nfails: {type(e).__name__}: {str(e)[:700]}") from None

    def relative(self, r, i):
        r0 = random.Random(f"{self.seed}:table:{i // BLOCK}")
        times = [None if r0.random() < 0.1 else random_time(r0) for _ in range(16)]
        values = ", ".join("(%d, timestamp_micros(CAST(%s AS BIGINT)))" % (n, "NULL" if t is None else round((t - EPOCH) / dt.timedelta(microseconds=1))) for n, t in enumerate(times))
        df = self.spark.sql(f"SELECT * FROM VALUES {values} AS t(k, d)")
        from spl_transpiler.runtime.base import TimeScale, TimeSpan

        fn, exprs, refs, texts = self.functions.eval.relative_time, {}, {}, {}
        for n in range(r.choice((1, 4, 8))):
            span, at, off = (r.choice((None, (r.choice((0, 1, -1, r.randint(-40, 40))), r.choice(SCALES)))) for _ in range(3))
            at = None if at is None else at[1]

            def form(v):
                if v is None:
                    return None
                k = r.random()
                scale = v[1] if r.random() < 0.5 else TimeScale(v[1])
                return TimeSpan(value=v[0], scale=scale) if k < 0.5 else dict(value=v[0], scale=scale)

            time = r.choice((self.F.col("d"), "d", dict(kind="column", value="d")))
            names = ["span", "snap", "snap_offset"]
            args = [form(span), at if at is None or r.random() < 0.5 else TimeScale(at), form(off)]
            cut = r.randint(0, 3)
            kw = {k: v for k, v in zip(names[cut:], args[cut:]) if v is not None or r.random() < 0.5}
            texts[f"r{n}"] = f"relative_time({time!r}, {args[:cut]!r}, {kw!r})"
            try:
                exprs[f"r{n}"] = fn(time, *args[:cut], **kw)
            except Exception as e:
                raise Violation(f"{texts[f'r{n}']} fails: {type(e).__name__}: {str(e)[:500]}") from None

            def ref(t, span=span, at=at, off=off):
                t = add(t, *span) if span else t
                t = snap(t, at) if at else t
                return add(t, *off) if off else t

            refs[f"r{n}"] = ref
        names, rows = self.call(str(texts), lambda: self.commands.eval(df, **exprs))
        for row in rows:
            t = times[row[0]]
            for n, ref in refs.items():
                got = row[names.index(n)]
                got = got and got.replace(tzinfo=UTC)
                want = None if t is None else ref(t)
                if got != want:
                    raise Violation(f"{texts[n]} of {t} is {got} instead of {want}")
                self.observed["relative times compared"] += 1
        return f"{texts} {i}", str(texts)

    def fill_frame(self, r):
        def value(t):
            if r.random() < 0.4:
                return None
            return {
                "int": lambda: r.randint(-5, 5),
                "bigint": lambda: r.randint(-5, 5) * 10**10,
                "double": lambda: r.choice((0.5, -1.25, 3.0)),
                "boolean": lambda: r.random() < 0.5,
                "string": lambda: r.choice(("", "x", "a b", "NULL")),
                "timestamp": lambda: dt.datetime(2020, 1, r.randint(1, 28), 5),
                "array<int>": lambda: [1, 2],
            }[t]()

        rows = [[value(t) for _, t in FILL_SCHEMA] for _ in range(r.choice((1, 4, 8)))]
        return rows, self.frame([("k", "int")] + FILL_SCHEMA, [[n] + row for n, row in enumerate(rows)])

    def fill(self, r, i):
        data, df = self.fill_frame(r)
        text = r.choice(list(FILLS))
        fields = r.choice((None, [], r.sample([n for n, _ in FILL_SCHEMA], r.randint(1, len(FILL_SCHEMA)))))
        kw = dict(value=text)
        if fields is not None or r.random() < 0.5:
            kw["fields"] = fields
        args = [df] if r.random() < 0.5 else []
        if not args:
            kw["df"] = df
        what = f"fill_null({ {k: v for k, v in kw.items() if k != 'df'} })"
        names, rows = self.call(what, lambda: self.commands.fill_null(*args, **kw))
        want_names = ["k"] + [n for n, _ in FILL_SCHEMA]
        if names != want_names:
            raise Violation(f"{what}: the columns are {names} instead of {want_names}")
        if sorted(row[0] for row in rows) != list(range(len(data))):
            raise Violation(f"{what}: the rows are {[row[0] for row in rows]} of {len(data)}")
        for row in rows:
            before = data[row[0]]
            for (n, t), old, new in zip(FILL_SCHEMA, before, row[1:]):
                want = old
                if old is None and (fields is None or n in fields):
                    want = text if t == "string" else FILLS[text].get(t)
                if not same_value(new, want):
                    raise Violation(f"{what}: {n} ({t}) of {before} is {new!r} instead of {want!r}")
                self.observed["filled values" if old is None and want is not None else "values left alone"] += 1
        return f"{what} {i}", what

    def predicates(self, r):
        """A condition on the columns of `fill_frame`: Column, text, function of a row"""
        F = self.F
        k = r.randint(-3, 3)
        return r.choice((
            (F.col("i") > k, f"i > {k}", lambda row: row["i"] is not None and row["i"] > k),
            (F.col("s").isNotNull(), "s is not null", lambda row: row["s"] is not None),
            ((F.col("i") == k) | (F.col("s") == "x"), f"i == {k} or s == x", lambda row: row["i"] == k or row["s"] == "x"),
            ("f", "f", lambda row: row["f"] is True),
            (True, "True", lambda row: True),
            (F.col("d") < 2, "d < 2", lambda row: row["d"] is not None and row["d"] < 2),
        ))

    def search(self, r, i):
        data, df = self.fill_frame(r)
        data = [{n: v for (n, _), v in zip(FILL_SCHEMA, row)} for row in data]
        args, texts, tests, kw = [], [], [], {}
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            c, text, f = self.predicates(r)
            args.append(c), texts.append(text), tests.append(f)
        for n in r.sample(("i", "s", "d", "f", "e"), r.choice((0, 1, 1, 2))):
            if r.random() < 0.2 and n in ("s", "e"):
                other = "e" if n == "s" else "s"
                kw[n] = r.choice((other, self.F.col(other)))
                tests.append(lambda row, n=n, other=other: row[n] is not None and row[n] == row[other])
                texts.append(f"{n}={other}")
                continue
            present = [row[n] for row in data if row[n] is not None]
            v = r.choice(present) if present else {"i": 1, "s": "x", "d": 0.5, "f": True, "e": "x"}[n]
            kw[n] = self.F.lit(v) if isinstance(v, str) else r.choice((v, self.F.lit(v), dict(kind="literal", value=v)))
            tests.append(lambda row, n=n, v=v: row[n] is not None and row[n] == v)
            texts.append(f"{n}={v!r}")
        what = f"search({', '.join(texts)})"
        names, rows = self.call(what, lambda: self.commands.search(df, *args, **kw))
        want = [n for n, row in enumerate(data) if all(f(row) for f in tests)]
        if sorted(row[0] for row in rows) != want or names != ["k"] + [n for n, _ in FILL_SCHEMA]:
            raise Violation(f"{what} finds the rows {[row[0] for row in rows]} with {names} instead of {want}\nof {data}")
        self.observed["searches"] += 1
        self.observed["rows found"] += len(want)
        self.observed["rows left out"] += len(data) - len(want)
        return f"{what} {i}", what

    def tstats(self, r, i):
        data, df = self.fill_frame(r)
        data = [{n: v for (n, _), v in zip(FILL_SCHEMA, row)} for row in data]
        text = r.choice((None, None, *FILLS))
        kw, what = {}, []
        if text is not None:
            kw["fill_null_value"] = text
            what.append(f"fill_null_value={text!r}")
            for row in data:
                for n, t in FILL_SCHEMA:
                    if row[n] is None:
                        row[n] = text if t == "string" else FILLS[text].get(t)
        if r.random() < 0.6:
            kw["where"], name, f = self.predicates(r)
            what.append(f"where {name}")
            data = [row for row in data if f(row)]
        by = r.choice(([], [], ["f"], ["e"], ["e", "f"]))
        if by or r.random() < 0.5:
            kw["by"] = [r.choice((n, self.F.col(n))) for n in by]
            what.append(f"by={by}")
        S = self.functions.stats
        options = {
            "n": (S.count, lambda rows: len(rows)),
            "c": (lambda: S.count("s"), lambda rows: sum(row["s"] is not None for row in rows)),
            "m": (lambda: S.max(value="i"), lambda rows: max((row["i"] for row in rows if row["i"] is not None), default=None)),
            "u": (lambda: S.sum_("l"), lambda rows: None if all(row["l"] is None for row in rows) else sum(row["l"] or 0 for row in rows)),
            "d": (lambda: S.dc(self.F.col("s")), lambda rows: len({row["s"] for row in rows if row["s"] is not None})),
            "v": (lambda: S.values("s"), lambda rows: sorted({row["s"] for row in rows if row["s"] is not None})),
        }
        used = r.sample(sorted(options), r.randint(1, len(options)))
        calls = {n: options[n][0]() for n in used}
        as_stats = set(kw) <= {"by"} and r.random() < 0.5
        f = self.commands.stats if as_stats else self.commands.tstats
        what = f"{'stats' if as_stats else 'tstats'}({', '.join(what)}): {used}"
        names, rows = self.call(what, lambda: f(df, **kw, **calls))
        groups = {}
        for row in data:
            groups.setdefault(tuple(row[b] for b in by), []).append(row)
        if not by:
            groups.setdefault((), [])
        if names != by + used:
            raise Violation(f"{what}: the columns are {names} instead of {by + used}")
        if sorted(map(repr, (row[: len(by)] for row in rows))) != sorted(map(repr, groups)):
            raise Violation(f"{what}: the groups are {[row[: len(by)] for row in rows]} instead of {list(groups)}\nof {data}")
        for row in rows:
            group = groups[row[: len(by)]]
            for n, got in zip(used, row[len(by) :]):
                want = options[n][1](group)
                if not same_value(got, want):
                    raise Violation(f"{what}: {n} of {row[: len(by)]} is {got!r} instead of {want!r}\nof {group}")
                self.observed["aggregates compared"] += 1
        return f"{what} {i}", what
