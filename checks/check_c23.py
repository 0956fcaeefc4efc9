"""The aggregations of stats compute on Spark what SPL defines, in both modes."""
import bisect
import datetime as dt
import math
import random
from fractions import Fraction

from harness import Skip, Violation
from sparkbase import SparkCheck, same_value

UTC = dt.timezone.utc
SCHEMA = [("g", "string"), ("h", "int"), ("a", "bigint"), ("b", "int"), ("x", "double"), ("z", "bigint"), ("s", "string"), ("u", "string"), ("_time", "timestamp")]
NUMBERS, TEXTS = ["a", "b", "x", "z"], ["s", "u"]


def close(want, rel=1e-9):
    """A test for a number up to rounding"""
    def test(v):
        if want is None or v is None:
            return v is want
        return isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v - want) <= rel * max(1e-9, abs(want), abs(v)) + 1e-12

    return test, want


def one_of(values):
    return (lambda v: any(same_value(v, w) for w in values)), "one of " + repr(values[:8])


def exactly(want):
    return (lambda v: same_value(v, want)), want


def variance(xs, sample):
    n = len(xs) - (1 if sample else 0)
    if not xs:
        return None
    if n == 0:
        return "none"
    fs = [Fraction(x) for x in xs]
    mean = sum(fs) / len(fs)
    return sum((f - mean) ** 2 for f in fs) / n


def spread(name):
    sample = not name.endswith("p")

    def f(rows, field, arg):
        v = variance([r[field] for r in rows if r[field] is not None], sample)
        if v == "none":
            # A single value has no sample deviation: SPL gives 0, Spark nothing
            return one_of([None, 0, 0.0, math.nan])
        if v is None:
            return exactly(None)
        want = float(v) if "var" in name else math.sqrt(v)
        test, _ = close(want, 1e-7)
        return (lambda got: test(got) or isinstance(got, float) and abs(got - want) < 1e-6 * max(1.0, *(abs(r[field]) for r in rows if r[field] is not None))), want

    return f


def present(rows, field):
    return [r[field] for r in rows if r[field] is not None]


def approx_percentile(rows, field, p):
    """A value of the data with no more than p percent of the values below it, and at least p percent up to it"""
    xs = present(rows, field)
    if not xs:
        return exactly(None)
    q, xs = Fraction(p, 100) * len(xs), sorted(xs)
    return one_of(sorted({x for x in xs if bisect.bisect_left(xs, x) <= q <= bisect.bisect_right(xs, x)}))


def exact_percentile(rows, field, p):
    xs = sorted(present(rows, field))
    if not xs:
        return exactly(None)
    at = Fraction(p, 100) * (len(xs) - 1)
    lo, hi = xs[math.floor(at)], xs[math.ceil(at)]
    want = lo + (hi - lo) * float(at - math.floor(at))
    return close(want)


def mode(rows, field, _):
    xs = present(rows, field)
    if not xs:
        return exactly(None)
    n = {x: xs.count(x) for x in xs}
    return one_of([x for x in n if n[x] == max(n.values())])


def by_time(last):
    def f(rows, field, _):
        seen = sorted((r for r in rows if r[field] is not None), key=lambda r: r["_time"])
        if not seen:
            return exactly(None)
        t = seen[-1 if last else 0]["_time"]
        return one_of([r[field] for r in seen if r["_time"] == t])

    return f


def values(rows, field, _):
    want = sorted(set(present(rows, field)))
    # Standalone code leaves the order open (see the known findings)
    return (lambda v, runtime: isinstance(v, list) and (v if runtime else sorted(v)) == want), want


def listed(rows, field, _):
    # SPL cuts lists off after 100 values, unless it is configured otherwise
    return one_of([present(rows, field), present(rows, field)[:100]])


def simple(f, empty=None):
    def g(rows, field, _):
        xs = present(rows, field)
        return exactly(f(xs) if xs else empty)

    return g


# name -> (kinds of field, function of the rows, the field and the number in the name, giving a test and a description, whether it depends on the order of rows)
FUNCTIONS = {
    "avg": ("n", lambda rows, f, _: close(float(sum(map(Fraction, present(rows, f))) / len(present(rows, f))) if present(rows, f) else None), None),
    "mean": ("n", lambda rows, f, _: close(float(sum(map(Fraction, present(rows, f))) / len(present(rows, f))) if present(rows, f) else None), None),
    "sum": ("n", lambda rows, f, _: close(sum(present(rows, f)) if present(rows, f) else None), None),
    "sumsq": ("n", lambda rows, f, _: close(sum(x * x for x in present(rows, f)) if present(rows, f) else None), None),
    "count": ("ns", simple(len, 0), None),
    "dc": ("ns", simple(lambda xs: len(set(xs)), 0), None),
    "distinct_count": ("ns", simple(lambda xs: len(set(xs)), 0), None),
    "estdc": ("ns", lambda rows, f, _: ((lambda n: lambda v: isinstance(v, int) and abs(v - n) <= 1 + n * 0.15)(len(set(present(rows, f)))), f"about {len(set(present(rows, f)))}"), None),
    "min": ("ns", simple(min), None),
    "max": ("ns", simple(max), None),
    "range": ("n", lambda rows, f, _: close(max(present(rows, f)) - min(present(rows, f)) if present(rows, f) else None), None),
    "stdev": ("n", spread("stdev"), None),
    "stdevp": ("n", spread("stdevp"), None),
    "var": ("n", spread("var"), None),
    "varp": ("n", spread("varp"), None),
    "median": ("n", lambda rows, f, _: approx_percentile(rows, f, 50), None),
    "percentile": ("n", approx_percentile, None),
    "upperperc": ("n", approx_percentile, None),
    "exactperc": ("n", exact_percentile, None),
    "mode": ("ns", mode, None),
    "first": ("ns", simple(lambda xs: xs[0]), "input"),
    "last": ("ns", simple(lambda xs: xs[-1]), "input"),
    "list": ("ns", listed, "input"),
    "values": ("ns", values, None),
    "earliest": ("ns", by_time(False), "time"),
    "latest": ("ns", by_time(True), "time"),
    "earliest_time": ("", lambda rows, _, __: exactly(min((r["_time"] for r in rows), default=None)), None),
    "latest_time": ("", lambda rows, _, __: exactly(max((r["_time"] for r in rows), default=None)), None),
}
def rate(rows, field, _):
    """The change of the value from its first to its last appearance, by second of all rows"""
    seen = sorted((r for r in rows if r[field] is not None), key=lambda r: r["_time"])
    if not seen:
        return exactly(None)
    ends = [[r[field] for r in seen if r["_time"] == seen[k]["_time"]] for k in (0, -1)]
    seconds = Fraction(str((max(r["_time"] for r in rows) - min(r["_time"] for r in rows)).total_seconds()))
    wants = [float((Fraction(b) - Fraction(a)) / seconds) for a in ends[0] for b in ends[1]]
    return (lambda v: isinstance(v, float) and any(abs(v - w) <= (1e-9 + 1e-6 / float(seconds)) * max(1e-6, abs(w)) for w in wants)), wants[:5]


FUNCTIONS["rate"] = ("n", rate, "time")
DISTINCT = {"dc", "distinct_count"}
STANDALONE_ONLY = {"stdevp"}  # the runtime library has no function for it, so that its use is refused with it


def condition(r, depth=1):
    """A condition in eval(): (text, function of a row giving True, False or None)"""
    k = r.random()
    if depth and k < 0.3:
        (p, f), (q, g) = condition(r, 0), condition(r, 0)
        if r.random() < 0.5:
            return f"{p} AND {q}", lambda row: False if f(row) is False or g(row) is False else None if f(row) is None or g(row) is None else True
        return f"{p} OR {q}", lambda row: True if f(row) or g(row) else None if f(row) is None or g(row) is None else False
    n = r.choice(NUMBERS + TEXTS)
    if k < 0.45:
        return f"isnull({n})", lambda row: row[n] is None
    if k < 0.55:
        return f"isnotnull({n})", lambda row: row[n] is not None
    if n in TEXTS:
        v = r.choice(("a", "b", "ab", "", "zz"))
        if k < 0.65:
            return f'like({n}, "{v}%")', lambda row: None if row[n] is None else row[n].startswith(v)
        op = r.choice(("=", "==", "!="))
        return f'{n} {op} "{v}"', lambda row: None if row[n] is None else (row[n] == v) == (op != "!=")
    v = r.choice((0, 1, 2, 5, 9))
    op, f = r.choice((("=", lambda a: a == v), ("!=", lambda a: a != v), ("<", lambda a: a < v), (">=", lambda a: a >= v), (">", lambda a: a > v)))
    return f"{n} {op} {v}", lambda row: None if row[n] is None else f(row[n])


def expression(r):
    """A number in eval()"""
    n, m, d = r.choice(NUMBERS), r.choice(NUMBERS), r.choice((1, 2, 10))
    k = r.randrange(4)
    if k == 0:
        return f"{n} * {d}", lambda row: None if row[n] is None else row[n] * d
    if k == 1:
        return f"{n} + {m}", lambda row: None if row[n] is None or row[m] is None else row[n] + row[m]
    if k == 2:
        c, f = condition(r)
        return f"if({c}, {d}, 0)", lambda row: d if f(row) else 0
    return f"abs({n})", lambda row: None if row[n] is None else abs(row[n])


def random_rows(r):
    def maybe(v, p=0.15):
        return None if r.random() < p else v

    n = r.choice((0, 1, 2, 5, 12, 24, 24, 40, 120)) if r.random() < 0.93 else 1500
    groups = r.choice((["p"], ["p", "q"], ["p", "q", "", "a b", "é"], [f"g{i}" for i in range(20)]))
    missing = r.choice((0, 0.1, 0.1, 0.6))
    t0 = dt.datetime(2024, 1, 1)
    return [
        dict(
            g=r.choice(groups), h=r.randint(0, 2), a=maybe(r.choice((0, 1, 1, 2, 5, -3, r.randint(-100, 100))), missing), b=maybe(r.randint(0, 9), missing),
            x=maybe(r.choice((0.5, 1.0, -2.25, r.randint(-4000, 4000) / 16)), missing), z=r.randint(0, 10**6),
            s=maybe(r.choice(("", "a", "b", "B", "ab", "é", "10", "9", "x y")), missing), u=maybe("".join(r.choice("abc") for _ in range(r.randint(0, 3))), missing),
            _time=t0 + dt.timedelta(seconds=r.choice((r.randint(0, 5), r.randint(0, 10**6))), microseconds=r.randint(0, 999999) if r.random() < 0.5 else 0),
        )
        for _ in range(n)
    ]


class CHECK(SparkCheck):
    id = "C23"
    rule = "distinct stats commands, each run on a table of rows with missing values in both modes and compared value by value"
    assumptions = [
        "results are named with `as`; the order within values() is left open, as Spark leaves it; a group of rows without the by field may appear or not",
        "first, last and list do not occur together with earliest and latest, whose sorting they would follow (see the known finding)",
    ]
    KNOWN = [
        ("first with latest", "standalone: earliest() and latest() sort the rows for first(), last() and list() too", "first(a) as f latest(a) as l", [("f", "first", "a", 0, 0), ("l", "latest", "a", 0, 0)]),
        ("dc with latest", "standalone: next to distinct counts, earliest() and latest() take the first and the last row of a group", "dc(b) as d latest(a) as l by g", [("d", "dc", "b", 0, 0), ("l", "latest", "a", 0, 0)]),
        ("latest of many groups", "standalone: next to values() or list() in more than 128 groups, earliest() and latest() (and first() and last()) take any row of a group", "values(b) as v latest(a) as l by h", [("v", "values", "b", 0, 0), ("l", "latest", "a", 0, 0)]),
        ("order of values", "standalone: values() are not sorted", "values(u) as v", [("v", "values", "u", 0, 0)]),
    ]

    def prepare(self):
        self.block = None

    def new_block(self, block):
        r = random.Random(f"{self.seed}:table:{block}")
        self.block, self.data = block, random_rows(r)
        self.fill()

    def fill(self):
        self.table("main", SCHEMA, [[r[n] for n, _ in SCHEMA] for r in self.data])

    def known_cases(self):
        return [(n, d, (text, calls)) for n, d, text, calls in self.KNOWN]

    def run_fixed(self, name, value):
        t = dt.datetime(2024, 1, 1)
        self.block = None
        self.data = [dict(g=g, h=0, a=a, b=a % 3, x=0.0, z=0, s="", u="zyxwvutsrq"[a], _time=t + dt.timedelta(seconds=s)) for g, a, s in (("p", 5, 5), ("q", 7, 8), ("p", 9, 9), ("q", 4, 3), ("p", 3, 1), ("q", 0, 7), ("p", 2, 6))]
        text, calls = value
        if " by h" in text:
            self.data = [dict(g="p", h=k % 400, a=k, b=1, x=0.0, z=0, s="", u="", _time=t + dt.timedelta(seconds=(k // 400 * 2 + k) % 5)) for k in range(2000)]
        self.fill()
        self.judge("index=main | stats " + text, calls, [text[-1]] if " by " in text else [], (False,), known=True)

    def run(self, rng, i):
        if self.block != i // 30:
            self.new_block(i // 30)
        order = rng.choice(("input", "time", "mixed", None))
        # Spark gives up the order of rows with values() and list() in more than 128 groups (see the known findings)
        by = rng.choice(([], [], ["g"], ["h"], ["g", "h"], ["u"], ["b", "u"] if len(self.data) <= 120 else ["u"]))
        some_time = len({r["_time"] for r in self.data}) > 1
        names = [n for n, (_, _, o) in FUNCTIONS.items() if o is None or order in ("mixed", o)]
        names = [n for n in names if n != "rate" or some_time and not by]
        runtime = self.modes
        calls, texts, derived, used = [], [], {}, set()
        for k in range(rng.choice((1, 2, 4, 8, 12))):
            name = rng.choice(names)
            kinds, _, needs = FUNCTIONS[name]
            if "input" in used and name in DISTINCT or used & DISTINCT and needs == "input":
                # The grouping of distinct values gives up the order of the rows
                continue
            field = "_time" if not kinds else rng.choice(NUMBERS + (TEXTS if "s" in kinds else []))
            arg, text = None, name
            if name in ("percentile", "upperperc", "exactperc"):
                arg = rng.choice((0, 1, 10, 25, 50, 75, 90, 95, 99, 100, rng.randint(0, 100)))
                text += str(arg)
            inside = field
            if name in ("count", "sum", "avg", "mean", "dc", "max", "min", "range") and rng.random() < 0.25:
                inside, f = condition(rng) if name == "count" else expression(rng)
                field = inside
                # A count of a condition counts the rows for which it holds
                derived[field] = (lambda f: lambda row: True if f(row) else None)(f) if name == "count" else f
                inside = f"eval({inside})"
            text += f"({inside})" if kinds or rng.random() < 0.7 else "()"
            if name == "count" and rng.random() < 0.3:
                text, field = rng.choice(("count", "count()")), None
            used |= {name, needs}
            out = f"r{k}"
            calls.append((out, name, field, arg, k))
            texts.append(text + rng.choice((" as ", " AS ")) + out)
        if not calls:
            raise Skip()
        if "time" in used and ("input" in used or used & DISTINCT):
            # Standalone code sorts the rows by time for all functions (see the known findings)
            runtime = tuple(m for m in self.modes if m)
        if used & STANDALONE_ONLY:
            runtime = tuple(m for m in runtime if not m)
        q = "index=main | stats " + rng.choice((", ", " ")).join(texts) + (rng.choice((" by ", " BY ")) + rng.choice((", ", " ")).join(by) if by else "")
        self.judge(q, calls, by, runtime, derived)
        return q + repr(self.block), q

    def judge(self, q, calls, by, modes, derived={}, known=False):
        groups = {}
        for row in self.data:
            row = {**row, **{n: f(row) for n, f in derived.items()}}
            groups.setdefault(tuple(row[b] for b in by), []).append(row)
        if not by:
            groups.setdefault((), [])
        for runtime in modes:
            code = self.render(q, runtime)
            names, rows = self.rows(code, f"{q}\nallow_runtime={runtime}")
            if sorted(names) != sorted(by + [c[0] for c in calls]):
                raise Violation(f"the fields are {names} instead of {by + [c[0] for c in calls]}\n{q}\n{code}")
            at = {n: k for k, n in enumerate(names)}
            got = {}
            for row in rows:
                key = tuple(row[at[b]] for b in by)
                if key in got or key not in groups:
                    raise Violation(f"a second or unknown group {key!r} (allow_runtime={runtime})\n{q}\n{code}")
                got[key] = row
            lost = [k for k in groups if k not in got and None not in k]
            if lost:
                raise Violation(f"no group {lost[0]!r} (allow_runtime={runtime})\n{q}\n{code}")
            for key, row in got.items():
                for out, name, field, arg, _ in calls:
                    if name == "count" and field is None:
                        test, want = exactly(len(groups[key]))
                    else:
                        test, want = FUNCTIONS[name][1](groups[key], field, arg)
                    value = row[at[out]]
                    if not (test(value, runtime or known) if name == "values" else test(value)):
                        raise Violation(f"{out} of group {key!r} is {value!r} instead of {want!r} (allow_runtime={runtime})\n{q}\nrows: {[(r[field] if field else 1, str(r['_time'])) for r in groups[key]]}\n{code}")
                    self.observed["values of " + name + (" of eval()" if field in derived else "")] += 1
                    if value in (None, [], 0):
                        self.observed["values that are nothing or zero"] += 1
            self.observed["groups compared"] += len(got)
