"""Whole pipelines return on a real Spark session the rows that SPL defines, in both modes."""
import json
import random
import re
from fractions import Fraction

from evalref import SCHEMA, WORDS, EvalGen, quote, random_row
from harness import Violation
from sparkbase import SparkCheck, same_value

MAIN = [("id", "bigint"), ("g", "string"), ("_raw", "string"), ("doc", "string")] + SCHEMA
OTHER = [("id", "bigint"), ("g", "string"), ("_raw", "string"), ("a", "bigint"), ("x", "double"), ("s", "string"), ("z", "string")]
LOOKUP = [("g", "string"), ("q", "string"), ("v", "int"), ("only", "double")]
KIND = {"bigint": "int", "int": "int", "double": "num", "string": "str", "boolean": "bool", "array<string>": "mv"}
GROUPS = ["north", "south", "east", "x1", "two words"]
RAWS = ["login failed for bob", "Login ok", "ERROR disk full", "user=alice action=logout", "nothing", "GET /index.html 200", "error: timeout (30s)", "bob logged out"]
OPS = {"=": lambda a, b: a == b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
# Regular expressions that match any text without line breaks
EXTRACTS = [("^(?<{0}>[a-z]*)", r"^([a-z]*)"), ("(?<{0}>.*)$", r"(.*)$"), (r"^(?<{0}>[^ ]*) ?(?<{1}>.*)", r"^([^ ]*) ?(.*)"), (r"^(?<{0}>.?)(?<{1}>.?)", "^(.?)(.?)"), (r"^(?<{0}>\D*)(?<{1}>\d*)", r"^(\D*)(\d*)")]
KEYS = ("a", "name", "items", "n_1", "sub-key", "two words", "é")


def document(r, depth=3):
    k = r.random()
    if depth and (depth == 3 or k < 0.35):
        return {key: document(r, depth - 1) for key in r.sample(KEYS, r.randint(1, 5))}
    if depth and k < 0.6:
        return [x for x in (document(r, depth - 1) for _ in range(r.randint(0, 13 if k > 0.55 else 3))) if x is not None]
    return r.choice((None, True, False, 0, -7, 12345, "", "x y", 'it"s', "back\\slash", "Straße", "1", "{}"))


def data_path(r, v):
    """A path that leads somewhere into the document, or nearly so"""
    steps = []
    while isinstance(v, dict) and v and (not steps or r.random() < 0.85):
        key = r.choice(list(v)) if r.random() < 0.9 else r.choice(KEYS)
        steps.append([key])
        v = v.get(key)
        while isinstance(v, list) and r.random() < 0.85:
            k = r.randrange(len(v)) if v and r.random() < 0.9 else r.choice((0, 3, 10))
            steps[-1].append(k)
            v = v[k] if k < len(v) else None
    return steps


def follow(v, steps):
    for key, *at in steps:
        v = v.get(key) if isinstance(v, dict) else None
        for k in at:
            v = v[k] if isinstance(v, list) and k < len(v) else None
    if v is None or isinstance(v, str):
        return v
    return json.dumps(v, ensure_ascii=False, separators=(",", ":"))


REGEXES = ["a", "^x", r"\d", "b$", "^$", "[A-Z]", "a|b", r"\s", "(?i)error", r"^\w+$"]


def name_text(n):
    return n if re.fullmatch(r"\w+", n) else f'"{n}"'


def and3(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


def or3(a, b):
    return True if a is True or b is True else None if a is None or b is None else False


def number(v):
    return repr(v) if isinstance(v, float) else str(v)


class Table:
    """The rows at a point of a pipeline, as SPL defines them"""

    def __init__(self, columns, rows, ordered=True):
        self.columns = dict(columns)  # name -> kind of values
        self.rows = [dict(r) for r in rows]
        self.ordered = ordered
        self.original = set(self.columns)  # still what the table had, for the generator of expressions

    def names(self, *kinds):
        return [n for n, k in self.columns.items() if not kinds or k in kinds]

    def full(self, *kinds):
        """The columns without missing values"""
        return [n for n in self.names(*kinds) if all(r[n] is not None for r in self.rows)]

    def set(self, name, kind, values):
        self.columns[name] = kind
        self.original.discard(name)
        for r, v in zip(self.rows, values):
            r[name] = v

    def keep(self, f):
        self.rows = [r for r in self.rows if f(r) is True]

    def select(self, names):
        self.columns = {n: self.columns[n] for n in names}
        self.original &= set(names)
        self.rows = [{n: r[n] for n in names} for r in self.rows]


class Gen:
    def __init__(self, rng, tables):
        self.r, self.tables = rng, tables
        self.fresh = 0
        self.stages = {}
        self.final_order = False

    def new(self):
        self.fresh += 1
        return f"r{self.fresh}"

    # ---------------------------------------------------------------- conditions: (text, function of a row giving True, False or None)

    def atom(self, t, where):
        r = self.r
        k = r.random()
        if not where and k < 0.15 and "_raw" in t.columns:
            w = r.choice(("bob", "error", "ERROR", "disk full", "log", "200", "alice action", "zzz", "timeout (30s)"))
            return (w if re.fullmatch(r"[a-zA-Z]+", w) and r.random() < 0.6 else f'"{w}"'), lambda row: None if row["_raw"] is None else w.lower() in row["_raw"].lower()
        n = r.choice(t.names("int", "num", "str") or ["?"])
        if n == "?":
            return None
        q = name_text(n) if not where or re.fullmatch(r"\w+", n) else f"'{n}'"
        values = [row[n] for row in t.rows if row[n] is not None]
        if t.columns[n] == "str":
            values = [v for v in values if "*" not in v] or ["a"]
            v = r.choice(values) if r.random() < 0.7 else r.choice([w for w in WORDS if "*" not in w])
            k = r.random()
            if k < 0.2 and not where:
                base = re.sub(r"[^a-zA-Z0-9 ]", "", v)[:4].strip()
                shape = r.choice(("{}*", "*{}", "*{}*"))
                if re.fullmatch("[a-zA-Z]+", base):
                    p = shape.format(base)
                    rx = re.compile(p.replace("*", ".*"), re.S)
                    op = r.choice(("=", "=", "!="))
                    return q + op + (p if r.random() < 0.6 else f'"{p}"'), lambda row: None if row[n] is None else (rx.fullmatch(row[n]) is not None) == (op == "=")
            if k < 0.4 and not where:
                vs = [v] + [r.choice(values) for _ in range(r.randint(0, 3))]
                return f"{q} IN ({', '.join(quote(x) for x in vs)})", lambda row: None if row[n] is None else row[n] in vs
            if where and k < 0.3:
                base = re.sub(r"[^a-zA-Z0-9 ]", "", v)[:4]
                shape = r.choice(("{}%", "%{}", "%{}%"))
                rx = re.compile(re.escape(shape.format(base)).replace("%", ".*"), re.S)
                return f'like({q}, "{shape.format(base)}")', lambda row: None if row[n] is None else rx.fullmatch(row[n]) is not None
            if where and k < 0.4:
                p = r.choice(REGEXES)
                return f"match({q}, {quote(p)})", lambda row: None if row[n] is None else re.search(p, row[n], re.ASCII) is not None
            op = r.choice(("=", "!=", "="))
            return f"{q}{op}{quote(v)}", lambda row: None if row[n] is None else OPS[op](row[n], v)
        if where and r.random() < 0.15:
            f = r.choice(("isnull", "isnotnull"))
            return f"{f}({q})", lambda row: (row[n] is None) == (f == "isnull")
        if where and r.random() < 0.25:
            # Two fields, or an expression with one
            m = r.choice(t.names("int", "num"))
            d = r.choice((0, 0, 1, 2, -3))
            op = r.choice(("=", "!=", "<", ">", "<=", ">=", "=="))
            right = "'" + m + "'" if not re.fullmatch(r"\w+", m) else m
            text = f"{q} {op} {right}" if not d else f"{q} {op} {right} {'+' if d > 0 else '-'} {abs(d)}"
            return text, lambda row: None if row[n] is None or row[m] is None else OPS[op](row[n], row[m] + d)
        v = r.choice(values or [1])
        if t.columns[n] == "num":
            v = round(v, 2)
            if "e" in repr(v):
                v = 1.5
        if r.random() < 0.3:
            v += r.choice((-1, 1, 0.5 if t.columns[n] == "num" else 2))
        if not where and t.columns[n] == "int" and r.random() < 0.2:
            vs = [v, r.randint(-9, 9)]
            return f"{q} IN ({', '.join(map(str, vs))})", lambda row: None if row[n] is None else row[n] in vs
        op = r.choice(("=", "!=", "<", ">", "<=", ">="))
        sep = r.choice(("", "", " ")) if not where else " "
        return f"{q}{sep}{op}{sep}{number(v)}", lambda row: None if row[n] is None else OPS[op](row[n], v)

    def condition(self, t, where=False, depth=2):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.45:
            for _ in range(5):
                x = self.atom(t, where)
                if x:
                    return x
            return None
        a = self.condition(t, where, depth - 1)
        if a is None:
            return None
        if k < 0.6:
            # In SPL, NOT keeps the rows without the field; the translation does not (see the known findings)
            if any(a[1](row) is None for row in t.rows):
                return a
            return f"NOT ({a[0]})", lambda row: not a[1](row)
        b = self.condition(t, where, depth - 1)
        if b is None:
            return a
        op = r.choice(("AND", "OR") if where else ("AND", "OR", ""))
        f = or3 if op == "OR" else and3
        return f"({a[0]}) {op} ({b[0]})", lambda row: f(a[1](row), b[1](row))

    # ---------------------------------------------------------------- commands: each changes the table and returns its text, or None

    def search(self, t):
        c = self.condition(t)
        if c is None:
            return None
        t.keep(c[1])
        return "search " + c[0]

    def where(self, t):
        c = self.condition(t, True)
        if c is None:
            return None
        t.keep(c[1])
        return "where " + c[0]

    def eval(self, t):
        r = self.r
        out = []
        for _ in range(r.choice((1, 1, 2, 3))):
            fields = {"int": [], "num": [], "str": [], "mv": [], "bool": []}
            for n in t.original:
                if n in ("id", "g", "_raw", "doc", "z", "v", "only", "q", "k", "ip", "url", "j"):
                    continue
                fields[t.columns[n]].append(n)
            for kind in fields:
                fields[kind].sort()
            kinds = ["int", "num", "str", "mv", "bool"]
            if not all(fields[k] for k in kinds) or not {"k", "ip", "url", "j"} <= t.original:
                # What the generator of expressions needs is gone: plain expressions instead
                n = r.choice(t.names("int", "num") or ["?"])
                if n == "?" or not re.fullmatch(r"\w+", n):
                    break
                d = r.choice((1, 2, 10))
                new, kind = self.new(), t.columns[n]
                out.append(f"{new}={n} + {d}")
                t.set(new, kind, [None if row[n] is None else row[n] + d for row in t.rows])
                continue
            g = EvalGen(r, fields, cidr=0.01)
            x = g.any(r.choice((1, 1, 2)))
            new = self.new() if r.random() < 0.75 else r.choice(t.names())
            if not re.fullmatch(r"\w+", new) or new in ("id", "_raw", "t", "f"):
                new = self.new()
            values = [x.f(row) for row in t.rows]
            out.append(f"{new}={x.text}")
            t.set(new, x.type, values)
        return "eval " + ", ".join(out) if out else None

    def fields(self, t):
        r = self.r
        names = t.names()
        if r.random() < 0.5 and len(names) > 1:
            drop = r.sample(names, r.randint(1, min(4, len(names) - 1)))
            t.select([n for n in names if n not in drop])
            return "fields - " + r.choice((", ", " ")).join(map(name_text, drop))
        keep = r.sample(names, r.randint(1, len(names)))
        t.select(keep)
        return "fields " + r.choice(("", "+ ")) + ", ".join(map(name_text, keep))

    def table(self, t):
        keep = self.r.sample(t.names(), self.r.randint(1, len(t.columns)))
        t.select(keep)
        self.final_order = True
        return "table " + self.r.choice((", ", " ")).join(map(name_text, keep))

    def rename(self, t):
        r = self.r
        pairs = [(n, self.new() if r.random() < 0.8 else self.new() + " new") for n in r.sample(t.names(), min(len(t.columns), r.choice((1, 1, 2, 3))))]
        m = dict(pairs)
        t.columns = {m.get(n, n): k for n, k in t.columns.items()}
        t.rows = [{m.get(n, n): v for n, v in row.items()} for row in t.rows]
        t.original -= set(m)
        return "rename " + ", ".join(f"{name_text(a)} {r.choice(('AS', 'as'))} {name_text(b)}" for a, b in pairs)

    def head(self, t):
        n = self.r.choice((0, 1, 3, 5, 10, 40))
        if not t.ordered and n < len(t.rows):
            return None
        t.rows = t.rows[:n]
        return self.r.choice(("head {}", "head limit={}")).format(n)

    def sort(self, t):
        r = self.r
        able = [n for n in t.full("int", "num", "str") if re.fullmatch(r"\w+", n)]
        if not able:
            return None
        keys = [(n, r.random() < 0.5) for n in r.sample(able, min(len(able), r.choice((1, 1, 2, 3))))]
        if "id" in able and all(n != "id" for n, _ in keys):
            keys.append(("id", r.random() < 0.5))
        seen = {tuple(row[n] for n, _ in keys) for row in t.rows}
        unique = len(seen) == len(t.rows)
        limit = r.choice((None, None, 0, 3, 10)) if unique else r.choice((None, 0))
        for n, desc in reversed(keys):
            t.rows.sort(key=lambda row: row[n], reverse=desc)
        t.ordered = unique
        if limit:
            t.rows = t.rows[:limit]
        return "sort " + ("" if limit is None else f"{limit} ") + ", ".join(r.choice(("-",) if desc else ("", "+")) + name_text(n) for n, desc in keys)

    def stats(self, t):
        r = self.r
        by = r.sample(t.full("int", "str"), min(len(t.full("int", "str")), r.choice((0, 1, 1, 2))))
        by = [n for n in by if re.fullmatch(r"\w+", n)]
        groups = {}
        for row in t.rows:
            groups.setdefault(tuple(row[n] for n in by), []).append(row)
        if not by:
            groups.setdefault((), [])
        columns = {n: t.columns[n] for n in by}
        rows = [dict(zip(by, key)) for key in groups]
        texts = []
        for _ in range(r.choice((1, 2, 3))):
            out = self.new()
            f = r.choice(("count", "count", "sum", "avg", "min", "max", "dc", "range", "sumsq", "mean", "count_f"))
            numbers = [n for n in t.names("int", "num") if re.fullmatch(r"\w+", n)]
            plain = numbers + [n for n in t.names("str") if re.fullmatch(r"\w+", n)]
            n = r.choice((plain if f in ("min", "max", "dc", "count_f") else numbers) or ["?"])
            if f == "count" or n == "?":
                texts.append(r.choice(("count", "count()")) + f" AS {out}")
                values, kind = [len(g) for g in groups.values()], "int"
            else:
                texts.append(f"{f[:5] if f == 'count_f' else f}({n}) AS {out}")
                kind = "int" if f in ("dc", "count_f") else "num" if f in ("avg", "mean", "sumsq") else t.columns[n]
                values = [aggregate(f, [row[n] for row in g if row[n] is not None]) for g in groups.values()]
                if any(v is not None and not isinstance(v, str) and abs(v) > 2**52 for v in values):
                    return None
            columns[out] = kind
            for row, v in zip(rows, values):
                row[out] = v
        t.columns, t.rows, t.ordered, t.original = columns, rows, len(rows) < 2, set()
        return "stats " + r.choice((", ", " ")).join(texts) + (" BY " + ", ".join(by) if by else "")

    def fillnull(self, t):
        r = self.r
        if r.random() < 0.5:
            able, v = t.names("str"), r.choice(("none", "NULL", "not known", "a"))
        else:
            able, v = t.names("str", "int", "num"), str(r.choice((0, 1, -1, 42)))
        able = [n for n in able if re.fullmatch(r"\w+", n)]
        if not able:
            return None
        names = r.sample(able, r.randint(1, len(able)))
        for n in names:
            value = v if t.columns[n] == "str" else float(v) if t.columns[n] == "num" else int(v)
            t.set(n, t.columns[n], [value if row[n] is None else row[n] for row in t.rows])
        return f"fillnull value={v if re.fullmatch(r'-?[a-zA-Z0-9]+', v) else quote(v)} " + " ".join(names)

    def regex(self, t):
        r = self.r
        able = [n for n in t.full("str") if re.fullmatch(r"\w+", n)]
        if not able:
            return None
        n, p, op = r.choice(able), r.choice(REGEXES), r.choice(("=", "!="))
        t.keep(lambda row: (re.search(p, row[n], re.ASCII) is not None) == (op == "="))
        return f'regex {n}{op}"{p}"'

    def rex(self, t):
        r = self.r
        able = [n for n in t.names("str") if re.fullmatch(r"\w+", n)]
        if not able:
            return None
        n, (spl, p) = r.choice(able), r.choice(EXTRACTS)
        outs = [self.new() for _ in range(p.count("("))]
        ms = [None if row[n] is None else re.search(p, row[n], re.ASCII) for row in t.rows]
        for k, out in enumerate(outs):
            t.set(out, "str", [m and m[k + 1] for m in ms])
        return f'rex field={n} "{spl.format(*outs)}"'

    def spath(self, t):
        r = self.r
        docs = [json.loads(row["doc"]) for row in t.rows if row["doc"]] if "doc" in t.original else []
        if not docs:
            return None
        steps = data_path(r, r.choice(docs))
        path = ".".join(key + "".join(f"{{{k}}}" for k in at) for key, *at in steps)
        out = path if re.fullmatch("[a-z_0-9{} -]+", path) and r.random() < 0.5 else self.new()  # names with dots are paths to Spark
        t.set(out, "str", [None if not row["doc"] else follow(json.loads(row["doc"]), steps) for row in t.rows])
        path = path if re.fullmatch(r"[a-z_]+", path) and r.random() < 0.5 else quote(path)
        return "spath input=doc " + (f"output={out} " if out.startswith("r") else "") + r.choice(("", "path=")) + path

    def addtotals(self, t):
        r = self.r
        able = [n for n in t.names("int", "num") if re.fullmatch(r"\w+", n)]
        if len(able) < 2:
            return None
        names, out = r.sample(able, r.randint(2, min(4, len(able)))), self.new()
        t.set(out, "num", [float(sum(Fraction(row[n] or 0) for n in names)) for row in t.rows])
        return f"addtotals fieldname={out} " + " ".join(names)

    def lookup(self, t):
        r = self.r
        able = [n for n in t.names("str") if n == "g"]
        if not able or "g" not in t.original:
            return None
        outs = [(n, self.new()) for n in r.sample(("q", "v", "only"), r.randint(1, 3))]
        found = {row["g"]: row for row in self.tables["lk"][1]}
        columns = dict(self.tables["lk"][0])
        was = set(t.original)
        for n, out in outs:
            t.set(out, KIND[columns[n]], [found[row["g"]][n] if row["g"] in found else None for row in t.rows])
        t.original = was
        t.ordered = len(t.rows) < 2
        return "lookup lk g OUTPUT " + r.choice((", ", " ")).join(f"{n} AS {out}" for n, out in outs)

    def convert(self, t):
        if "k" not in t.original:
            return None
        out = self.new()
        t.set(out, "num", [None if row["k"] is None else float(row["k"]) for row in t.rows])
        return f"convert rmcomma(k) AS {out}"

    # ---------------------------------------------------------------- pipelines

    def source(self, name, keyword=False):
        schema, rows = self.tables[name]
        t = Table([(n, KIND[ty]) for n, ty in schema], rows)
        text = ("search " if keyword else self.r.choice(("", "search "))) + f"index={name}"
        if self.r.random() < 0.5:
            c = self.condition(t)
            if c:
                t.keep(c[1])
                text += " " + c[0]
        return text, t

    def steps(self, text, t, n, choices=None):
        r = self.r
        for _ in range(n):
            name = r.choice(choices or ("search", "where", "where", "eval", "eval", "eval", "fields", "table", "rename", "head", "sort", "sort", "stats", "fillnull", "rex", "spath", "spath", "addtotals", "lookup", "convert"))
            self.final_order = False
            s = getattr(self, name)(t)
            if s is None or not t.columns:
                continue
            self.stages[name] = self.stages.get(name, 0) + 1
            text += r.choice((" | ", "|", " |")) + s
        return text, t

    def pipeline(self):
        r = self.r
        k = r.random()
        if k < 0.75:
            return self.steps(*self.source("main"), r.choice((1, 2, 3, 4, 6, 8)))
        if k < 0.9:
            return self.multisearch()
        return self.join()

    def multisearch(self):
        r = self.r
        self.stages["multisearch"] = self.stages.get("multisearch", 0) + 1
        parts = [self.steps(*self.source(r.choice(("main", "other")), True), r.choice((0, 0, 1, 2)), ("where", "fields", "fillnull", "search", "rename")) for _ in range(r.choice((2, 2, 3)))]
        columns = {}
        for _, t in parts:
            for n, kind in t.columns.items():
                columns.setdefault(n, kind)
        all_rows = [{n: row.get(n) for n in columns} for _, t in parts for row in t.rows]
        whole = Table(columns, all_rows)
        whole.original = set.intersection(*(t.original for _, t in parts)) - {"id"}
        if "id" in whole.columns:
            # Not unique any more: rows of the same table may come twice
            ids = [row["id"] for row in all_rows]
            if len(set(ids)) < len(ids):
                pass
        return self.steps(r.choice(("| ", "")) + "multisearch " + " ".join(f"[{s}]" for s, _ in parts), whole, r.choice((0, 1, 2, 3)))

    def join(self):
        """The two tables share the joined fields only"""
        r = self.r
        self.stages["join"] = self.stages.get("join", 0) + 1
        text, t = self.steps(*self.source("main"), r.choice((0, 1, 2)), ("where", "eval", "search", "fillnull"))
        sub, u = self.source("other", True)
        rest = [n for n in u.columns if n not in t.columns and n != "id"] + ["z"]
        names = ["id"] + sorted(set(rest))
        u.select([n for n in dict.fromkeys(names) if n in u.columns])
        sub += " | fields " + ", ".join(u.columns)
        kind = r.choice(("", "type=inner ", "type=left ", "type=outer "))
        found = {row["id"]: row for row in u.rows}
        names = list(t.columns) + ["=" + n if n == "id" else n for n in u.columns]
        rows = []
        for row in t.rows:
            m = found.get(row["id"])
            if m or "left" in kind or "outer" in kind:
                rows.append({**row, **{"=" + n if n == "id" else n: m[n] if m else None for n in u.columns}})
        out = Table([(n, "?") for n in names], rows, len(rows) < 2)
        self.final_order = False
        return text + f" | join {kind}id [{sub}]", out


def aggregate(f, xs):
    if f in ("count_f",):
        return len(xs)
    if f == "dc":
        return len(set(xs))
    if not xs:
        return None
    if f == "sum":
        s = sum(map(Fraction, xs))
        return int(s) if isinstance(xs[0], int) else float(s)
    if f in ("avg", "mean"):
        return float(sum(map(Fraction, xs)) / len(xs))
    if f == "sumsq":
        return float(sum(Fraction(x) ** 2 for x in xs))
    return {"min": min, "max": max, "range": lambda v: max(v) - min(v)}[f](xs)


def same_row(a, b):
    return all(same_value(x, y) or isinstance(x, (int, float)) and isinstance(y, float) and not isinstance(x, bool) and x == y for x, y in zip(a, b))


class CHECK(SparkCheck):
    id = "C20"
    rule = "distinct pipelines, each run on tables of rows with missing values in both modes and compared row by row"
    assumptions = [
        "a local Spark session in ANSI mode with one partition, so that rows keep their order where no command changes it",
        "text is compared with regard to case, as Spark does; rows are sorted and grouped by, and negated conditions tried on, fields without missing values",
        "rex gets patterns that match; joined tables share nothing but the joined field",
    ]

    KNOWN = [
        ("regex command", "the regex command becomes a call with a text where PySpark requires a column (pinned by the existing tests)", 'index=main | regex s="^x" | table id', "id", [(1,)]),
        ("field of a join", "the joined field is in the result of a join twice, so that no later command can use it", "index=main | join id [search index=other | fields id, z] | table id, z", "id z", [(1, "z1"), (2, None)]),
        ("all elements of an array", "spath does not follow a path through all elements of an array (items{})", 'index=main | eval d="{\\"v\\": [1, 2]}" | spath input=d output=o path="v{}" | fields o', "o", [(["1", "2"],)] * 3),
        ("NOT over a missing field", "NOT drops the rows without the field, which SPL keeps", 'index=main NOT s="x y" | table id', "id", [(2,), (3,)]),
    ]

    def prepare(self):
        self.block = None

    def known_cases(self):
        return [(n, d, (q, columns, rows)) for n, d, q, columns, rows in self.KNOWN]

    def run_fixed(self, name, value):
        q, columns, rows = value
        self.block = None
        self.table("main", [("id", "bigint"), ("s", "string")], [[1, "x y"], [2, None], [3, "y"]])
        self.table("other", [("id", "bigint"), ("z", "string")], [[1, "z1"], [2, None], [9, "z9"]])
        self.judge(q, Table([(n, "?") for n in columns.split()], [dict(zip(columns.split(), row)) for row in rows]))

    def new_block(self, block):
        r = random.Random(f"{self.seed}:table:{block}")
        self.block = block

        def main(i):
            row = random_row(r)
            return {"id": i, "g": r.choice(GROUPS), "_raw": r.choice(RAWS), "doc": None if r.random() < 0.1 else json.dumps(document(r), ensure_ascii=r.random() < 0.3), **row}

        n = r.choice((0, 1, 6, 12, 12, 16, 16, 24))
        rows = [main(i) for i in r.sample(range(100), n)]
        other = []
        for i in r.sample(range(100), r.choice((0, 5, 30))) if r.random() < 0.5 else [row["id"] for row in rows[: n // 2 + 1]]:
            row = main(i)
            other.append({k: row[k] for k in ("id", "g", "_raw", "a", "x", "s")} | {"z": r.choice((None, "z1", "", "some z"))})
        lk = [dict(g=g, q=r.choice((None, "qq", "q " + g)), v=r.randint(0, 9), only=r.choice((0.5, None, 2.0))) for g in r.sample(GROUPS, r.randint(0, len(GROUPS)))]
        self.tables = {"main": (MAIN, rows), "other": (OTHER, other), "lk": (LOOKUP, lk)}
        for name, (schema, data) in self.tables.items():
            self.table(name, schema, [[row[c] for c, _ in schema] for row in data])

    def run(self, rng, i):
        if self.block != i // 40:
            self.new_block(i // 40)
        g = Gen(rng, self.tables)
        q, t = g.pipeline()
        self.judge(q, t, g.final_order)
        for name, k in g.stages.items():
            self.observed["commands " + name] += k
        return q + repr(self.block), q

    def judge(self, q, t, column_order=False):
        want = [tuple(row[n] for n in t.columns) for row in t.rows]
        for runtime in self.modes:
            code = self.render(q, runtime)
            names, got = self.rows(code, f"{q}\nallow_runtime={runtime}")
            say = f"(allow_runtime={runtime})\nquery: {q}\n{code}"
            twice = [n for n in t.columns if n.startswith("=")]
            if twice:
                # A joined field appears on both sides
                if names != [n.lstrip("=") for n in t.columns]:
                    raise Violation(f"the fields are {names} instead of {list(t.columns)} {say}")
                rows = got
            else:
                if (names if column_order else sorted(names)) != (list(t.columns) if column_order else sorted(t.columns)):
                    raise Violation(f"the fields are {names} instead of {list(t.columns)} {say}")
                at = [names.index(n) for n in t.columns]
                rows = [tuple(row[k] for k in at) for row in got]
            if len(rows) != len(want):
                raise Violation(f"{len(rows)} rows instead of {len(want)} {say}\nexpected: {[dict(zip(t.columns, w)) for w in want][:5]}\nfound: {[dict(zip(t.columns, w)) for w in rows][:5]}")
            if t.ordered:
                for k, (a, b) in enumerate(zip(want, rows)):
                    if not same_row(a, b):
                        d = {n: (y, x) for n, x, y in zip(t.columns, a, b) if not same_row([x], [y])}
                        raise Violation(f"row {k}: (found, expected) differ in {d} {say}")
            else:
                left = list(rows)
                for a in want:
                    k = next((k for k, b in enumerate(left) if same_row(a, b)), None)
                    if k is None:
                        raise Violation(f"no row {dict(zip(t.columns, a))!r} {say}\nunmatched: {[dict(zip(t.columns, b)) for b in left][:5]}")
                    del left[k]
            self.observed["rows compared"] += len(rows)
            self.observed["results with rows" if rows else "results without rows"] += 1
