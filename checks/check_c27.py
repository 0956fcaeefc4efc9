"""Searches, data models and tstats read the data that the query names, through the configured lookup."""
import os
import random
import sys
import types

import api
from harness import Violation
from sparkbase import SparkCheck
from spl import spell

HIDDEN = ["_source", "_sourcetype", "_host", "_hosttag", "_eventtype", "_eventtypetag", "_savedsearch", "_splunk_server"]
# field in the query -> argument of the lookup -> column of the default lookup
SELECT = [
    ("source", "source", "_source"), ("sourcetype", "source_type", "_sourcetype"), ("host", "host", "_host"), ("hosttag", "host_tag", "_hosttag"),
    ("eventtype", "event_type", "_eventtype"), ("eventtypetag", "event_type_tag", "_eventtypetag"), ("savedsplunk", "saved_splunk", "_savedsearch"),
    ("splunk_server", "splunk_server", "_splunk_server"),
]
ARGS = ["index"] + [a for _, a, _ in SELECT] + ["data_model"]
SCHEMA = [("id", "int"), ("a", "bigint"), ("s", "string"), ("source", "string"), ("host", "string")] + [(h, "string") for h in HIDDEN]
INDEXES = ["main", "web", "idx_2"]
VALUES = ["x", "y", "wineventlog", "Z9"]
ODD = ["", "a b", "it's", "日本 ü", "-1", "None"]
SILVER = ["x_silver", "y_silver", "x_y_silver", "y_x_silver", "wineventlog_silver", "x_x_silver", "silver"]
BAD = ["nothing", "a:b:c", "no_such_module_zz:f", "os:no_such_function", ":", "os.path:join:x", ""]


class CHECK(SparkCheck):
    id = "C27"
    rule = "distinct queries naming indexes, sources, source types, hosts, data models and further conditions, whose generated code ran against tables of Spark with the default lookup, or against a lookup of the configuration that recorded what it was asked for; and settings of the lookup, valid and not"
    assumptions = ["a source that has no table is an error of Spark; several values of one selector, or a selector under OR, are plain conditions and not judged here"]

    def prepare(self):
        self.block = None
        from spl_transpiler.runtime import config

        self.config = config
        self.asked = []
        hook = types.ModuleType("verif_lookup_hook")

        def lookup(*args, **kw):
            self.asked.append((args, kw))
            return self.spark.table("main")

        hook.lookup = lookup
        hook.holder = types.SimpleNamespace(f=lookup)
        hook.number = 5
        sys.modules["verif_lookup_hook"] = hook
        self.lookup = lookup
        package = types.ModuleType("verif_lookup_pkg")
        package.__path__ = []
        inner = types.ModuleType("verif_lookup_pkg.inner")
        inner.other = lookup
        package.inner = inner
        sys.modules["verif_lookup_pkg"], sys.modules["verif_lookup_pkg.inner"] = package, inner
        for q in ("A", "A_B"):
            self.spark.sql(f"CREATE DATABASE IF NOT EXISTS {q}")

    def use(self, value):
        name = "TRANSPILER_TABLE_LOOKUP_FUNCTION"
        os.environ.pop(name, None)
        os.environ.pop(name.lower(), None)
        if value is not None:
            os.environ[name] = value
        self.config.settings.cache_clear()

    def new_block(self, block):
        r = random.Random(f"{self.seed}:table:{block}")
        self.block, self.data, n = block, {}, 0
        for t in INDEXES + SILVER:
            rows = []
            for _ in range(r.choice((0, 3, 8, 20))):
                n += 1
                row = dict(id=n, a=r.choice((None, 0, 1, 2)), s=r.choice((None, "p", "q")), source=r.choice(VALUES), host=r.choice((None, *VALUES)))
                row.update({h: r.choice((None, "x", "x", "x", "y", "y", "wineventlog", "Z9", *ODD)) if r.random() < 0.5 else "x" for h in HIDDEN})
                rows.append(row)
            self.data[t] = rows
            self.table(t, SCHEMA, [[row[c] for c, _ in SCHEMA] for row in rows])

    def run(self, rng, i):
        if self.block != i // 40:
            self.new_block(i // 40)
        k = rng.random()
        if k < 0.45:
            return self.default(rng)
        if k < 0.6:
            return self.union(rng)
        if k < 0.9:
            return self.recorded(rng)
        return self.setting(rng)

    # ---- queries

    def condition(self, rng):
        f = rng.choice(("a", "s"))
        if f == "a":
            v = rng.choice((0, 1, 2))
            op = rng.choice(("=", "=", "!=", "<", ">="))
            test = {"=": lambda x: x == v, "!=": lambda x: x != v, "<": lambda x: x < v, ">=": lambda x: x >= v}[op]
            return f"a{op}{v}", lambda row: row["a"] is not None and test(row["a"])
        v = rng.choice("pq")
        return rng.choice((f's="{v}"', f"s={v}")), lambda row: row["s"] == v

    def selectors(self, rng, names, odd=True):
        chosen = {}
        for field, arg, col in SELECT:
            if rng.random() < (0.5 if field in names else 0.08):
                v = rng.choice(("x", "x", "y", rng.choice(VALUES)))
                if rng.random() < 0.12 and (odd or field not in ("source", "sourcetype")):
                    v = rng.choice(ODD)
                chosen[field] = (v, arg, col)
        return chosen

    def query(self, rng, index, chosen, conditions):
        terms = [f"{f}={v}" if v in VALUES and rng.random() < 0.6 else f'{f}="{v}"' for f, (v, _, _) in chosen.items()] + [c for c, _ in conditions]
        if index:
            terms.append(rng.choice((f"index={index}", f'index="{index}"')))
        rng.shuffle(terms)
        body = rng.choice((" ", " ", " AND ")).join(terms)
        explicit = rng.random() < 0.7 or not body.startswith("index")
        return ("search " if explicit else "") + body

    def ids(self, q, runtime):
        code = api.must_render(q, runtime)
        names, rows = self.rows(code, f"{q}\nallow_runtime={runtime}")
        if "id" not in names:
            raise Violation(f"no rows of the tables: {names}\n{q}\n{code}")
        return sorted(r[names.index("id")] for r in rows), code

    def default(self, rng):
        self.use(None)
        index = rng.choice((None, *INDEXES))
        chosen = self.selectors(rng, ("source", "sourcetype", "host") if rng.random() < 0.7 else [f for f, _, _ in SELECT], index is not None)
        conditions = [self.condition(rng) for _ in range(rng.choice((0, 0, 1, 2)))]
        if index is None and not {"source", "sourcetype"} & set(chosen):
            chosen["source"] = ("x", "source", "_source")
        if not index:
            if "source" in chosen and "sourcetype" in chosen and rng.random() < 0.9:
                a, b = rng.choice((("x", "y"), ("y", "x"), ("x", "x")))
                chosen["source"], chosen["sourcetype"] = (a, "source", "_source"), (b, "source_type", "_sourcetype")
        q = self.query(rng, index, chosen, conditions)
        use = dict(chosen)
        if index:
            table = index
        else:
            table = "_".join([use.pop(f)[0] for f in ("source", "sourcetype") if f in use] + ["silver"])
        if table not in self.data:
            code = api.must_render(q, True)
            try:
                df = self.execute(code)
                df.collect()
            except Exception as e:
                if "TABLE_OR_VIEW_NOT_FOUND" not in str(e):
                    raise Violation(f"{q}: no table {table}, but the error is {type(e).__name__}: {str(e)[:300]}\n{code}") from None
                if table not in str(e):
                    raise Violation(f"{q}: looks for another table than {table}: {str(e)[:300]}\n{code}") from None
                self.observed["tables that do not exist"] += 1
                return q, q
            raise Violation(f"{q}: there is no table {table}, and yet there are rows\n{code}")
        want = sorted(
            row["id"] for row in self.data[table]
            if all(row[col] == v for v, _, col in use.values()) and all(f(row) for _, f in conditions)
        )
        got, code = self.ids(q, True)
        if got != want:
            raise Violation(f"{q}: rows {got} instead of {want} of table {table}\n{code}")
        self.observed["rows read through the default lookup"] += len(want)
        self.observed["queries of an index" if index else "queries of a source"] += 1
        self.observed["queries with rows" if want else "queries without rows"] += 1
        return q + repr(self.block), q

    def union(self, rng):
        self.use(None)
        names = [rng.choice(INDEXES) for _ in range(rng.choice((1, 2, 2, 3, 3)))]
        conditions = [self.condition(rng) for _ in range(rng.choice((0, 1, 2)))]
        terms = [f"index={n}" for n in names] + [c for c, _ in conditions]
        rng.shuffle(terms)
        q = "search " + " ".join(terms)
        want = sorted(row["id"] for n in set(names) for row in self.data[n] if all(f(row) for _, f in conditions))
        for runtime in (False, True):
            got, code = self.ids(q, runtime)
            if got != want:
                raise Violation(f"{q}: rows {got} instead of {want} of {sorted(set(names))} (allow_runtime={runtime})\n{code}")
        self.observed["rows of unions of indexes"] += len(want)
        return q + repr(self.block), q

    def recorded(self, rng):
        self.use("verif_lookup_hook:lookup")
        self.asked.clear()
        k = rng.random()
        expected = dict.fromkeys(ARGS)
        keep = lambda row: True  # noqa: E731
        if k < 0.5:
            index = rng.choice((None, "main", "other", "a-b", "x y"))
            chosen = self.selectors(rng, [f for f, _, _ in SELECT])
            if not index and not chosen:
                index = "main"
            conditions = [self.condition(rng) for _ in range(rng.choice((0, 1, 2)))]
            words = ("v", "a b", "WinEventLog:Security", "é", "x*y".replace("*", "-"), "10.0.0.1 x")
            chosen = {f: (rng.choice(words) if rng.random() < 0.4 else v, a, c) for f, (v, a, c) in chosen.items()}
            terms = [f'{f}="{v}"' for f, (v, _, _) in chosen.items()] + [c for c, _ in conditions] + ([f'index="{index}"'] if index else [])
            rng.shuffle(terms)
            q = "search " + " ".join(terms)
            expected.update(index=index, **{a: v for v, a, _ in chosen.values()})
            keep = lambda row: all(f(row) for _, f in conditions)  # noqa: E731
            ids = True
        else:
            model = rng.choice(("A", "Endpoint", "A.B", "Net_Traffic.All"))
            node = rng.choice((None, None, "R", "R.X", "R.X.Y", "All.Z"))
            table = ".".join([model] + ((node or "").split(".")[1:]))
            expected.update(index=table)
            if k < 0.7:
                q = f"| datamodel {model}" + (f" {node} search" if node else "")
                ids = True
                if not node:
                    q = f"| datamodel {model} {model} search"
                    expected.update(index=".".join([model] + model.split(".")[1:]))
                    if rng.random() < 0.3:
                        q = f"| datamodel {model} R search"
                        expected.update(index=model)
            else:
                by = rng.random() < 0.3
                q = f"tstats count from datamodel={model}" + (f" where nodename={node}" if node else "") + (" where a=1" if rng.random() < 0.4 and not node else "") + (" by s" if by else "")
                ids = False
                where = "where a=1" in q
        code = api.must_render(q, True)
        names, rows = self.rows(code, q)
        if len(self.asked) != 1:
            raise Violation(f"{q}: the lookup is asked {len(self.asked)} times\n{code}")
        args, kw = self.asked[0]
        got = dict.fromkeys(ARGS)
        got.update(dict(zip(ARGS, args)))
        got.update(kw)
        want = dict(expected)
        if not ids or "datamodel" in q:
            # A data model may be looked up as one, or as a table
            other = dict(want, index=None, data_model=want["index"])
            if got == other:
                want = other
        if got != want:
            raise Violation(f"{q}: the lookup is asked for {({k: v for k, v in got.items() if v is not None})} instead of {({k: v for k, v in want.items() if v is not None})}\n{code}")
        if ids:
            have = sorted(r[names.index("id")] for r in rows)
            should = sorted(row["id"] for row in self.data["main"] if keep(row))
            if have != should:
                raise Violation(f"{q}: rows {have} instead of {should} of what the lookup gave\n{code}")
        else:
            total = sum(r[names.index("count")] for r in rows)
            should = sum(1 for row in self.data["main"] if not where or row["a"] == 1)
            if total != should:
                raise Violation(f"{q}: counts {total} instead of {should} rows of what the lookup gave\n{code}")
        self.observed["lookups recorded"] += 1
        return q + repr(self.block), q

    def setting(self, rng):
        if rng.random() < 0.5:
            bad = rng.choice(BAD + ["verif_lookup_hook:" + rng.choice(("nope", "number", "")), "verif_lookup_pkg.none:x"])
            self.use(bad)
            try:
                r = self.config.settings()
            except ValueError as e:
                self.observed["invalid settings refused"] += 1
                self.use(None)
                return ("bad", bad, str(e)[:0]), f"setting {bad!r} refused"
            finally:
                os.environ.pop("TRANSPILER_TABLE_LOOKUP_FUNCTION", None)
            raise Violation(f"the setting {bad!r} is accepted: {r}")
        good, f = rng.choice((("verif_lookup_hook:lookup", self.lookup), ("verif_lookup_pkg.inner:other", self.lookup), ("os.path:join", os.path.join), (None, self.config.default_table_lookup)))
        self.use(good)
        r = self.config.settings()
        if r.table_lookup_function is not f:
            raise Violation(f"the setting {good!r} gives {r.table_lookup_function}")
        if self.config.settings() is not r:
            raise Violation("the settings are read again for every use")
        made = self.config.SplTranspilerSettings(table_lookup_function=self.lookup)
        if made.table_lookup_function is not self.lookup:
            raise Violation("a function given as the setting is not the one that is used")
        self.observed["valid settings"] += 1
        return ("good", good), f"setting {good!r}"
