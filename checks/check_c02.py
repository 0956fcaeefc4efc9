"""Rendered code is Python that the installed PySpark and the runtime library accept."""
import collections
import re

import api
import apispec
import corpus
import mutate
from check_c03 import Hostile
from cmds import CmdGen
from harness import Check, Skip, Violation
from spl import spell

class CHECK(Check):
    id = "C02"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct accepted queries - generated, real, and mutations of both - whose code was run against stand-ins that accept exactly the names and signatures of the installed PySpark and the runtime library"
    assumptions = ["the signatures and type hints of the installed PySpark", "functions that the transpiler does not know are passed through by design: outside of generated queries, calls of functions under the name the query gives are not judged"]
    KNOWN = {
        "count-without-column": ("index=main | top a", "top and rare call F.count() without the column that PySpark requires: index=main | top a"),
        "runtime-without-source": ("stats count", "with allow_runtime, stats, eval and fillnull as the first command get None, which the runtime refuses: stats count"),
        "tail-then-more": ("index=main | tail 5 | table a", "tail yields a list of rows, on which no further command can work: index=main | tail 5 | table a"),
    }

    def known_cases(self):
        return [(k, d, q) for k, (q, d) in self.KNOWN.items()]

    def run_fixed(self, name, value):
        self.judge(value, name == "runtime-without-source", ())
        return value, value

    def setup(self):
        self.corpus = corpus.queries()
        self.accepted = []
        for q in self.corpus:
            try:
                api.render(q)
                self.accepted.append(q)
            except api.Rejected:
                pass

    def judge(self, q, runtime, tolerated, tree=None, what="generated"):
        code = api.render(q if tree is None else tree, runtime, False)
        try:
            apispec.check(code, tolerated)
        except apispec.ApiError as e:
            m = re.match(r"F has no function (\w+)", str(e)) or what == "mutated" and re.match(r"F\.(\w+): ", str(e))
            if m and what != "generated" and re.search(rf"\b{m[1]}\b", q):
                self.observed["passed-through unknown functions"] += 1
                return None
            raise Violation(f"query: {q}\nallow_runtime={runtime}\ncode:\n{code[:3000]}\n{e}") from None
        except Exception as e:
            raise Violation(f"query: {q}\nallow_runtime={runtime}\ncode:\n{code[:3000]}\n{type(e).__name__}: {e}") from None
        return code

    def run(self, rng, i):
        k = rng.random()
        if k < 0.5:
            g = (CmdGen if rng.random() < 0.7 else Hostile)(rng)
            g.depth = rng.choice((1, 2, 3))
            q = spell(g.pipeline(level=rng.choice((0, 1, 2))).text, rng if rng.random() < 0.5 else None)
            what = "generated"
        elif k < 0.65:
            q = rng.choice(self.accepted)
            what = "real"
        else:
            q = mutate.mutate(rng.choice(self.accepted) if rng.random() < 0.5 else CmdGen(rng).pipeline(level=1).text, rng, self.corpus)
            q = spell(q)
            what = "mutated"
        try:
            tree = api.parse(q)
        except api.Rejected:
            raise Skip
        tolerated = set()
        r = repr(tree)
        if "TopCommand" in r or "RareCommand" in r:
            tolerated.add("count")
        if "TailCommand" in r:
            tolerated.add("tail")
        starts = set(re.findall(r"Pipeline \{ commands: \[(\w+)\(", r))
        if starts & {"StatsCommand", "EvalCommand", "FillNullCommand"}:
            tolerated.add("none")
        if "commands: []" in r:
            raise Skip
        seen = 0
        for runtime in (False, True):
            try:
                if self.judge(q, runtime, tolerated, tree, what):
                    seen += 1
                    self.observed[f"{what} programs"] += 1
            except api.Rejected:
                pass
        if not seen:
            raise Skip
        return q, q[:300]

    def teardown(self):
        self.observed.update({"calls of " + k: v for k, v in apispec.OBSERVED.items()})
