"""Formatted and unformatted code are the same program; the convenience function adds nothing."""
import ast

import spl_transpiler

import api
import corpus
from check_c03 import Hostile
from cmds import CmdGen
from harness import Check, Skip, Violation
from spl import spell


class CHECK(Check):
    id = "C14"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct queries, real ones and generated ones (some full of hostile text), whose formatted and unformatted code was compared as Python syntax trees, and with the output of the one-step function"
    assumptions = ["code with equal syntax trees, including the values of all literals, behaves the same"]

    def setup(self):
        self.corpus = [q for q in corpus.queries() if "`" not in q]

    def run(self, rng, i):
        k = rng.random()
        if k < 0.3:
            q = rng.choice(self.corpus)
        else:
            g = (CmdGen if k < 0.7 else Hostile)(rng)
            g.depth = rng.choice((1, 2, 3))
            q = spell(g.pipeline(level=1).text, rng)
        seen = 0
        for runtime in (False, True):
            try:
                plain = api.render(q, runtime, False)
            except api.Rejected:
                plain = None
            try:
                pretty = api.render(q, runtime, True)
            except api.Rejected:
                pretty = None
            where = f"allow_runtime={runtime}, query {q!r}"
            if (plain is None) != (pretty is None):
                raise Violation(f"code exists only {'with' if plain is None else 'without'} formatting: {where}")
            for fmt, code in ((False, plain), (True, pretty), (None, pretty)):
                kw = {} if fmt is None else dict(format_code=fmt)
                if not runtime and rng.random() < 0.5:
                    pass
                else:
                    kw["allow_runtime"] = runtime
                try:
                    one = api.guard(spl_transpiler.convert_spl_to_pyspark, q, what=f"convert_spl_to_pyspark({q!r})", **kw)
                except api.Rejected:
                    one = None
                if one != code:
                    raise Violation(f"convert_spl_to_pyspark(…, {kw}) differs from parsing and rendering: {where}\n{str(one)[:1500]}\n--- rendered:\n{str(code)[:1500]}")
                self.observed["one-step conversions compared"] += 1
            if plain is None:
                self.observed["rejected alike"] += 1
                continue
            seen += 1
            trees = []
            for what, code in (("unformatted", plain), ("formatted", pretty)):
                try:
                    trees.append(ast.dump(ast.parse(code)))
                except SyntaxError as e:
                    raise Violation(f"the {what} code is no Python ({e}): {where}\n{code[:1500]}") from None
            if trees[0] != trees[1]:
                raise Violation(f"formatting changes the program: {where}\n{plain[:1500]}\n--- formatted:\n{pretty[:1500]}")
            self.observed["programs compared"] += 1
            if pretty == plain:
                self.observed["formatting changed nothing"] += 1
        if not seen:
            raise Skip
        return q, q[:300]
