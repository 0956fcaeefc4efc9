"""Spelling that carries no meaning."""
import re

import api
import corpus
import fake
from cmds import CmdGen
from harness import Check, Skip, Violation
from spl import spell


def plan_or_error(q, runtime):
    try:
        return fake.plan(api.render(q, runtime, False))
    except api.Rejected as e:
        return None
    except Exception as e:
        return None


def outside(q):
    """Positions of the pipes of a query that lie outside of quotes"""
    out, quote, i = [], None, 0
    while i < len(q):
        c = q[i]
        if quote:
            if c == "\\":
                i += 1
            elif c == quote:
                quote = None
        elif c in "\"":
            quote = c
        elif c == "'" or c == "`":
            return []
        elif c == "|":
            out.append(i)
        i += 1
    return out if quote is None else []


class CHECK(Check):
    id = "C15"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct pairs of spellings of one query - whitespace, line breaks, letter case of keywords, an optional leading pipe - whose code, run against recording stand-ins, was compared in both modes"
    assumptions = ["letter case matters only in names, values and functions; whitespace only within quotes and between words"]

    def setup(self):
        self.corpus = [q for q in corpus.queries() if "`" not in q]

    def run(self, rng, i):
        if rng.random() < 0.75:
            g = CmdGen(rng)
            g.depth = 1
            p = g.pipeline(level=1)
            a, b = spell(p.text), spell(p.text, rng)
            must = True
        else:
            a = rng.choice(self.corpus)
            b = a
            for k in reversed(outside(a)):
                b = b[:k].rstrip() + rng.choice(("|", " | ", "\n|", "\n| ", "  |  ", "|\t")) + b[k + 1 :].lstrip()
            must = False
        how = []
        if rng.random() < 0.3:
            b = rng.choice((" ", "\n", "\t ", "  ")) + b
        if rng.random() < 0.3:
            b = b + rng.choice((" ", "\n", "\t ", "  "))
        if rng.random() < 0.4 and must:
            b = rng.choice(("|", "| ", " | ")) + b.lstrip()
        if a == b:
            raise Skip
        for runtime in (False, True):
            x, y = plan_or_error(a, runtime), plan_or_error(b, runtime)
            if must and x is None:
                raise Skip
            if x is None and y is None:
                continue
            if (x is None) != (y is None):
                raise Violation(f"one of two spellings is not translated (allow_runtime={runtime})\n  {a!r}: {'no' if x is None else 'yes'}\n  {b!r}: {'no' if y is None else 'yes'}")
            d = fake.first_difference(x, y)
            if d:
                raise Violation(f"two spellings of one query differ (allow_runtime={runtime}) at {d[0]}\n  {a!r}\n    {fake.show(d[1])[:800]}\n  {b!r}\n    {fake.show(d[2])[:800]}")
            self.observed["pairs compared"] += 1
            self.observed["generated pairs" if must else "pairs from real queries"] += 1
        return (a, b), b[:300]
