"""Any text ends in code or in an ordinary error, soon."""
import json
import os
import subprocess
import time

import spl_transpiler

import api
import corpus
import mutate
from check_c03 import Hostile
from cmds import CmdGen
from harness import PYTHON, Check, Skip, Violation, env_for_worker
from spl import spell

ALPHABET = "".join(mutate.WORDS) + " \t\n|()[]{}\"'`\\,;=<>!+-*/%.:@$#~^&?_ \u00a0\u2028é中🙂\x00\x7f"

# Shapes that nest or chain; their sizes stay below those of the known findings
NEST = {
    "search parens": (lambda n: "search " + "(" * n + "a=1" + ")" * n, 60),
    "eval parens": (lambda n: "eval x=" + "(" * n + "a + 1" + ")" * n, 14),
    "where parens": (lambda n: "where " + "(" * n + "a=1" + ")" * n, 60),
    "search not": (lambda n: "search " + "NOT " * n + "a=1", 60),
    "not parens": (lambda n: "search " + "NOT (" * n + "a=1" + ")" * n, 30),
    "where not": (lambda n: "where " + "NOT " * n + "a=1", 60),
    "calls": (lambda n: "eval x=" + "abs(" * n + "a" + ")" * n, 10),
    "ifs": (lambda n: "eval x=" + "if(a=1, " * n + "1" + ", 2)" * n, 8),
    "subsearches": (lambda n: "search a=1 " + "| join b [search a=1 " * n + "]" * n, 12),
    "multisearch": (lambda n: "multisearch [" * n + "search a=1" + "] [search b=2]" * n, 10),
    "or chain": (lambda n: "search " + " OR ".join(f"a={i}" for i in range(n)), 400),
    "and chain": (lambda n: "search " + " ".join(f"a={i}" for i in range(n)), 400),
    "where chain": (lambda n: "where " + " OR ".join(f"a={i}" for i in range(n)), 400),
    "sum": (lambda n: "eval x=" + " + ".join("a" for i in range(n)), 300),
    "concat": (lambda n: "eval x=" + " . ".join("a" for i in range(n)), 100),
    "assignments": (lambda n: "eval " + ", ".join(f"x{i}=a" for i in range(n)), 400),
    "commands": (lambda n: "search a=1" + " | head 5" * n, 300),
    "fields": (lambda n: "table " + ", ".join(f"f{i}" for i in range(n)), 3000),
    "aggregations": (lambda n: "stats " + " ".join(f"count(f{i})" for i in range(n)), 400),
    "in list": (lambda n: "search a IN (" + ", ".join(str(i) for i in range(n)) + ")", 300),
    "long text": (lambda n: 'search a="' + "x" * n + '"', 200000),
    "backslashes": (lambda n: 'search a="' + "\\\\" * n + '"', 20000),
    "quotes": (lambda n: 'search a="' + '\\"' * n + '"', 20000),
    "spaces": (lambda n: "search" + " " * n + "a=1", 20000),
    "open parens": (lambda n: "search " + "(" * n, 40),
    "open brackets": (lambda n: "join a " + "[search " * n, 40),
    "open quote": (lambda n: 'search a="' + "x " * n, 600),
    "pipes": (lambda n: "search a=1" + "|" * n, 3000),
    "commas": (lambda n: "table " + "," * n, 3000),
    "stars": (lambda n: "search a=" + "*" * n, 3000),
    "dashes": (lambda n: "eval x=" + "-" * n + "1", 100),
    "regex": (lambda n: 'rex "' + "(?<a>" * n + "x" + ")" * n + '"', 60),
    "digits": (lambda n: "search a=" + "9" * n, 3000),
    "macros": (lambda n: "`m(1)` " * n, 300),
}


class CHECK(Check):
    id = "C01"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    hang_is_violation = True
    case_timeout = 60
    rule = "distinct texts - mutated real and generated queries, words and characters at random, nesting and chains - taken through parsing, macro detection and rendering in both modes, watching for panics, aborts, other ends than code or an ordinary error, and slow answers"
    assumptions = ["nesting up to 60 brackets and chains of some hundred operators; deeper ones are the known findings"]
    KNOWN = {
        "deep-parentheses": ("search " + "(" * 2000 + "a=1" + ")" * 2000, "parsing 2000 nested parentheses of a search overflows the stack and kills the process"),
        "deep-calls": ("eval x=" + "abs(" * 3000 + "a" + ")" * 3000, "parsing 3000 nested calls overflows the stack and kills the process"),
        "long-or-chain": ("search " + " OR ".join("a=1" for _ in range(30000)), "a chain of 30000 OR operators overflows the stack and kills the process"),
    }

    def known_cases(self):
        return [(k, d, q) for k, (q, d) in self.KNOWN.items()]

    def fixed_cases(self):
        out = []
        for name, (f, n) in NEST.items():
            out += [(f"{name} {n}", f(n)), (f"{name} {n // 2}", f(n // 2))]
        out += [(repr(s), s) for s in ("", " ", "|", "||", "| |", "[", "]", "`", "``", "\x00", "search", "search ", "|search", '"', "'", "\\", "a" * 1000, "search a=\x00", "eval", "eval x", "eval x=", "where", "tstats", "index=", "=", "==")]
        return out

    def run_fixed(self, name, value):
        if name in self.KNOWN:
            p = subprocess.run(
                [PYTHON, "-c", "import sys, spl_transpiler; spl_transpiler.parse(sys.stdin.read())"],
                input=value, text=True, env=env_for_worker(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300,
            )
            if p.returncode < 0:
                raise Violation(f"the process dies with signal {-p.returncode}")
            return name, name
        self.judge(value)
        return name, name

    def setup(self):
        self.corpus = corpus.queries() + corpus.raw_queries()

    def judge(self, q):
        t0 = time.process_time()
        try:
            r = api.guard(spl_transpiler.spl_transpiler.detect_macros, q, what=f"detect_macros({q[:2000]!r})")
            self.observed["texts with macros" if r[0] else "texts without macros"] += 1
        except api.Rejected:
            self.observed["macro detection refuses"] += 1
        try:
            tree = api.parse(q)
        except api.Rejected as e:
            if not str(e).startswith("ValueError"):
                raise Violation(f"parsing ends in {str(e)[:300]}, no ValueError: {q[:2000]!r}") from None
            self.observed["refused by the parser"] += 1
            tree = None
        if tree is not None:
            self.observed["parsed"] += 1
            api.guard(repr, tree, what=f"repr of the tree of {q[:2000]!r}")
            for runtime in (False, True):
                for fmt in (False,) if len(q) > 2000 or hash(q) % 8 else (False, True):
                    try:
                        code = api.guard(spl_transpiler.render_pyspark, tree, allow_runtime=runtime, format_code=fmt, what=f"render_pyspark({q[:2000]!r}, {runtime}, {fmt})")
                        if not isinstance(code, str):
                            raise Violation(f"render_pyspark gives {type(code).__name__}")
                        self.observed["rendered"] += 1
                    except api.Rejected as e:
                        if not str(e).startswith(("RuntimeError", "ValueError")):
                            raise Violation(f"rendering ends in {str(e)[:300]}: {q[:2000]!r}") from None
                        self.observed["refused by the renderer"] += 1
        t = time.process_time() - t0
        if t > 10 + len(q) / 1000:
            raise Violation(f"an answer takes {t:.0f} s of processor time: {q[:2000]!r}")
        self.observed["slowest answer, ms"] = max(self.observed["slowest answer, ms"], int(t * 1000))

    def text(self, rng):
        k = rng.random()
        if k < 0.35:
            q = rng.choice(self.corpus)
            return mutate.mutate(q, rng, self.corpus)
        if k < 0.65:
            g = (CmdGen if rng.random() < 0.6 else Hostile)(rng)
            g.depth = rng.choice((0, 1, 2))
            return mutate.mutate(spell(g.pipeline(level=1).text, rng), rng, self.corpus)
        if k < 0.78:
            return rng.choice((" ", "", " ")).join(rng.choice(mutate.WORDS) for _ in range(rng.randint(1, 25)))
        if k < 0.86:
            return rng.choice(("", "search ", "eval x=", "where ", "stats ", "rex ", "| ", "table ")) + "".join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 40)))
        if k < 0.9:
            return "".join(chr(rng.choice((rng.randint(0, 127), rng.randint(0, 0xD7FF), rng.randint(0xE000, 0x10FFFF)))) for _ in range(rng.randint(0, 20)))
        name = rng.choice(sorted(NEST))
        f, n = NEST[name]
        q = f(rng.randint(0, max(n // 4, 3)))
        if rng.random() < 0.5:
            p = rng.randint(0, len(q))
            q = q[:p] + rng.choice(mutate.WORDS) + q[p + rng.choice((0, 1, 2)) :]
        return q

    def run(self, rng, i):
        q = self.text(rng)
        if rng.random() < 0.06:
            # A long stretch of characters of one to four bytes, at a random place
            run = "".join(rng.choice("xé日😀 ") if rng.random() < 0.2 else rng.choice("xé日😀") for _ in range(rng.randint(1, 7))) * rng.choice((3, 10, 40, 150, 400))
            quote = rng.choice(("", "", '"', "'"))
            p = rng.choice((0, len(q), rng.randint(0, len(q))))
            q = q[:p] + rng.choice((" ", "")) + quote + run[rng.randint(0, 3) :] + quote + rng.choice((" ", "", " | ")) + q[p:]
        self.judge(q)
        return q, q[:200]
