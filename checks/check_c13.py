"""The same query gives the same code: again, elsewhere, after anything, beside anything."""
import json
import subprocess
import sys
import threading

import spl_transpiler

import api
import corpus
from cmds import CmdGen
from harness import PYTHON, Check, Skip, Violation, env_for_worker
from spl import spell

CHILD = """
import json, sys, spl_transpiler
for line in sys.stdin:
    out = []
    for q, runtime, fmt in json.loads(line):
        try:
            out.append(spl_transpiler.convert_spl_to_pyspark(q, allow_runtime=runtime, format_code=fmt))
        except Exception as e:
            out.append("error")
    print(json.dumps(out), flush=True)
"""


class CHECK(Check):
    id = "C13"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    case_timeout = 200
    rule = "distinct queries rendered several times in one process, in other processes with other hash seeds and in another order, by several threads at once, and from one syntax tree in both modes alternately, with all renderings of each compared byte for byte"
    assumptions = ["four renderings per process show an order that depends on hashing"]

    def setup(self):
        self.corpus = [q for q in corpus.queries() if "`" not in q]
        self.children = []
        for n in range(2):
            env = env_for_worker()
            env.update(PYTHONHASHSEED=str(101 + n), LC_ALL=("C", "C.UTF-8")[n], TZ=("Asia/Tokyo", "America/New_York")[n], LANG="C")
            env["PYTHONUTF8"] = "1"
            self.children.append(subprocess.Popen([PYTHON, "-c", CHILD], env=env, cwd="/", stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8"))

    def teardown(self):
        for c in self.children:
            c.kill()
            c.wait()

    def query(self, rng):
        if rng.random() < 0.35:
            return rng.choice(self.corpus)
        g = CmdGen(rng)
        g.depth = rng.choice((1, 2))
        if rng.random() < 0.3:  # several sources and many columns: the places with sets
            return self.many(g, rng)
        return spell(g.pipeline(level=2).text, rng)

    def many(self, g, rng):
        names = rng.sample("alpha beta gamma delta eps zeta eta theta iota kappa".split(), rng.randint(2, 8))
        k = rng.random()
        if k < 0.3:
            return "search " + rng.choice((" OR ", " ")).join(f"index={n}" for n in names) + rng.choice(("", " a=1", " (b=2 OR c=3)"))
        if k < 0.5:
            return "search index IN (" + ", ".join(names) + ")" + rng.choice(("", " a=1"))
        if k < 0.7:
            return "search a=1 | stats " + " ".join(f"{rng.choice(('sum', 'max', 'dc'))}({n}) as x_{n}" for n in names) + " by " + " ".join(names[: rng.randint(1, 4)])
        if k < 0.85:
            return "search x=1 | eval " + ", ".join(f"{n}={rng.choice(('upper(a)', 'relative_time(b, c)', 'memk(a)', 'b+1', 'mvcount(c)'))}" for n in names)
        return "search x=1 | lookup users " + " ".join(f"{n} AS k_{n}" for n in names) + " OUTPUT " + ", ".join(f"o_{n}" for n in names)

    def once(self, q, runtime, fmt):
        try:
            return api.guard(spl_transpiler.convert_spl_to_pyspark, q, what=f"convert_spl_to_pyspark({q!r})", allow_runtime=runtime, format_code=fmt)
        except api.Rejected:
            return "error"

    def run(self, rng, i):
        jobs = []
        for _ in range(8):
            q = self.query(rng)
            for runtime in (False, True):
                jobs.append((q, runtime, rng.random() < 0.05))
        first = [self.once(*j) for j in jobs]

        def differ(how, job, a, b):
            raise Violation(f"two renderings differ ({how}): allow_runtime={job[1]}, query {job[0]!r}\n{a[:1500]}\n--- and\n{b[:1500]}")

        # in this process, again, in other orders
        for _ in range(3):
            order = rng.sample(range(len(jobs)), len(jobs))
            for n in order:
                r = self.once(*jobs[n])
                if r != first[n]:
                    differ("again in one process", jobs[n], first[n], r)
                self.observed["renderings again"] += 1
        # from one syntax tree, in both modes alternately
        for n in range(0, len(jobs), 2):
            try:
                tree = api.parse(jobs[n][0])
            except api.Rejected:
                continue
            before = repr(tree)
            for m in (n, n + 1, n):
                try:
                    r = api.render(tree, jobs[m][1], jobs[m][2])
                except api.Rejected:
                    r = "error"
                if r != first[m]:
                    differ("from a syntax tree rendered before", jobs[m], first[m], r)
                self.observed["renderings of shared trees"] += 1
            if repr(tree) != before:
                raise Violation(f"rendering changes the syntax tree of {jobs[n][0]!r}")
        # other processes
        for c in self.children:
            order = rng.sample(range(len(jobs)), len(jobs))
            c.stdin.write(json.dumps([jobs[n] for n in order]) + "\n")
            c.stdin.flush()
            out = json.loads(c.stdout.readline())
            for n, r in zip(order, out):
                if r != first[n]:
                    differ("in another process", jobs[n], first[n], r)
                self.observed["renderings in other processes"] += 1
        # threads
        if i % 3 == 0:
            results, failures = {}, []

            def work(t):
                try:
                    for n in order_of[t]:
                        results[t, n] = self.once(*jobs[n])
                except BaseException as e:
                    failures.append(e)

            order_of = [rng.sample(range(len(jobs)), len(jobs)) for _ in range(4)]
            threads = [threading.Thread(target=work, args=(t,)) for t in range(4)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            if failures:
                raise Violation(f"a thread fails: {type(failures[0]).__name__}: {failures[0]}")
            for (t, n), r in results.items():
                if r != first[n]:
                    differ("in a thread beside others", jobs[n], first[n], r)
                self.observed["renderings in concurrent threads"] += 1
        self.observed["accepted"] += sum(r != "error" for r in first)
        self.observed["rejected alike"] += sum(r == "error" for r in first)
        return tuple(jobs), jobs[0][0][:300]
