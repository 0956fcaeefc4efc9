"""Memory stays sound and is given back, and threads do not disturb each other."""
import ctypes
import gc
import hashlib
import json
import os
import pathlib
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import spl_transpiler
from spl_transpiler import macros

import api
import build
import corpus
import macgen
import mutate
from check_c01 import NEST
from check_c03 import Hostile
from cmds import CmdGen
from harness import PYTHON, Check, Skip, Violation, env_for_worker
from spl import spell

HERE = pathlib.Path(__file__).resolve()


def outcome(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:
        return f"{type(e).__name__}: {str(e).partition(chr(10) + chr(10))[0]}"
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return f"{type(e).__name__}"


def walk(tree, out, depth=0):
    """Every attribute of every node, over the accessors of the extension."""
    if isinstance(tree, (list, tuple)):
        for x in tree:
            walk(x, out, depth)
        return
    if not type(tree).__module__.startswith("builtins") or type(tree).__name__ not in ("str", "int", "float", "bool", "NoneType"):
        out.append(tree)
        if depth > 150:
            return
        for name in dir(tree):
            if not name.startswith("_"):
                v = getattr(tree, name)
                if not callable(v):
                    walk(v, out, depth + 1)


def everything(q, fmt=False):
    """All that the transpiler says about a text."""
    said = [repr(outcome(spl_transpiler.spl_transpiler.detect_macros, q))]
    try:
        tree = spl_transpiler.parse(q)
    except Exception as e:
        return said + [f"{type(e).__name__}: {e}"]
    nodes = []
    walk(tree, nodes)
    del nodes[1::2]  # some parents go before their children
    first = repr(tree)
    said += [first, str(len(nodes)), str(tree == spl_transpiler.parse(q)), str(outcome(hash, tree) == outcome(hash, spl_transpiler.parse(q)))]
    for runtime in (False, True):
        said.append(outcome(spl_transpiler.render_pyspark, tree, allow_runtime=runtime, format_code=fmt))
    del tree
    said += [repr(n)[:300] for n in nodes[:50]]  # children live on without the tree
    return said


def digest(said):
    said = re.sub("object at 0x[0-9a-fA-F]+", "object", "\x00".join(said))
    return hashlib.blake2b(said.encode("utf-8", "surrogatepass")).hexdigest()


# ------------------------------------------------------------------ processes of their own

class Server:
    """A process that answers one line of JSON with another."""

    def __init__(self, mode, asan=None):
        self.log = tempfile.mkdtemp(prefix="verif-c28-")
        env = env_for_worker()
        env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"  # its cache of freed blocks would count as used
        if asan:
            env.update(
                PYTHONPATH=os.pathsep.join([asan[0], env["PYTHONPATH"]]), LD_PRELOAD=asan[1], PYTHONMALLOC="malloc",
                ASAN_OPTIONS=f"detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:log_path={self.log}/asan",
            )
        self.p = subprocess.Popen([PYTHON, str(HERE), mode], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, q, timeout=60):
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                return "slow", ""
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if line:
            return "said", line.strip()
        self.p.wait()
        reports = "".join(f.read_text(errors="replace") for f in sorted(pathlib.Path(self.log).glob("asan*")))
        return "died", f"exit {self.p.returncode}\n{reports[:3000]}"

    def close(self):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.log, ignore_errors=True)


def serve(answer):
    print(json.dumps("ready"), flush=True)
    for line in sys.stdin:
        print(answer(json.loads(line)), flush=True)


# ------------------------------------------------------------------ memory in use

class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def in_use():
    gc.collect()
    lib = ctypes.CDLL("libc.so.6")
    lib.mallinfo2.restype = Mallinfo
    m = lib.mallinfo2()
    return m.uordblks + m.hblkhd, sys.getallocatedblocks()


def measure(job):
    """The growth of (bytes, Python blocks) over windows of repetitions, in JSON; nothing for a text that takes long."""
    if not job:
        return "0"
    q, fmt = job
    t0 = time.process_time()
    everything(q, fmt)
    if time.process_time() - t0 > 0.05:
        return "0"
    for _ in range(5):
        everything(q, fmt)
    steps, used = [], in_use()
    for n in (30, 30, 30, 30, 400, 400):
        for _ in range(n):
            everything(q, fmt)
        now = in_use()
        steps.append((now[0] - used[0], now[1] - used[1]))
        used = now
        if len(steps) == 4 and not grows(steps, fmt):
            break
    return json.dumps(steps)


def grows(steps, fmt):
    """Whether every window shows growth; formatting fills caches of its own slowly"""
    sizes = (30, 30, 30, 30, 400, 400)[: len(steps)]
    return all(s[0] >= n * (128 if fmt else 16) for s, n in zip(steps, sizes)) or all(s[1] >= n * (2 if fmt else 1) for s, n in zip(steps, sizes))


COLD = """
import sys, threading, json
sys.setswitchinterval(1e-6)
n, queries = json.loads(sys.stdin.read())
import spl_transpiler
gate, out = threading.Barrier(n), [None] * n
def work(k):
    gate.wait()
    try:
        out[k] = [spl_transpiler.convert_spl_to_pyspark(q) for q in queries]
    except BaseException as e:
        out[k] = f"{type(e).__name__}: {e}"
ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
[t.start() for t in ts]
[t.join() for t in ts]
print(json.dumps(out))
"""


# ------------------------------------------------------------------ threads

def together(task):
    """Does the same tasks in several threads, and in one alone; JSON of their number and of a complaint."""
    if not task:
        return json.dumps(None)
    root = pathlib.Path(tempfile.mkdtemp(prefix="verif-c28-"))
    try:
        for k, n in enumerate(("m", "n", "o")):
            (root / f"{n}.json").write_text(json.dumps(dict(definition=f"x{k}=1 | head {k}")))
        queries, with_macros, fmt, n = task["queries"], task["with_macros"], task["fmt"], task["n"]
        loader = macros.FolderMacroLoader(root)
        trees = [t for t in (outcome(spl_transpiler.parse, q) for q in queries) if not isinstance(t, str)]

        def work(r, ld):
            said = {}
            jobs = [("q", k) for k in range(len(queries))] + [("m", k) for k in range(len(with_macros))] + [("t", k) for k in range(len(trees))]
            r.shuffle(jobs)
            for kind, k in jobs:
                if kind == "q":
                    said[kind, k] = digest(everything(queries[k], fmt))
                elif kind == "m":
                    said[kind, k] = outcome(macros.substitute_macros, with_macros[k], ld)
                else:
                    said[kind, k] = (outcome(repr, trees[k]), outcome(hash, trees[k]), outcome(spl_transpiler.render_pyspark, trees[k], format_code=fmt))
            return said

        alone = work(random.Random(0), macros.FolderMacroLoader(root)) if task["before"] else None
        results, gate = [None] * n, threading.Barrier(n)

        def run(k):
            gate.wait()
            try:
                results[k] = work(random.Random(k), loader)
            except BaseException as e:
                results[k] = f"{type(e).__name__}: {e}"

        old = sys.getswitchinterval()
        sys.setswitchinterval(task["interval"])
        try:
            ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if alone is None:
            alone = work(random.Random(0), macros.FolderMacroLoader(root))
        for k, r in enumerate(results):
            if r != alone:
                where = r if isinstance(r, str) else [(j, r.get(j), alone[j]) for j in alone if r.get(j) != alone[j]][:2]
                return json.dumps([len(alone), f"thread {k} of {n} says something else than a lone one: {str(where)[:1500]}"])
        return json.dumps([len(alone), None])
    finally:
        shutil.rmtree(root, ignore_errors=True)


class CHECK(Check):
    id = "C28"
    case_timeout = 300
    quick = dict(cases=10**9, seconds=40)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct cases: texts whose whole treatment ran in a process built with AddressSanitizer and gave what the ordinary build gives; sets of texts treated by several threads at once, warm and from the first call on, compared with one thread; texts treated over and over while the memory in use was measured"
    assumptions = ["C libraries below the extension are not instrumented, but their use of the heap is watched", "growth counts when it recurs in every one of four windows of 30 repetitions"]

    def setup(self):
        self.corpus = corpus.queries() + corpus.raw_queries()
        self.san = self.meter = self.crowd = None
        self.asan = build.sanitized_extension()
        if not self.asan:
            self.observed["no build with AddressSanitizer"] += 1

    def teardown(self):
        for s in (self.san, self.meter, self.crowd):
            if s:
                s.close()

    def text(self, rng):
        k = rng.random()
        if k < 0.25:
            q = rng.choice(self.corpus)
        elif k < 0.8:
            g = (CmdGen if rng.random() < 0.6 else Hostile)(rng)
            g.depth = rng.choice((1, 2))
            q = spell(g.pipeline(level=1).text, rng)
        else:
            f, n = NEST[rng.choice(sorted(NEST))]
            q = f(rng.randint(1, max(n // 6, 3)))
        if rng.random() < 0.35:
            q = mutate.mutate(q, rng, self.corpus)
        return q

    # ---- each kind of case

    def sanitized(self, rng, i):
        if not self.asan:
            raise Skip
        if not self.san:
            self.san = Server("--sanitized", self.asan)
            kind, text = self.san.ask("", 120)
            if kind != "said" or text != '"ready"':
                self.san = self.asan = None
                raise Skip
            self.san.p.stdout.readline()
        q = self.text(rng)
        want = digest(everything(q))
        kind, text = self.san.ask(q)
        if kind == "said":
            if text != want:
                raise Violation(f"the build with AddressSanitizer answers differently: the answer depends on the state of memory\n{q!r}")
            self.observed["texts under AddressSanitizer"] += 1
        else:
            self.san.close()
            self.san = None
            if kind == "slow":
                raise Skip
            if "AddressSanitizer" not in text:
                raise Violation(f"the process dies: {text}\n{q!r}")
            if "stack-overflow" in text:
                raise Skip
            raise Violation(f"AddressSanitizer reports an error of memory for {q[:1500]!r}:\n{text}")
        return ("asan", q), q[:200]

    def not_slow(self, queries, fmt):
        """Skips a case whose texts take one thread long"""
        start = time.monotonic()
        for q in queries:
            everything(q, fmt)
            if time.monotonic() - start > 2:
                raise Skip

    def threads(self, rng, i):
        queries = [self.text(rng)[:1500] for _ in range(rng.choice((1, 3, 6)))]
        wanted = rng.sample(["m", "n", "o"], rng.randint(1, 3))
        task = dict(
            queries=queries, with_macros=[f"search `{n}` | eval y={k}" for k, n in enumerate(wanted)], fmt=rng.random() < 0.4,
            before=rng.random() < 0.5, n=rng.choice((2, 4, 8)), interval=rng.choice((1e-6, 1e-5, 1e-3)),
        )
        self.not_slow(queries, task["fmt"])
        for limit in (60, 120):
            if not self.crowd:
                self.crowd = Server("--threads")
                if self.crowd.ask("", 120)[1] != '"ready"':
                    self.crowd = None
                    raise Skip
                self.crowd.p.stdout.readline()
            kind, text = self.crowd.ask(task, limit)
            if kind == "said":
                break
            self.crowd.close()
            self.crowd = None
            if kind == "died":
                raise Violation(f"the process dies with {task['n']} threads: {text}\n{queries!r}")
            self.observed["threads that did not finish"] += 1
        else:
            raise Violation(f"{task['n']} threads never finish, in two runs: {queries!r}")
        count, complaint = json.loads(text)
        if complaint:
            raise Violation(f"{complaint}\n{queries!r} {task['with_macros']!r}")
        self.observed["results of threads compared"] += task["n"] * count
        return ("threads", task["n"], queries), f"{task['n']} threads, {count} tasks each"

    def cold(self, rng, i):
        queries = []
        while len(queries) < 2:
            q = rng.choice(self.corpus) if rng.random() < 0.5 else spell(CmdGen(rng).pipeline(level=1).text, rng)
            if not outcome(spl_transpiler.convert_spl_to_pyspark, q).startswith(("ValueError", "RuntimeError")):
                queries.append(q)
        n = rng.choice((2, 6, 16))
        for limit in (60, 120):
            try:
                p = subprocess.run([PYTHON, "-c", COLD], input=json.dumps([n, queries]), text=True, capture_output=True, timeout=limit, env=env_for_worker())
                break
            except subprocess.TimeoutExpired:
                self.observed["threads that did not finish"] += 1
        else:
            self.not_slow(queries, True)
            raise Violation(f"{n} threads that convert at once in a new process never finish, in two runs: {queries!r}")
        if p.returncode:
            raise Violation(f"{n} threads that convert at once in a new process end in {p.returncode}: {p.stderr[-800:]}")
        want = [spl_transpiler.convert_spl_to_pyspark(q) for q in queries]
        for r in json.loads(p.stdout):
            if r != want:
                raise Violation(f"one of {n} threads that convert at once in a new process says {str(r)[:600]!r} instead of {str(want)[:600]!r}\n{queries!r}")
        self.observed["first uses by threads"] += n
        return ("cold", n, queries), f"{n} threads first of all convert {queries[0][:100]!r}"

    def growth(self, rng, i):
        q, fmt = self.text(rng)[:4000], rng.random() < 0.15
        if not self.meter:
            self.meter = Server("--measure")
            if self.meter.ask("", 120)[1] != '"ready"':
                self.meter = None
                raise Skip
            self.meter.p.stdout.readline()
        kind, text = self.meter.ask([q, fmt], 100)
        if kind != "said":
            self.meter.close()
            self.meter = None
            if kind == "died":
                raise Violation(f"the process dies under repetition: {text}\n{q!r}")
            raise Skip
        steps = json.loads(text)
        if not steps:
            raise Skip
        if grows(steps, fmt):
            raise Violation(f"memory grows with repetition, (bytes, Python blocks) for each {[30, 30, 30, 30, 400, 400]}: {steps}: {q!r}")
        self.observed["repetitions without growth"] += sum([30, 30, 30, 30, 400, 400][: len(steps)])
        return ("growth", q, fmt), q[:200]

    def run(self, rng, i):
        k = rng.random()
        if k < 0.02:
            return self.cold(rng, i)
        if k < 0.12:
            return self.threads(rng, i)
        if k < 0.22:
            return self.growth(rng, i)
        return self.sanitized(rng, i)


if __name__ == "__main__":
    serve({"--sanitized": lambda q: digest(everything(q)), "--measure": measure, "--threads": together}[sys.argv[1]])
