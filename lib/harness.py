"""Runs a check: many cases in parallel worker processes, three-valued verdicts, evidence."""
import collections
import hashlib
import importlib
import json
import os
import pathlib
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPLAYS = ROOT / "replays"
EVIDENCE = ROOT / "evidence"
PYTHON = "/opt/spl-venv/bin/python"


class Violation(Exception):
    """The monitored execution contradicts the property."""


class Skip(Exception):
    """The case decides nothing (for example, it left the domain of the property)."""


class Check:
    """One property. Subclasses set the attributes and define `run`."""

    id = "?"
    level = "exploration"
    rule = ""
    assumptions = []
    shards = 8
    quick = dict(cases=4000, seconds=60)
    thorough = dict(cases=400000, seconds=540)
    case_timeout = 120  # seconds of wall time after which a case is run again alone
    spark = False
    # Whether a case that keeps running is a violation of this very property
    hang_is_violation = False

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.observed = collections.Counter()

    def setup(self):
        """Once per worker process."""

    def fixed_cases(self):
        """Cases that run first on every run: (name, JSON value); `run_fixed` takes them."""
        return []

    def run_fixed(self, name, value):
        raise NotImplementedError

    def known_cases(self):
        """Cases of known findings: (name, description, JSON value); `run_fixed` fails for them."""
        return []

    def run(self, rng, i):
        """One case. Returns (key, sample): what makes it distinct (None: trivial) and a rendering."""
        raise NotImplementedError

    def teardown(self):
        pass


def env_for_worker():
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.pathsep.join([str(ROOT / ".build" / "py"), str(ROOT / "lib"), str(ROOT / "checks")]),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        TZ="UTC",
        RUST_BACKTRACE="0",
        RUST_LOG="off",
        SPARK_LOCAL_IP="127.0.0.1",
        SPARK_LOCAL_HOSTNAME="localhost",
        PYSPARK_PYTHON=PYTHON,
        PYSPARK_DRIVER_PYTHON=PYTHON,
        PYTHONWARNINGS="ignore",
        OMP_NUM_THREADS="1",
    )
    return env


def load(prop, tier, seed):
    mod = importlib.import_module(f"check_{prop.lower()}")
    return mod.CHECK(tier, seed)


def rng_for(seed, prop, i):
    return random.Random(f"{seed}:{prop}:{i}")


def error_text(e):
    """The message of an exception, with the place in the case's own code it comes from."""
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(tb)[-3000:]


# ---------------------------------------------------------------------------------- worker


def worker(prop, tier, seed, shard, shards, start, cases, deadline, out):
    check = load(prop, tier, seed)
    journal = os.open(out + ".journal", os.O_RDWR | os.O_CREAT)

    def note(s):
        data = s.encode()[:200].ljust(200)
        os.pwrite(journal, data, 0)

    res = dict(evaluations=0, skipped=0, distinct=[], samples=[], violations=[], errors=[], known=[], next=start, observed={}, fixed=0)
    distinct = set()
    note("setup")
    check.setup()

    def attempt(kind, ident, f):
        note(f"{kind}:{ident}")
        try:
            r = f()
        except Skip:
            res["skipped"] += 1
            return None
        except Violation as e:
            res["violations"].append(dict(kind=kind, ident=ident, message=str(e)))
            return None
        except Exception as e:  # the harness itself failed: neither held nor violated
            res["errors"].append(dict(kind=kind, ident=ident, message=error_text(e)))
            return None
        res["evaluations"] += 1
        return r

    def flush():
        res["distinct"] = sorted(distinct)
        res["observed"] = dict(check.observed)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)

    if start == shard:
        for n, (name, value) in enumerate(check.fixed_cases()):
            if n % shards == shard:
                attempt("fixed", name, lambda: check.run_fixed(name, value))
                res["fixed"] += 1
        for n, (name, description, value) in enumerate(check.known_cases()):
            if n % shards == shard:
                note(f"known:{name}")
                try:
                    check.run_fixed(name, value)
                except Violation:
                    res["known"].append(description)
                except Exception as e:
                    res["errors"].append(dict(kind="known", ident=name, message=error_text(e)))
    i = start
    last_flush = time.monotonic()
    while i < cases and time.time() < deadline and len(res["violations"]) < 3 and len(res["errors"]) < 20:
        r = attempt("case", i, lambda: check.run(rng_for(seed, prop, i), i))
        if r is not None:
            key, sample = r
            if key is not None:
                distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())
            if sample is not None and len(res["samples"]) < 3 and key is not None:
                res["samples"].append(sample)
        i += shards
        res["next"] = i
        if time.monotonic() - last_flush > 5:
            flush()
            last_flush = time.monotonic()
    note("teardown")
    check.teardown()
    res["done"] = True
    flush()
    os._exit(0)


def run_one(prop, tier, seed, kind, ident):
    """A single case in this process; exit code 0 held, 1 violated, 3 skipped, 4 error."""
    check = load(prop, tier, seed)
    check.setup()
    try:
        if kind == "case":
            i = int(ident)
            r = check.run(rng_for(seed, prop, i), i)
        else:
            cases = dict([(n, v) for n, v in check.fixed_cases()] + [(n, v) for n, _, v in check.known_cases()])
            r = check.run_fixed(ident, cases[ident])
        print("HELD", json.dumps(r[1], ensure_ascii=False)[:2000] if r else "")
        code = 0
    except Skip as e:
        print("SKIPPED", e)
        code = 3
    except Violation as e:
        print("VIOLATED", e)
        code = 1
    except Exception as e:
        print("ERROR", error_text(e))
        code = 4
    sys.stdout.flush()
    check.teardown()
    os._exit(code)


# ---------------------------------------------------------------------------------- driver


def spawn_one(prop, tier, seed, kind, ident, cpu):
    def limits():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

    try:
        p = subprocess.run(
            [PYTHON, str(ROOT / "lib" / "main.py"), "--one", prop, tier, str(seed), kind, str(ident)],
            env=env_for_worker(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
            timeout=cpu * 4, preexec_fn=limits,
        )
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, "no result in time"


def drive(prop, tier, seed, t0, log=print):
    check = load(prop, tier, seed)
    budget = check.quick if tier == "quick" else check.thorough
    shards = check.shards
    deadline = time.time() + budget["seconds"]
    tmp = ROOT / ".build" / f"run-{prop}"
    subprocess.run(["rm", "-rf", str(tmp)])
    tmp.mkdir(parents=True)
    procs = {}
    results = []
    crashes = []
    inconclusive = []

    def start(shard, first):
        out = str(tmp / f"{shard}-{first}.json")
        err = open(out + ".err", "w")
        p = subprocess.Popen(
            [PYTHON, str(ROOT / "lib" / "main.py"), "--worker", prop, tier, str(seed), str(shard), str(shards), str(first), str(budget["cases"]), str(deadline), out],
            env=env_for_worker(), stdout=err, stderr=err,
        )
        procs[shard] = dict(p=p, out=out, last=None, since=time.monotonic())

    for s in range(shards):
        start(s, s)

    def collect(shard, d, dead):
        path = pathlib.Path(d["out"])
        if path.exists():
            r = json.loads(path.read_text())
            results.append(r)
        else:
            r = dict(next=None)
        if not dead:
            return
        journal = ""
        try:
            journal = open(d["out"] + ".journal").read(200).strip()
        except OSError:
            pass
        err = open(d["out"] + ".err", errors="replace").read()[-2000:]
        kind, _, ident = journal.partition(":")
        if kind in ("case", "fixed", "known") and (len(crashes) >= 2 or time.time() - t0 > 420):
            # Enough is known, or too little time is left to find out more
            inconclusive.append(dict(ident=journal, worker=dead, again=None, text=err[-1500:]))
        elif kind in ("case", "fixed", "known"):
            cpu = 100
            code, text = spawn_one(prop, tier, seed, kind, ident, cpu)
            crashed = code is not None and code < 0 and code not in (-signal.SIGXCPU, -signal.SIGKILL)
            hung = code in (-signal.SIGXCPU,) or code is None
            if crashed and kind != "known":
                crashes.append(dict(kind=kind, ident=ident, message=f"the process dies with signal {-code}: {text[-500:]} {err[-500:]}"))
            elif hung and check.hang_is_violation and code == -signal.SIGXCPU:
                crashes.append(dict(kind=kind, ident=ident, message=f"no answer within {cpu} s of processor time"))
            elif code == 1:
                crashes.append(dict(kind=kind, ident=ident, message=text))
            else:
                inconclusive.append(dict(ident=journal, worker=dead, again=code, text=(text + err)[-1500:]))
            nxt = int(ident) + shards if kind == "case" else shard + shards
            if time.time() < deadline - 5 and nxt < budget["cases"] and len(crashes) < 2 and len(inconclusive) < 12:
                start(shard, nxt)
        else:
            inconclusive.append(dict(ident=journal, worker=dead, again=None, text=err[-1500:]))

    while procs:
        time.sleep(0.05)
        for shard, d in list(procs.items()):
            code = d["p"].poll()
            if code is not None:
                del procs[shard]
                collect(shard, d, "" if code == 0 else f"exit {code}")
                continue
            try:
                j = open(d["out"] + ".journal").read(200).strip()
            except OSError:
                j = None
            if j != d["last"]:
                d["last"], d["since"] = j, time.monotonic()
            limit = check.case_timeout + (180 if j in (None, "setup", "teardown") else 0)
            if time.monotonic() - d["since"] > limit:
                d["p"].kill()
                d["p"].wait()
                del procs[shard]
                collect(shard, d, "hangs")
    violations = [v for r in results for v in r["violations"]] + crashes
    errors = [e for r in results for e in r["errors"]]
    known = [k for r in results for k in r["known"]]
    distinct = set()
    observed = collections.Counter()
    for r in results:
        distinct.update(r["distinct"])
        observed.update(r["observed"])
    evaluations = sum(r["evaluations"] for r in results)
    samples = [s for r in results for s in r["samples"]][:8]
    ok_known = sorted(set(known))
    for k in ok_known:
        log(f"KNOWN-FINDING: property={prop} {k}")
    REPLAYS.mkdir(exist_ok=True)
    seen = set()
    for v in violations[:3]:
        name = f"{prop}-{v['kind']}-{hashlib.blake2b(str(v['ident']).encode(), digest_size=5).hexdigest()}.json"
        path = REPLAYS / name
        if name in seen:
            continue
        seen.add(name)
        path.write_text(json.dumps(dict(property=prop, tier=tier, seed=seed, **v), indent=1, ensure_ascii=False))
        log(f"--- {prop} {v['kind']} {v['ident']}")
        log(v["message"][:3000])
        log(f"VIOLATION property={prop} replay=replays/{name}")
    for e in (errors + inconclusive)[:3]:
        log(f"note: inconclusive case {e.get('ident')}: {(e.get('message') or e.get('text') or '')[-1200:]}")
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(distinct),
        rule=check.rule,
        samples=samples or ["none"],
        observed=dict(sorted(observed.items())),
        skipped=sum(r["skipped"] for r in results),
        inconclusive=len(errors) + len(inconclusive),
        fixed_cases=sum(r["fixed"] for r in results),
        known_findings=ok_known,
        workers=shards,
    )
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(
        json.dumps(
            dict(property=prop, tier=tier, seed=seed, level=check.level, coverage=coverage, assumptions=check.assumptions, wall_s=round(time.time() - t0, 1), violations=len(violations)),
            indent=1, ensure_ascii=True,
        )
    )
    log(f"{prop} {tier} seed={seed}: {evaluations} evaluations, {len(distinct)} distinct, {coverage['skipped']} skipped, {coverage['inconclusive']} inconclusive, {len(violations)} violations, {time.time() - t0:.1f} s")
    subprocess.run(["rm", "-rf", str(tmp)])
    if violations:
        return 1
    if evaluations == 0 or len(distinct) == 0:
        log("nothing was observed: no verdict")
        return 2
    return 0
