"""main.py PROPERTY TIER | main.py --replay FILE"""
import json
import os
import subprocess
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT / "lib"), str(ROOT / "checks"), str(ROOT / ".build" / "py")]
import harness  # noqa: E402


def main(argv):
    if argv[0] == "--worker":
        prop, tier, seed, shard, shards, first, cases, deadline, out = argv[1:]
        harness.worker(prop, tier, int(seed), int(shard), int(shards), int(first), int(cases), float(deadline), out)
        return 0
    if argv[0] == "--one":
        prop, tier, seed, kind, ident = argv[1:]
        harness.run_one(prop, tier, int(seed), kind, ident)
        return 0
    t0 = time.time()
    import build

    build.build_extension()
    if argv[0] == "--replay":
        r = json.loads(Path(argv[1]).read_text())
        if r["property"] == "C28":
            build.sanitized_extension(make=True)
        return subprocess.call(
            [harness.PYTHON, __file__, "--one", r["property"], r["tier"], str(r["seed"]), r["kind"], str(r["ident"])],
            env=harness.env_for_worker(),
        )
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "C28":
        build.sanitized_extension(make=True)
    return harness.drive(prop, tier, seed, t0, log=lambda *a: print(*a, flush=True))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
