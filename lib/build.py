"""Builds the extension module from /repo's working tree into a package copy under /verif/.build."""
import fcntl
import json
import os
import pathlib
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
ROOT = pathlib.Path(__file__).resolve().parent.parent
BUILD = ROOT / ".build"
VENV = "/opt/spl-venv"


def cargo_env(**extra):
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH=f"{VENV}/bin:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        PYO3_PYTHON=f"{VENV}/bin/python",
        RUSTFLAGS="-Awarnings",
    )
    env.update(extra)
    return env


def ensure_source(dest: pathlib.Path):
    """A copy of the sources to build, so that nothing is written next to the tracked files."""
    dest.mkdir(parents=True, exist_ok=True)
    for name in ("src", "python", "Cargo.toml", "Cargo.lock", "README.md", "pyproject.toml"):
        src = REPO / name
        dst = dest / name
        if dst.is_dir():
            shutil.rmtree(dst)
        elif dst.exists():
            dst.unlink()
        if src.is_dir():
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        elif src.exists():
            shutil.copy2(src, dst)
    # Cargo.lock is ignored by git in /repo; the one that the build pins lies in /opt/vp
    if not (dest / "Cargo.lock").exists():
        shutil.copy2("/opt/vp/Cargo.lock", dest / "Cargo.lock")


def build_extension(out: pathlib.Path = None, quiet=True):
    """Returns the directory to put on PYTHONPATH."""
    out = out or BUILD / "py"
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ensure_source(BUILD / "src")
        target = BUILD / "target"
        # Cargo judges a path dependency by the times of its files, which a copy or a checkout may
        # set back: never trust an old build of the crate itself, only those of its dependencies
        fp = target / "debug" / ".fingerprint"
        if fp.is_dir():
            for p in fp.glob("spl_transpiler-*"):
                shutil.rmtree(p)
        res = subprocess.run(
            ["cargo", "build", "--lib", "--offline", "--manifest-path", str(BUILD / "src" / "Cargo.toml")],
            env=cargo_env(CARGO_TARGET_DIR=str(target)),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if res.returncode:
            sys.stderr.write(res.stdout[-4000:])
            raise SystemExit("build of the extension failed")
        pkg = out / "spl_transpiler"
        if pkg.exists():
            shutil.rmtree(pkg)
        pkg.parent.mkdir(parents=True, exist_ok=True)
        shutil.copytree(BUILD / "src" / "python" / "spl_transpiler", pkg)
        shutil.copy2(
            target / "debug" / "libspl_transpiler.so",
            pkg / "spl_transpiler.cpython-312-x86_64-linux-gnu.so",
        )
    return out


def sanitized_extension(make=False):
    """(directory for PYTHONPATH, runtime to preload) of the extension built with AddressSanitizer, or None where that cannot be built."""
    out = BUILD / "asan"
    if not make:
        return json.loads((out / "ready").read_text()) if (out / "ready").exists() else None
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        (out / "ready").unlink(missing_ok=True)
        target = BUILD / "target-asan"
        triple = "x86_64-unknown-linux-gnu"
        fp = target / triple / "debug" / ".fingerprint"
        if fp.is_dir():
            for p in fp.glob("spl_transpiler-*"):
                shutil.rmtree(p)
        runtime = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        if not os.path.isabs(runtime):
            return None
        res = subprocess.run(
            ["cargo", "build", "--lib", "--offline", "--target", triple, "--manifest-path", str(BUILD / "src" / "Cargo.toml")],
            env=cargo_env(
                CARGO_TARGET_DIR=str(target), RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
                RUSTFLAGS="-Awarnings -Zsanitizer=address -Zexternal-clangrt",
            ),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if res.returncode:
            sys.stderr.write("no build with AddressSanitizer: " + res.stdout[-1500:])
            return None
        pkg = out / "spl_transpiler"
        if pkg.exists():
            shutil.rmtree(pkg)
        pkg.parent.mkdir(parents=True, exist_ok=True)
        shutil.copytree(BUILD / "src" / "python" / "spl_transpiler", pkg)
        shutil.copy2(target / triple / "debug" / "libspl_transpiler.so", pkg / "spl_transpiler.cpython-312-x86_64-linux-gnu.so")
        (out / "ready").write_text(json.dumps([str(out), runtime]))
    return sanitized_extension()
