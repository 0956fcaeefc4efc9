"""Real SPL from the repository's sample files, its macros expanded by an expander of our own."""
import json
import os
import pathlib
import re

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


def raw_queries():
    """The sample queries as they are, sorted, so that indices are stable."""
    base = REPO / "tests" / "sample_data" / "queries"
    return [p.read_text(errors="replace").strip() for p in sorted(base.rglob("*")) if p.is_file()]


def macro_files():
    base = REPO / "tests" / "sample_data" / "macros"
    return sorted(p for p in base.rglob("*.json") if p.is_file())


def expand(q, macros, depth=0):
    def one(m):
        name, _, args = m[1].strip().partition("(")
        name = name.strip()
        args = [a.strip() for a in args.rstrip().removesuffix(")").split(",")] if args else []
        d = macros.get(name)
        if d is None:
            return "" if name.endswith("_filter") else None or "x=1"
        text = d["definition"]
        for a, v in zip(d.get("arguments") or [], args):
            text = text.replace(f"${a}$", v.rpartition("=")[2] if v.startswith(a + "=") else v)
        return text

    if "`" not in q or depth > 8:
        return q
    q = re.sub(r"`([^`]*)`", one, q)
    q = expand(q, macros, depth + 1)
    return q.rstrip().rstrip("|").strip()


def queries():
    macros = {p.stem: json.loads(p.read_text()) for p in macro_files()}
    return [q for q in (expand(q, macros) for q in raw_queries()) if q and "`" not in q]
