"""Macro loaders find the definition that belongs to a name, and only that."""
import json
import pathlib
import shutil
import tempfile

from spl_transpiler.macros import CombinedMacroLoader, FolderMacroLoader, MacroDefinition, RegistryMacroLoader, substitute_macros

import corpus
from harness import Check, Violation

NAMES = ["a", "b", "aa", "A", "ab", "x_y", "get-asset", "security:content", "n1", "json", "a.b", "é", "definition"]
DIRS = ["", "sub", "sub/deep", "a", "other.json", "x y"]


class CHECK(Check):
    id = "C19"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct histories of registering, creating files and looking names up through registries, folders and nested combinations of loaders, each answer compared with a model of the files and registries; substitution through the loader is compared with the model too"
    assumptions = ["macro names hold no glob characters; files do not change once they were read"]

    def setup(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="verif-c19-"))

    def teardown(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def definition(self, rng, mark):
        d = dict(definition=f"text {mark} " + rng.choice(["", "é", "$p$", "| head 5", '"q"']))
        if rng.random() < 0.5:
            d["arguments"] = rng.sample(["p", "q", "r"], rng.randint(0, 3))
        return d

    # Each model is a function from a name to ("ok", dict) | ("missing",) | ("ambiguous",) | ("invalid",)

    def registry(self, rng, n):
        start = {k: self.definition(rng, f"r{n}{k}") for k in rng.sample(NAMES, rng.randint(0, 4))}
        values = {k: (MacroDefinition(**v) if rng.random() < 0.5 else v) for k, v in start.items()}
        before = dict(values)
        loader = RegistryMacroLoader(values)
        known = dict(start)

        def change(rng):
            k = rng.choice(NAMES)
            if rng.random() < 0.7:
                known[k] = self.definition(rng, f"reg{n}{k}{rng.randint(0, 999)}")
                loader.register(k, MacroDefinition(**known[k]) if rng.random() < 0.5 else known[k])
                if values != before:
                    raise Violation("registering a macro changes the mapping that the registry was made from")
            else:  # the mapping it was made from is no longer of interest
                before[k] = values[k] = dict(definition="later")

        return loader, (lambda k: ("ok", known[k]) if k in known else ("missing",)), change

    def folder(self, rng, n, i):
        root = self.root / f"{i}-{n}"
        root.mkdir()
        suffix = rng.choice([".json", ".json", ".txt", ".macro.json", ""])
        kw = {}
        if suffix != ".json" or rng.random() < 0.2:
            kw["suffix"] = suffix
        raw = suffix == ".txt"
        if raw:
            kw["loader"] = lambda f: dict(definition=f.read())
        loader = FolderMacroLoader(root, **kw)
        read = {}

        def find(k):
            if k in read:
                return read[k]
            hits = sorted(p for p in root.rglob("*") if p.name == k + suffix)
            if len(hits) > 1:
                return ("ambiguous",)
            if not hits or hits[0].is_dir():
                return ("missing",)
            text = hits[0].read_text(encoding="utf-8")
            if raw:
                r = ("ok", dict(definition=text))
            else:
                try:
                    d = json.loads(text)
                    r = ("ok", d) if isinstance(d, dict) and isinstance(d.get("definition"), str) else ("invalid",)
                except ValueError:
                    return ("invalid",)
            if r[0] == "ok":
                read[k] = r
            return r

        def change(rng):
            k = rng.choice(NAMES)
            if k in read and rng.random() < 0.9:  # what was read may stay in a cache
                return
            d = root / rng.choice(DIRS)
            if any(p.is_file() for p in (d, *d.parents)):
                return
            d.mkdir(parents=True, exist_ok=True)
            path = d / (rng.choice(["", "", "", "", "x", "."]) + k + suffix + rng.choice(["", "", "", "", ".bak", "x"]))
            if path.exists() or any(path.name == r + suffix for r in read):
                return
            if rng.random() < 0.08:
                path.mkdir()
                return
            spec = self.definition(rng, f"f{n}{k}{rng.randint(0, 999)}")
            text = spec["definition"] if raw else rng.choice(["{", "[]", "{}", '{"definition": 1}', "null"]) if rng.random() < 0.08 else json.dumps(spec)
            path.write_text(text, encoding="utf-8")

        for _ in range(rng.randint(0, 8)):
            change(rng)
        return loader, find, change

    def combined(self, rng, parts):
        """`parts` are models of loaders."""
        models = [m for _, m, _ in parts]
        kw = {}
        fallback = None
        if rng.random() < 0.5:
            mark = f"fallback {rng.randint(0, 9)} "
            fallback = lambda k: MacroDefinition(definition=mark + k)  # noqa: E731
            kw["fallback_fn"] = fallback
        loader = CombinedMacroLoader(*[ld for ld, _, _ in parts], **kw)

        def find(k):
            for m in models:
                r = m(k)
                if r[0] != "missing":
                    return r
            return ("ok", dict(definition=mark + k)) if fallback else ("missing",)

        def change(rng):
            if parts:
                rng.choice(parts)[2](rng)

        return loader, find, change

    def world(self, rng, i):
        leaves = [self.registry(rng, n) if rng.random() < 0.5 else self.folder(rng, n, i) for n in range(rng.randint(1, 4))]
        if len(leaves) > 2 and rng.random() < 0.4:
            leaves = [self.combined(rng, leaves[:2])] + leaves[2:]
        return leaves, self.combined(rng, leaves)

    def look(self, loader, find, k):
        want = find(k)
        try:
            got = loader[k]
            got = ("ok", MacroDefinition.model_validate(got).model_dump())
            if want[0] == "ok":
                want = ("ok", dict(arguments=list(want[1].get("arguments", [])), definition=want[1]["definition"]))
        except KeyError:
            got = ("missing",)
        except ValueError as e:
            got = ("invalid" if want[0] == "invalid" else "ambiguous" if "ultiple" in str(e) or want[0] == "ambiguous" else "invalid",)
        except Exception as e:
            raise Violation(f"looking up {k!r} ends in {type(e).__name__}: {str(e)[:300]}") from None
        self.observed[f"lookups: {want[0]}"] += 1
        if got != want:
            raise Violation(f"looking up {k!r} in {type(loader).__name__} gives {got}, its contents say {want}")
        return want

    def run(self, rng, i):
        leaves, top = self.world(rng, i)
        history = []
        for _ in range(rng.randint(5, 25)):
            target = rng.choice(leaves + [top] * 3)
            if rng.random() < 0.35:
                target[2](rng)
                history.append("change")
                continue
            k = rng.choice(NAMES)
            want = self.look(target[0], target[1], k)
            history.append((type(target[0]).__name__, k, repr(want)))
            if want[0] == "ok" and all(c not in k for c in ".é") and k != "definition":
                params = want[1]["arguments"] if "arguments" in want[1] else []
                call = f"`{k}" + ("(" + ",".join(f"v{n}" for n in range(len(params))) + ")" if params else "") + "`"
                text = want[1]["definition"]
                for n, p in enumerate(params):
                    text = text.replace(f"${p}$", f"v{n}")
                got = substitute_macros(f"a=1 {call} b=2", target[0])
                if got != f"a=1 {text} b=2":
                    raise Violation(f"substituting {call} gives {got!r} instead of {text!r}")
                self.observed["substitutions"] += 1
        for p in self.root.glob(f"{i}-*"):
            shutil.rmtree(p)
        return history, repr(history)[:300]

    def fixed_cases(self):
        return [("sample macros", None)]

    def run_fixed(self, name, value):
        files = corpus.macro_files()
        base = corpus.REPO / "tests" / "sample_data" / "macros"
        loader = CombinedMacroLoader(RegistryMacroLoader({"own": MacroDefinition(definition="x=1")}), FolderMacroLoader(base))
        for p in files:
            d = json.loads(p.read_text())
            got = loader[p.stem]
            if (got.definition, got.arguments) != (d["definition"], d.get("arguments") or []):
                raise Violation(f"the definition of {p.stem} is not that of its file")
        return name, name
