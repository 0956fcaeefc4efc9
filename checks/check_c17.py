"""Macro calls are found where they are and no text gets lost between them."""
import spl_transpiler.spl_transpiler as native

import api
import corpus
import macgen
from harness import Check, Skip, Violation

TEXTS = [
    "", "", " ", "index=main | ", " | eval x=", "search ", " | stats count by a", "a=\"(\" ", "é 中 🙂 ", "\n\t", "|", " )", "( ", "$x$ ", "\\", "'", "\"", "# comment ", "[search ", "]", "\x00", "\u2028", "x" * 300,
]
# None of these backticks can belong to a call
BROKEN = [
    "`", "``", "` `", "`a", "a`", "`a` `", "`(`", "`a(`", "`a)`", "`a(1`", "`a(1,)`", "`a(,1)`", "`a(1,,2)`", "`a b`", "`a(1) b`", "`a()()`", "`,`", "`a,b`", "`\"a\"`", "`a(\"x)`", "`a(b c)`", "`a(x= 1)`", "x ` y", "`a```", "`a`b`", "`a(1))`",
    "`a(()`", "`[a]`", "`a(=1)`", "`a|b`",
]


class CHECK(Check):
    id = "C17"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct texts with macro calls (names, positional and named arguments, nested calls, strings with commas, parentheses and backticks, any whitespace) whose detected prefixes, names, arguments and rest are compared with those the text was made from; accepted texts of any kind are checked to be covered completely by what was detected"
    assumptions = ["arguments are expressions of SPL, as the grammar of macro calls has it"]

    def setup(self):
        self.corpus = [q for q in corpus.raw_queries() if "`" in q]

    def detect(self, q):
        return api.guard(native.detect_macros, q, what=f"detect_macros({q!r})")

    def fixed_cases(self):
        return [(repr(b), b) for b in BROKEN]

    def run_fixed(self, name, value):
        for q in (value, "index=main | " + value, value + " | head 5"):
            try:
                r = self.detect(q)
            except api.Rejected as e:
                if not str(e).startswith("ValueError"):
                    raise Violation(f"{q!r}: {str(e)[:300]}") from None
                self.observed["malformed calls refused"] += 1
                continue
            raise Violation(f"a backtick outside of any macro call is accepted: {q!r} gives {[(p, c.macro_name, c.args) for p, c in r[0]]} and {r[1]!r}")
        return name, name

    def covered(self, q, r):
        """The detected parts, in order, account for all of the text."""
        chunks, rest = r
        ends = {0}
        for prefix, c in chunks:
            if "`" in prefix:
                raise Violation(f"a text between calls holds a backtick: {prefix!r} in {q!r}")
            out = set()
            for e in ends:
                if not q.startswith(prefix + "`", e):
                    continue
                p = q.find(c.macro_name, e + len(prefix) + 1)
                if p < 0 or q[e + len(prefix) + 1 : p].strip():
                    continue
                p += len(c.macro_name)
                stop = p
                for n, v in c.args:
                    for part in ([n + "="] if n is not None else []) + [v]:
                        stop = q.find(part, stop)
                        if stop < 0:
                            break
                        stop += len(part)
                    if stop < 0:
                        break
                if stop < 0:
                    continue
                t = q.find("`", stop)
                if t >= 0 and not q[stop:t].strip().strip("()").strip():
                    out.add(t + 1)
            ends = out
        if not any(q[e:] == rest for e in ends):
            raise Violation(f"the detected parts do not make up the text {q!r}: {[(p, c.macro_name, c.args) for p, c in chunks]} and {rest!r}")

    def run(self, rng, i):
        if rng.random() < 0.25:
            q = rng.choice(self.corpus)
            a, b = sorted(rng.randint(0, len(q)) for _ in range(2))
            q = q[:a] + rng.choice(["", "`", "`m`", "(", ")", ",", " ", "`m(a, 1)`", '"']) + q[b if rng.random() < 0.4 else a :]
            try:
                r = self.detect(q)
            except api.Rejected as e:
                if not str(e).startswith("ValueError"):
                    raise Violation(f"{q!r}: {str(e)[:300]}") from None
                self.observed["mutated texts refused"] += 1
                raise Skip("refused") from None
            self.observed["mutated texts covered"] += 1
            self.covered(q, r)
            return (q, None) if r[0] else (None, None)
        parts, q = [], ""
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 5, 12))):
            prefix = "".join(rng.choice(TEXTS) for _ in range(rng.choice((0, 1, 1, 2))))
            name = rng.choice(macgen.NAMES)
            args = []
            for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 5))):
                args.append((rng.choice(macgen.NAMES[:8]) if rng.random() < 0.35 else None, macgen.value(rng, rng.choice((0, 1, 2, 3)), ticks=True)))
            parts.append((prefix, name, args))
            q += prefix + macgen.call(rng, name, args)
        rest = "".join(rng.choice(TEXTS) for _ in range(rng.choice((0, 1, 2))))
        q += rest
        try:
            r = self.detect(q)
        except api.Rejected as e:
            raise Violation(f"well-formed macro calls are refused: {q!r}: {str(e)[:300]}") from None
        got = [(p, c.macro_name, [tuple(a) for a in c.args]) for p, c in r[0]]
        if got != parts or r[1] != rest:
            raise Violation(f"in {q!r}\nexpected {parts} and {rest!r}\ndetected {got} and {r[1]!r}")
        self.covered(q, r)
        self.observed["calls detected"] += len(parts)
        self.observed["arguments detected"] += sum(len(a) for _, _, a in parts)
        if q.count("`") != 2 * len(parts):
            self.observed["texts with backticks inside of arguments"] += 1
        again = self.detect(q)
        for (p, c), (p2, c2) in zip(r[0], again[0]):
            if c != c2 or hash(c) != hash(c2):
                raise Violation(f"two detections of the same call differ: {q!r}")
        return (q if parts else None), q[:200]
