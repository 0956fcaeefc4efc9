"""Macro calls are replaced by their definitions with the arguments filled in."""
import re

import spl_transpiler
from spl_transpiler.macros import MacroDefinition, RegistryMacroLoader, parse_with_macros, substitute_macros

import api
import macgen
from harness import Check, Skip, Violation

FILL = [
    " ", "x=1", " | ", "index=main", "\\1", "\\g<0>", "$", "$$", "$unknown$", "a\\\\b", "\"", "(", ")", "|", "[", "]", "é", "\n", "*", ".*", "%", "{x}", "{", "search ", "$a", "a$", " NOT ", ",", "=",
]
QUERY = ["index=main", " | head 5", " | eval z=", " x=1 ", " ", " OR ", "\n| table a", "é", "$a$", "\\1 ", "", "|", " | | "]


def final(text):
    while True:
        t = text.rstrip().rstrip("|").strip()
        if t == text:
            return t
        text = t


class World:
    """Macros of several layers, each calling those of lower layers, with their full expansions."""

    def __init__(self, rng):
        self.rng = rng
        self.macros = {}
        names = rng.sample(macgen.NAMES, rng.randint(1, 6))
        self.order = []
        for n in names:
            params = rng.sample(["a", "b", "x", "field", "a_b", "ab", "A", "x.y", "1", "m+", "f(x", "time[0"], rng.choice((0, 0, 1, 1, 2, 3)))
            params = [p for p in params if re.fullmatch(r"[\w.]+", p) or self.rng.random() < 0.5]
            self.macros[n] = (params, self.definition(params))
            self.order.append(n)

    def definition(self, params):
        out = []
        for _ in range(self.rng.randint(0, 6)):
            k = self.rng.random()
            if params and k < 0.45:
                out.append(("param", self.rng.choice(params)))
            elif self.order and k < 0.65:
                out.append(self.use(params))
            else:
                out.append(("text", self.rng.choice(FILL)))
        return out

    def use(self, params):
        """A call of a macro already defined; some of its arguments hold parameters of this one."""
        name = self.rng.choice(self.order)
        theirs = self.macros[name][0]
        args = []
        # A name in a call must be one that a call can spell
        named = bool(theirs) and all(re.fullmatch(r"\w+", p) for p in theirs) and self.rng.random() < 0.5
        for p in theirs:
            mine = [q for q in params if re.fullmatch(r"\w+", q)]
            if mine and self.rng.random() < 0.5:
                v = [("param", self.rng.choice(mine))]
            else:
                text = macgen.value(self.rng, 2)
                v = [("text", text if "x" not in params else text.replace("$x$", "$y$"))]
            args.append((p if named else None, v))
        if named:
            self.rng.shuffle(args)
        return ("call", name, args)

    def source(self, pieces):
        out = ""
        for p in pieces:
            if p[0] == "text":
                out += p[1]
            elif p[0] == "param":
                out += f"${p[1]}$"
            else:
                args = []
                for n, v in p[2]:
                    args.append((n, self.source(v)))
                out += macgen.call(self.rng, p[1], args)
        return out


class CHECK(Check):
    id = "C18"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct queries with calls of layered macros whose substitution is compared with an expansion by an interpreter of our own (definitions, arguments by position and by name, placeholders, nested calls, wrong counts and names); those that parse are compared with the tree of the expanded text"
    assumptions = ["macros that call themselves without end are left out"]

    def expand(self, text, macros, depth=0):
        """All calls in the text, replaced; our own reading of calls."""
        out, rest = "", text
        while "`" in rest:
            before, _, rest = rest.partition("`")
            inner, tick, rest = rest.partition("`")
            if not tick:
                raise Skip("a backtick is left over")
            out += before
            m = re.fullmatch(r"\s*([^\s(]+)\s*(?:\((.*)\))?\s*", inner, re.S)
            if not m or m[1] not in macros:
                raise Skip("no call")
            params, definition = macros[m[1]]
            args = macgen.split_args(m[2]) if m[2] else []
            pairs = []
            for a in args:
                n = re.match(r"([\w:%@{}*/-]+)=", a)
                pairs.append((n[1], a[n.end() :]) if n else (None, a))
            if any(n for n, _ in pairs):
                values = dict(pairs)
            else:
                values = dict(zip(params, [v for _, v in pairs]))
            if len(pairs) != len(params) or set(values) != set(params):
                raise ValueError("arguments")
            text2, i = "", 0
            while i < len(definition):
                for p in sorted(params, key=len, reverse=True):
                    if definition.startswith(f"${p}$", i):
                        text2 += values[p]
                        i += len(p) + 2
                        break
                else:
                    text2 += definition[i]
                    i += 1
            if depth > 30 or len(text2) > 20000:
                raise Skip("too long")
            out += text2
        out += rest
        return self.expand(out, macros, depth + 1) if "`" in out else out

    def run(self, rng, i):
        w = World(rng)
        pieces = []
        for _ in range(rng.randint(1, 5)):
            pieces.append(("text", rng.choice(QUERY)) if rng.random() < 0.5 else w.use([]))
        wrong = None
        calls = [k for k, p in enumerate(pieces) if p[0] == "call"]
        if calls and rng.random() < 0.15:  # a call that does not fit its macro
            k = rng.choice(calls)
            _, name, args = pieces[k]
            kind = rng.choice(("more", "fewer", "name", "mix"))
            if kind == "more":
                args = args + [(args[0][0] and "other", [("text", "1")])] if args else [(None, [("text", "1")])]
            elif kind == "fewer" and args:
                args = args[:-1]
            elif kind == "name" and args and args[0][0]:
                args = [("nosuch", args[0][1])] + args[1:]
            elif kind == "mix" and len(args) > 1 and args[0][0]:
                args = [(None, args[0][1])] + args[1:]
            else:
                kind = None
            pieces[k] = ("call", name, args)
            wrong = kind
        q = w.source(pieces)
        plain = {n: (params, w.source(d)) for n, (params, d) in w.macros.items()}
        given = {}
        for n, (params, d) in plain.items():
            spec = dict(definition=d)
            if params or rng.random() < 0.5:
                spec["arguments"] = list(params)
            given[n] = spec if rng.random() < 0.5 else MacroDefinition(**spec)
        loader = given if rng.random() < 0.5 else RegistryMacroLoader(given)
        try:
            want = final(self.expand(q, plain))
        except ValueError:
            want = None
        if wrong and want is not None:
            raise Skip("the wrong call is a right one")
        try:
            got = api.guard(substitute_macros, q, loader, what=f"substitute_macros({q!r})")
        except api.Rejected as e:
            if want is None:
                if not str(e).startswith("ValueError"):
                    raise Violation(f"arguments that do not fit end in {str(e)[:300]}: {q!r} with {plain}") from None
                self.observed["calls that do not fit refused"] += 1
                return (q, plain), None
            if self.readable(q, plain):
                raise Violation(f"substitution fails: {q!r} with {plain}\n{str(e)[:500]}") from None
            raise Skip("no readable call") from None
        if want is None:
            raise Violation(f"arguments that do not fit are accepted: {q!r} with {plain} gives {got!r}")
        if got != want:
            raise Violation(f"{q!r} with {plain}\nexpected {want!r}\ngot      {got!r}")
        self.observed["queries expanded"] += 1
        self.observed["calls at the top"] += len(calls)
        if any("`" in d for _, d in plain.values()):
            self.observed["with nested macros"] += 1
        try:
            tree = api.parse(want)
        except api.Rejected:
            tree = None
        try:
            tree2 = api.guard(parse_with_macros, q, loader, what=f"parse_with_macros({q!r})")
        except api.Rejected:
            tree2 = None
        if (tree is None) != (tree2 is None) or tree is not None and tree != tree2:
            raise Violation(f"parse_with_macros differs from parsing the substituted text: {q!r} with {plain}")
        if tree is not None:
            self.observed["expanded queries parsed"] += 1
        return ((q, repr(plain)) if calls else None), q[:200]

    def readable(self, q, macros):
        """Whether every call met during the expansion is one that the grammar of calls allows."""
        import spl_transpiler.spl_transpiler as native

        text = q
        for _ in range(30):
            try:
                native.detect_macros(text)
            except ValueError:
                return False
            if "`" not in text:
                return True
            try:
                text = self.once(text, macros)
            except Skip:
                return False
        return False

    def once(self, text, macros):
        keep = self.expand
        try:
            self.expand = lambda t, m, depth=0: t  # one round only
            return keep(text, macros)
        finally:
            del self.expand

    def fixed_cases(self):
        return [
            ("no calls", ["a=1", {}, "a=1"]),
            ("self", ["`a`", {"a": dict(definition="`a`")}, "`a`"]),
            ("empty", ["a=1 | `f`", {"f": dict(definition="")}, "a=1"]),
            ("only pipes", ["| | |", {}, ""]),
            ("value like a placeholder", ["`f(\"$b$\", c)`", {"f": dict(definition="$a$ $b$", arguments=["a", "b"])}, "\"$b$\" c"]),
            ("value like a group", ["`f(\"\\\\1\")`", {"f": dict(definition="x=$a$", arguments=["a"])}, "x=\"\\\\1\""]),
            ("unknown", ["`f`", {}, None]),
            ("named out of order", ["`f(b=1,a=2)`", {"f": dict(definition="$a$-$b$", arguments=["a", "b"])}, "2-1"]),
            ("parameter with a special name", ["`f(1, 2)`", {"f": dict(definition="$a.b$ $axb$ $a+$", arguments=["a.b", "a+"])}, "1 $axb$ 2"]),
        ]

    def run_fixed(self, name, value):
        q, macros, want = value
        for loader in (macros, RegistryMacroLoader(macros)):
            try:
                got = substitute_macros(q, loader)
            except KeyError:
                got = None
            if got != want:
                raise Violation(f"{q!r} with {macros}: expected {want!r}, got {got!r}")
        return name, name
