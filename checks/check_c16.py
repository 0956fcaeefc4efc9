"""Syntax trees are values: they compare, hash, come apart and go together again."""
import inspect
import unicodedata

import spl_transpiler
from spl_transpiler import ast

import api
import corpus
from check_c03 import Hostile
from cmds import CmdGen
from harness import Check, Skip, Violation
from spl import spell

# Texts that stand for the same, look the same or are the same after some normalization, but are not the same
ALIKE = [
    lambda v: v.replace('\\"', '"'),
    lambda v: v.replace('"', '\\"'),
    lambda v: v.replace("\\\\", "\\"),
    lambda v: v.replace("\\", "\\\\"),
    lambda v: v.replace("\\", ""),
    lambda v: v.replace("'", '"'),
    lambda v: v.replace('"', "'"),
    lambda v: v.strip("\"'"),
    lambda v: f'"{v}"',
    lambda v: f"'{v}'",
    str.swapcase,
    str.upper,
    str.lower,
    str.casefold,
    str.strip,
    lambda v: " " + v,
    lambda v: v + " ",
    lambda v: v + "\n",
    lambda v: v + "\0",
    lambda v: v.replace(" ", "\t"),
    lambda v: v.replace(" ", "\u00a0"),
    lambda v: " ".join(v.split()),
    lambda v: v.replace("  ", " "),
    lambda v: v.replace("-", "_"),
    lambda v: v.replace("_", "-"),
    lambda v: v.replace("/", "\\"),
    lambda v: v.replace("*", "%"),
    lambda v: v.replace("**", "*"),
    lambda v: v.replace("*", ""),
    lambda v: v.rstrip("."),
    lambda v: v.lstrip("0"),
    lambda v: "0" + v,
    lambda v: v + ".0",
    lambda v: unicodedata.normalize("NFC", v),
    lambda v: unicodedata.normalize("NFD", v),
    lambda v: unicodedata.normalize("NFKC", v),
    lambda v: v[:-1],
    lambda v: v[1:],
    lambda v: v[::-1],
    lambda v: v * 2,
    lambda v: v[: len(v) // 2],
    lambda v: v[: len(v) // 2] + "\u200b" + v[len(v) // 2 :],
    lambda v: v + "x",
    lambda v: v + "é",
    lambda v: v + "'",
    lambda v: v + "0",
]
PLAIN = (str, int, bool, float, type(None))


def attributes(cls):
    return [n for n in dir(cls) if not n.startswith("__") and inspect.isdatadescriptor(getattr(cls, n))]


def parameters(cls):
    s = getattr(cls, "__text_signature__", None)
    return [p.strip() for p in s.strip("()").split(",") if p.strip()] if s else None


class CHECK(Check):
    id = "C16"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct queries whose trees are compared, hashed, printed, walked, rebuilt node by node through the public constructors, altered in one attribute and rendered again"
    assumptions = ["nodes without public constructor or attributes are taken over as they are"]

    def setup(self):
        self.corpus = [q for q in corpus.queries() if "`" not in q]

    # -- walking ---------------------------------------------------------------------

    def children(self, node):
        return {a: getattr(node, a) for a in attributes(type(node))}

    def nodes(self, v, out):
        if isinstance(v, (list, tuple)):
            for x in v:
                self.nodes(x, out)
        elif not isinstance(v, PLAIN):
            out.append(v)
            for x in self.children(v).values():
                self.nodes(x, out)
        return out

    def rebuild(self, v, change=None):
        """The same value, built anew from its parts; `change` maps (node, attribute) to another value."""
        if isinstance(v, list):
            return [self.rebuild(x, change) for x in v]
        if isinstance(v, tuple):
            return tuple(self.rebuild(x, change) for x in v)
        if isinstance(v, PLAIN):
            return v
        cls = type(v)
        ps, kids = parameters(cls), self.children(v)
        if not ps or set(ps) != set(kids):
            self.observed["opaque nodes"] += 1
            return v
        args = {}
        for p in ps:
            args[p] = None
        mine = self.count
        self.count += 1
        for p in ps:
            args[p] = change[1] if change and change[0] == (mine, p) else self.rebuild(kids[p], change)
        try:
            r = cls(*[args[p] for p in ps]) if mine % 2 else cls(**args)
        except Exception as e:
            raise Violation(f"{cls.__name__} cannot be built from its own attributes {args!r}: {type(e).__name__}: {str(e)[:200]}") from None
        self.observed["nodes rebuilt"] += 1
        return r

    def places(self, v, out):
        """(number, attribute, plain value) of all attributes that `rebuild` passes."""
        if isinstance(v, (list, tuple)):
            for x in v:
                self.places(x, out)
        elif not isinstance(v, PLAIN):
            ps, kids = parameters(type(v)), self.children(v)
            if ps and set(ps) == set(kids):
                mine = self.count
                self.count += 1
                for p in ps:
                    if isinstance(kids[p], PLAIN[:3]):
                        out.append((mine, p, kids[p], type(v).__name__))
                    self.places(kids[p], out)
        return out

    # -- the laws --------------------------------------------------------------------

    def same(self, a, b, what):
        if not (a == b) or a != b or not (b == a):
            raise Violation(f"{what}: not equal\n{a!r}\n{b!r}")
        if hash(a) != hash(b):
            raise Violation(f"{what}: equal with different hashes\n{a!r}")

    def different(self, a, b, what):
        if a == b or not (a != b) or b == a:
            raise Violation(f"{what}: equal though different\n{a!r}\n{b!r}")

    def outcome(self, tree, runtime):
        try:
            return api.render(tree, runtime)
        except api.Rejected as e:
            return "refused: " + str(e).split("\n")[0][:60]

    def query(self, rng):
        if rng.random() < 0.3:
            return rng.choice(self.corpus)
        g = (CmdGen if rng.random() < 0.7 else Hostile)(rng)
        g.depth = rng.choice((1, 2))
        return spell(g.pipeline(level=2).text, rng)

    def parse(self, q):
        try:
            return api.parse(q)
        except api.Rejected:
            raise Skip("refused") from None

    def run(self, rng, i):
        q = self.query(rng)
        t, t2 = self.parse(q), self.parse(q)
        self.same(t, t2, f"two trees of {q!r}")
        if repr(t) != repr(t2):
            raise Violation(f"two trees of {q!r} print differently")
        q3 = self.query(rng)
        t3 = self.parse(q3)
        a, b = self.nodes(t, []), self.nodes(t3, [])
        self.observed["nodes walked"] += len(a)
        # equality within and across trees is an equivalence that hashing follows
        pool = rng.sample(a, min(len(a), 12)) + rng.sample(b, min(len(b), 6))
        for x in pool:
            if not (x == x) or x != x:
                raise Violation(f"a node is not equal to itself: {x!r} of {q!r}")
            for other in (None, 1, "a", [], object()):
                try:
                    if x == other or not (x != other):
                        raise Violation(f"a node is equal to {other!r}: {x!r}")
                except TypeError as e:
                    raise Violation(f"comparing {x!r} with {other!r}: {e}") from None
            for y in pool:
                eq = x == y
                if eq != (y == x) or eq == (x != y):
                    raise Violation(f"equality is not symmetric: {x!r} {y!r}")
                if eq and hash(x) != hash(y):
                    raise Violation(f"equal nodes hash differently: {x!r} {y!r}")
                if eq and type(x) is not type(y):
                    raise Violation(f"nodes of different kinds are equal: {x!r} {y!r}")
                self.observed["pairs compared"] += 1
        if len(set(a)) > len(a):
            raise Violation("more distinct nodes than nodes")
        # nothing can be set, and lists handed out are copies
        before = repr(t)
        for x in rng.sample(a, min(len(a), 4)):
            for n, v in self.children(x).items():
                try:
                    setattr(x, n, v)
                except (AttributeError, TypeError):
                    pass
                else:
                    raise Violation(f"{type(x).__name__}.{n} can be set")
                if isinstance(v, list):
                    v.clear()
        self.same(t, t2, f"the tree of {q!r} after clearing the lists it handed out")
        if repr(t) != before:
            raise Violation(f"the tree of {q!r} changes when its lists are cleared")
        # apart and together again
        self.count = 0
        u = self.rebuild(t)
        self.same(t, u, f"the tree of {q!r} and its reconstruction")
        runtime = rng.random() < 0.5
        code = self.outcome(t, runtime)
        if self.outcome(u, runtime) != code:
            raise Violation(f"the reconstructed tree of {q!r} is rendered differently:\n{code[:1000]}\n{self.outcome(u, runtime)[:1000]}")
        self.observed["trees rebuilt and rendered"] += 1
        # one attribute altered
        self.count = 0
        places = self.places(t, [])
        for n, p, v, kind in rng.sample(places, min(len(places), 3)):
            if isinstance(v, bool):
                w = not v
            elif isinstance(v, int):
                if v + 1 > 2**31 - 1:
                    continue
                w = v + 1
            else:
                w = rng.choice(ALIKE)(v)
                if w == v or w == "":
                    w = v + rng.choice(("x", " ", "é", "'", "0"))
            self.count = 0
            try:
                c = self.rebuild(t, ((n, p), w))
            except Violation:  # the attribute is checked by its constructor
                self.observed["altered attributes refused"] += 1
                continue
            self.different(t, c, f"the tree of {q!r} and the one with {kind}.{p} = {w!r}")
            self.observed["altered trees told apart"] += 1
            self.outcome(c, runtime)
        if t != t2 or self.outcome(t, runtime) != code:
            raise Violation(f"the tree of {q!r} has changed")
        return q, q[:200]

    def fixed_cases(self):
        texts = ["a", "", "x y", "é", "🙂", "'", '"', "\\", "\n", "\x00", "a" * 500, "*", "$x$", 'say \\"yes', 'say "yes', "a\\\\b", "a\\b", "A\u030a ﬁ", "  two  words ", "10.20", "a*b_c-d/e"]
        return [(f"{k} {t!r}", [k, t]) for k in ("Field", "StrValue", "Wildcard", "Variable", "IPv4CIDR") for t in texts] + [
            (f"{k} {v}", [k, v]) for k, vs in (("IntValue", (0, 1, -1, 2**63 - 1, -(2**63))), ("DoubleValue", (0.5, -1.5, 1e300, 0.1)), ("BoolValue", (True, False))) for v in vs
        ] + [("built by hand", None)]

    def run_fixed(self, name, value):
        if value is None:
            tree = lambda f, v: ast.Pipeline([self.wrap("Command", "SearchCommand", ast.SearchCommand(expr=ast.Expr.Binary(ast.Binary(self.leaf("Field", f), "=", self.leaf("Str", v)))))])  # noqa: E731
            for v in ("x", "x y", "it's", "a|b", "é", "a,b"):  # a tree holds text with its escapes
                text = f'"{v}"'
                self.same(tree("a", v), api.parse(f"search a={text}"), f"a tree built by hand for {v!r}")
                if api.render(tree("a", v)) != api.render(f"search a={text}"):
                    raise Violation(f"a tree built by hand for {v!r} is rendered differently")
            return name, name
        kind, v = value
        cls = getattr(ast, kind)
        a, b = cls(v), cls(v)
        self.same(a, b, f"{kind}({v!r})")
        other = (not v) if isinstance(v, bool) else v + ("x" if isinstance(v, str) else -1 if v == 2**63 - 1 else 1 if abs(v) < 1e15 or isinstance(v, int) else 1e299)
        self.different(a, cls(other), f"{kind}({v!r}) and {kind}({other!r})")
        for f in ALIKE if isinstance(v, str) else ():
            if f(v) != v:
                self.different(a, cls(f(v)), f"{kind}({v!r}) and {kind}({f(v)!r})")
                self.observed["alike values told apart"] += 1
        if not isinstance(repr(a), str) or repr(a) != repr(b) or repr(a) == repr(cls(other)):
            raise Violation(f"the text of {kind}({v!r}) is {a!r}, that of {other!r} {cls(other)!r}")
        return name, name

    def wrap(self, outer, variant, x):
        return getattr(getattr(ast, outer), variant)(x)

    def leaf(self, kind, v):
        c = {"Field": ast.Field, "Str": ast.StrValue}[kind](v)
        return ast.Expr.Leaf(ast.LeafExpr.Constant(getattr(ast.Constant, kind)(c)))
