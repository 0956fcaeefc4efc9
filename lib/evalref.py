"""Typed eval expressions of SPL, each with its value on a row: a reference written from the documentation of SPL.

Null stands for a missing value and makes most results null; conditions are true, false or null.
"""
import base64
import decimal
import hashlib
import json
import math
import re
import urllib.parse

SCHEMA = [
    ("a", "bigint"), ("b", "bigint"), ("c", "int"), ("x", "double"), ("y", "double"), ("s", "string"), ("u", "string"), ("w", "string"), ("k", "string"),
    ("m", "array<string>"), ("n", "array<string>"), ("p", "boolean"), ("ip", "string"), ("url", "string"), ("j", "string"), ("user name", "string"),
]
WORDS = ["", "a", "b", "ab", "abc", "Error", "error 404", "x-y-z", "1,2,3", "a.b.c", " pad ", "xxabxx", "é", "日本", "it's", 'say "hi"', "back\\slash", "a|b", "100%", "under_score", "A1b2", "(1)", "$5", "tab\there", "user=bob id=17", "UPPER", "aaa"]
IPS = ["10.0.0.1", "10.1.2.3", "192.168.1.77", "192.168.2.1", "255.255.255.255", "0.0.0.0", "bad", "", "1.2.3", "::1", "2001:db8::5"]
JSONS = ['{"a": 1, "b": [1, 2]}', "[1, 2]", "{", "", "nope", '"text"', "{}", '{"x": {"y": 2}}', "12"]


def random_row(r):
    def maybe(v):
        return None if r.random() < 0.13 else v

    word = lambda: r.choice(WORDS) if r.random() < 0.7 else "".join(r.choice("abcxyzABC 0123.-_") for _ in range(r.randint(0, 12)))
    return {
        "a": maybe(r.choice((0, 1, -1, 2, 7, 10, 100, r.randint(-1000, 1000)))),
        "b": maybe(r.choice((0, 1, 3, 5, -4, r.randint(-1000, 1000)))),
        "c": maybe(r.randint(0, 60)),
        "x": maybe(r.choice((0.0, 1.0, -1.0, 0.5, 2.5, -2.5, 0.125, 1.005, r.randint(-40000, 40000) / 16))),
        "y": maybe(r.choice((1.5, 0.25, 3.0, r.randint(-4000, 4000) / 4))),
        "s": maybe(word()), "u": maybe(word()), "w": maybe(word()),
        "k": maybe(r.choice(("0", "1", "-7", "3.5", "1e3", "42", str(r.randint(-999, 999)), "0.125"))),
        "m": maybe([word() for _ in range(r.randint(0, 5))]),
        "n": maybe([word() for _ in range(r.randint(0, 5))]),
        "p": maybe(r.random() < 0.5),
        "ip": maybe(r.choice(IPS)),
        "url": maybe(r.choice(("http%3A%2F%2Fa.b%2Fc", "a%20b", "a+b", "plain", "", "%C3%A9", "x%3D1%26y%3D2"))),
        "j": maybe(r.choice(JSONS)),
        "user name": maybe(word()),
    }


class X:
    """An expression: its text, type and value; `bound` limits the magnitude of numbers, `wide` whether it is a 64-bit integer."""

    __slots__ = ("text", "type", "f", "bound", "wide", "atom")

    def __init__(self, text, type, f, bound=None, wide=True, atom=False):
        self.text, self.type, self.f, self.bound, self.wide, self.atom = text, type, f, bound, wide, atom

    @property
    def t(self):
        """As an operand"""
        return self.text if self.atom else "(" + self.text + ")"


INF = math.inf


def strict(f, *args):
    """A function of rows whose value is null when an argument is"""

    def g(row):
        vs = []
        for a in args:
            v = a.f(row)
            if v is None:
                return None
            vs.append(v)
        return f(*vs)

    return g


def order(v):
    """Spark's order of numbers: NaN is equal to itself and above all"""
    if isinstance(v, float) and math.isnan(v):
        return (1, 0)
    return (0, v)


def compare(op, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        a, b = order(a), order(b)
    return {"=": a == b, "==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def and3(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def or3(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else False


def half_up(v, digits):
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return v
        return float(decimal.Decimal(repr(v)).quantize(decimal.Decimal(1).scaleb(-digits), rounding=decimal.ROUND_HALF_UP))
    return v


def substring(s, start, length):
    n = len(s)
    first = start - 1 if start > 0 else (n + start if start < 0 else 0)
    end = min(first + length, n)
    first = max(first, 0)
    return s[first:end] if end > first else ""


def guarded(f):
    def g(*a):
        try:
            return f(*a)
        except OverflowError:
            return INF
        except (ValueError, ZeroDivisionError):
            return math.nan

    return g


def java_pow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return -INF if a < 0 and b == int(b) and int(b) % 2 else INF
    except (ValueError, ZeroDivisionError):
        if a == 0:
            return INF
        return math.nan


def like_regex(p):
    out, i = "", 0
    while i < len(p):
        c = p[i]
        if c == "\\" and i + 1 < len(p):
            i += 1
            out += re.escape(p[i])
        elif c == "%":
            out += ".*"
        elif c == "_":
            out += "."
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + r"\Z", re.S)


def replacement_for_python(t):
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if c == "\\" and i + 1 < len(t):
            i += 1
            out.append(int(t[i]) if t[i] in "0123456789" else t[i])
        else:
            out.append(c)
        i += 1
    return lambda m: "".join((m[p] or "") if isinstance(p, int) else p for p in out)


def slice_mv(v, a, b):
    n = len(v)
    if a < 0:
        if n + a < 0:
            return []
        return v[n + a:n + a + (b - a + 1)]
    return v[a:b + 1]


def json_object_keys(v):
    try:
        d = json.loads(v)
    except ValueError:
        return None
    return list(d) if isinstance(d, dict) else None


def in_cidr(cidr, ip):
    import ipaddress

    try:
        return ipaddress.ip_address(ip) in ipaddress.ip_network(cidr)
    except ValueError:
        return False


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


FIELD_TYPES = {"a": ("int", 1000, True), "b": ("int", 1000, True), "c": ("int", 60, False), "x": ("num", 2500, True), "y": ("num", 1000, True)}
REGEXES = [  # with the number of groups; the same to Python and Java
    ("a", 0), ("[0-9]+", 0), ("(a)(b)", 2), ("([a-z]+)", 1), (r"\d+", 0), (r"(\w)-(\w)", 2), ("^x+", 0), ("b$", 0), ("x|y", 0), (r"\.", 0), (r"(\d+),(\d+)", 2), (r"\s+", 0), ("(?i)error", 0), ("[^a-z]", 0), ("a{2}", 0),
    (r"(?:user|id)=(\w+)", 1), (r"\\", 0), ('"', 0), ("'", 0),
]


class EvalGen:
    """Random expressions. Numbers stay far from what overflows, divisors are not zero: those are errors in Spark."""

    def __init__(self, rng, fields=None, cidr=0.02):
        self.r = rng
        self.cidr = cidr
        self.fields = fields or {"int": ["a", "b", "c"], "num": ["x", "y"], "str": ["s", "u", "w", "user name"], "mv": ["m", "n"], "bool": ["p"]}
        self.used = {}

    def note(self, name):
        self.used[name] = self.used.get(name, 0) + 1

    def field(self, type):
        n = self.r.choice(self.fields[type])
        bound, wide = None, True
        if n in FIELD_TYPES:
            _, bound, wide = FIELD_TYPES[n]
        elif type in ("int", "num"):
            bound = 1000
        text = n if re.fullmatch(r"\w+", n) else "'" + n + "'"
        return X(text, type, lambda row: row[n], bound, wide, True)

    def int_lit(self, lo=-20, hi=100):
        v = self.r.choice((0, 1, 2, 3, 10, self.r.randint(lo, hi)))
        v = min(max(v, lo), hi)
        return X(str(v), "int", lambda row: v, abs(v), False, True)

    def num_lit(self):
        v = self.r.choice((0.5, 1.5, 2.25, 0.1, 10.0, -0.75, 3.14))
        return X(repr(v), "num", lambda row: v, abs(v), True, True)

    def str_lit(self, values=WORDS):
        v = self.r.choice([w for w in values if "*" not in w])
        return X(quote(v), "str", lambda row: v, None, True, True)

    # ---------------------------------------------------------------- by type

    def any(self, depth):
        return getattr(self, self.r.choice(("int", "num", "str", "str", "bool", "mv")))(depth)

    def number(self, depth):
        return self.int(depth) if self.r.random() < 0.5 else self.num(depth)

    def pick(self, options, depth):
        """One of the options, tried until one fits its limits"""
        for _ in range(8):
            x = self.r.choice(options)(depth - 1)
            if x is not None:
                return x
        return None

    def call(self, name, args, type, f, bound=None, wide=True):
        self.note(name)
        sep = self.r.choice((", ", ",", " , "))
        return X(name + "(" + sep.join(a if isinstance(a, str) else a.text for a in args) + ")", type, f, bound, wide, True)

    def int(self, depth):
        if depth <= 0 or self.r.random() < 0.15:
            return self.field("int") if self.r.random() < 0.75 else self.int_lit()
        return self.pick((self._arith_int, self._arith_int, self._len, self._bits, self._round_int, self._mvcount, self._choice_int, self._abs_int, self._extreme_int), depth) or self.field("int")

    def num(self, depth):
        if depth <= 0 or self.r.random() < 0.15:
            return self.field("num") if self.r.random() < 0.8 else self.num_lit()
        return self.pick((self._arith_num, self._arith_num, self._divide, self._math, self._math, self._trig, self._round_num, self._tonumber, self._avg, self._choice_num, self._pow, self._extreme_num), depth) or self.field("num")

    def str(self, depth):
        if depth <= 0 or self.r.random() < 0.15:
            return self.field("str") if self.r.random() < 0.8 else self.str_lit()
        return self.pick((self._concat, self._concat, self._case_text, self._substr, self._trim, self._replace, self._replace, self._mvindex, self._choice_str, self._hash, self._tostring, self._urldecode, self._nullif_str, self._extreme_str), depth) or self.field("str")

    def mv(self, depth):
        if depth <= 0 or self.r.random() < 0.2:
            return self.field("mv")
        return self.pick((self._split, self._split, self._mvappend, self._mvslice, self._mvzip, self._choice_mv, self._json_keys), depth) or self.field("mv")

    def bool(self, depth):
        if depth <= 0 or self.r.random() < 0.1:
            k = self.r.random()
            if k < 0.5 and self.fields.get("bool"):
                return self.field("bool")
            if k < 0.75:
                name = self.r.choice(("true", "false"))
                v = name == "true"
                return self.call(name, [], "bool", lambda row: v)
            return self._compare(1)
        opts = [self._compare, self._compare, self._compare, self._logic, self._logic, self._not, self._null_test, self._in, self._like, self._match, self._json_valid]
        if self.r.random() < self.cidr:
            opts = [self._cidr]
        return self.pick(opts, depth) or self._compare(1)

    # ---------------------------------------------------------------- numbers

    def _binary(self, op, a, b, type, f, bound, wide):
        self.note(op)
        return X(f"{a.t} {op} {b.t}", type, f, bound, wide)

    def _arith_int(self, d):
        op = self.r.choice("+-*")
        a, b = self.int(d), self.int(d)
        if op == "%":
            b = self.int_lit(1, 50)
            if b.bound == 0:
                return None
        wide = a.wide or b.wide
        bound = a.bound * b.bound if op == "*" else (b.bound if op == "%" else a.bound + b.bound)
        if bound > (2**60 if wide else 2**30):
            return None
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "%": lambda p, q: int(math.fmod(p, q)) if abs(p) < 2**50 else (abs(p) % q) * (1 if p >= 0 else -1)}[op]
        return self._binary(op, a, b, "int", strict(f, a, b), bound, wide)

    def _arith_num(self, d):
        op = self.r.choice("+-*")
        a, b = self.num(d), self.number(d)
        if self.r.random() < 0.5:
            a, b = b, a
        bound = a.bound * b.bound if op == "*" else a.bound + b.bound
        f = {"+": lambda p, q: float(p) + float(q), "-": lambda p, q: float(p) - float(q), "*": lambda p, q: float(p) * float(q)}[op]
        return self._binary(op, a, b, "num", strict(f, a, b), bound, True)

    def _divide(self, d):
        a = self.number(d)
        b = self.int_lit(1, 40) if self.r.random() < 0.6 else self.num_lit()
        if b.bound == 0:
            return None
        return self._binary("/", a, b, "num", strict(lambda p, q: p / q, a, b), a.bound * 10, True)

    def _len(self, d):
        a = self.str(d)
        return self.call("len", [a], "int", strict(len, a), 10**6, False)

    def _bits(self, d):
        name = self.r.choice(("bit_and", "bit_or", "bit_xor", "bit_not", "bit_shift_left", "bit_shift_right"))
        a = self.int(d)
        if name == "bit_not":
            return self.call(name, [a], "int", strict(lambda p: ~p, a), a.bound + 1, a.wide)
        if name.startswith("bit_shift"):
            n = self.r.randint(0, 8)
            if name.endswith("left"):
                if a.bound * 2**n > (2**60 if a.wide else 2**30):
                    return None
                return self.call(name, [a, str(n)], "int", strict(lambda p: p << n, a), a.bound * 2**n, a.wide)
            return self.call(name, [a, str(n)], "int", strict(lambda p: p >> n, a), a.bound + 1, a.wide)
        b = self.int(d)
        f = {"bit_and": lambda p, q: p & q, "bit_or": lambda p, q: p | q, "bit_xor": lambda p, q: p ^ q}[name]
        return self.call(name, [a, b], "int", strict(f, a, b), 2 * (a.bound + b.bound) + 2, a.wide or b.wide)

    def _round_int(self, d):
        name = self.r.choice(("floor", "ceiling"))
        a = self.number(d)
        if a.bound > 1e12 or a.type == "int":
            return None
        f = math.floor if name == "floor" else math.ceil
        return self.call(name, [a], "int", strict(lambda v: int(f(v)), a), a.bound + 1)

    def _abs_int(self, d):
        a = self.int(d)
        return self.call("abs", [a], "int", strict(abs, a), a.bound, a.wide)

    def _mvcount(self, d):
        a = self.mv(d)
        return self.call("mvcount", [a], "int", strict(len, a), 10**4, False)

    def _math(self, d):
        name = self.r.choice(("abs", "sqrt", "exp", "ln", "exact", "log"))
        a = self.num(d) if name == "abs" else self.number(d)
        if name == "abs":
            return self.call(name, [a], "num", strict(abs, a), a.bound)
        if name == "exact":
            return self.call(name, [a], "num", strict(float, a), a.bound)
        if name == "sqrt":
            if a.bound > 1e300:
                return None
            return self.call(name, [self.call("abs", [a], a.type, None)], "num", strict(lambda v: math.sqrt(abs(v)), a), math.sqrt(a.bound))
        if name == "exp":
            if a.bound > 50:
                return None
            return self.call(name, [a], "num", strict(math.exp, a), math.exp(a.bound))
        if a.bound > 1e15:
            return None
        if name == "ln":
            return self.call(name, [a], "num", strict(lambda v: None if v <= 0 else math.log(v), a), 50)
        base = self.r.choice((2, 10, 3))
        return self.call(name, [a, str(base)], "num", strict(lambda v: None if v <= 0 else math.log(v) / math.log(base), a), 60)

    def _pow(self, d):
        a = self.number(d)
        n = self.r.choice((0, 1, 2, 3, 2, 0.5))
        if n == 0.5:
            return None if a.bound > 1e15 else self.call("pow", [self.call("abs", [a], a.type, None), "0.5"], "num", strict(lambda v: java_pow(abs(v), 0.5), a), a.bound + 1)
        if a.bound > 1e15:
            return None
        return self.call("pow", [a, str(n)], "num", strict(lambda v: java_pow(float(v), n), a), max(1, a.bound**n))

    def _trig(self, d):
        name = self.r.choice(("sin", "cos", "tan", "atan", "tanh", "asinh", "sinh", "cosh", "acos", "asin", "acosh", "atanh", "hypot", "atan2", "pi"))
        if name == "pi":
            return self.call("pi", [], "num", lambda row: math.pi, 4)
        a = self.number(d)
        if a.bound > 1e6:
            return None
        if name in ("hypot", "atan2"):
            b = self.number(d)
            if b.bound > 1e6:
                return None
            return self.call(name, [a, b], "num", strict(getattr(math, name), a, b), a.bound + b.bound + 4)
        if name == "tan":
            return None if a.bound > 3000 else self.call(name, [a], "num", strict(math.tan, a), 1e18)
        if name in ("sinh", "cosh"):
            return None if a.bound > 50 else self.call(name, [a], "num", strict(getattr(math, name), a), 1e22)
        if name in ("acos", "asin", "atanh", "acosh"):
            # 1 / (2 + abs(a)) lies in (0, 1/2], 1 + abs(a) in [1, ...)
            inner = self.call("abs", [a], a.type, None)
            if name == "acosh":
                return self.call(name, ["1 + " + inner.text], "num", strict(lambda v: math.acosh(1 + abs(v)), a), 50)
            g = getattr(math, name)
            return self.call(name, ["1 / (2 + " + inner.text + ")"], "num", strict(lambda v: g(1 / (2 + abs(v))), a), 10)
        return self.call(name, [a], "num", strict(getattr(math, name), a), 1e7)

    def _round_num(self, d):
        # Only of values that are exact decimals: rounding the last bit differently is no finding
        a = self.field("num") if self.r.random() < 0.7 else self.num_lit()
        n = self.r.randint(0, 4)
        return self.call("round", [a, str(n)], "num", strict(lambda v: half_up(v, n), a), a.bound + 1)

    def _tonumber(self, d):
        if "k" not in self.fields.get("digits", ["k"]):
            return None
        return self.call("tonumber", ["k"], "num", lambda row: None if row["k"] is None else float(row["k"]), 1000)

    def _avg(self, d):
        a = [self.number(d) for _ in range(self.r.choice((1, 2, 2, 3, 4)))]
        if any(x.bound > 1e15 for x in a):
            return None
        if sum(x.bound for x in a) > 2**30 and not any(x.wide for x in a):
            return None
        return self.call("avg", a, "num", strict(lambda *v: sum(v) / len(v), *a), sum(x.bound for x in a))

    def _extreme(self, xs, type, bound, wide):
        name = self.r.choice(("max", "min"))
        f = max if name == "max" else min

        def g(row):
            vs = [v for v in (x.f(row) for x in xs) if v is not None]
            if not vs:
                return None
            v = f(vs, key=order) if type != "str" else f(vs)
            return float(v) if type == "num" else v

        return self.call(name, xs, type, g, bound, wide)

    def _extreme_int(self, d):
        a = [self.int(d) for _ in range(self.r.choice((2, 2, 3, 4)))]
        return self._extreme(a, "int", max(x.bound for x in a), any(x.wide for x in a))

    def _extreme_num(self, d):
        a = [self.num(d)] + [self.number(d) for _ in range(self.r.choice((1, 1, 2, 3)))]
        self.r.shuffle(a)
        return self._extreme(a, "num", max(x.bound for x in a), True)

    def _extreme_str(self, d):
        a = [self.str(d) for _ in range(self.r.choice((2, 2, 3, 4)))]
        return self._extreme(a, "str", None, True)

    # ---------------------------------------------------------------- choices

    def _choice(self, d, make, type):
        name = self.r.choice(("if", "if", "case", "validate", "coalesce"))
        if name == "if":
            c, a, b = self.bool(d), make(d), make(d)
            xs = [a, b]
            f = lambda row: a.f(row) if c.f(row) is True else b.f(row)
            args = [c, a, b]
        elif name == "coalesce":
            xs = [make(d) for _ in range(self.r.choice((1, 2, 2, 3, 4)))]
            f = lambda row: next((v for v in (x.f(row) for x in xs) if v is not None), None)
            args = xs
        else:
            pairs = [(self.bool(d), make(d)) for _ in range(self.r.choice((1, 2, 2, 3, 5)))]
            xs = [v for _, v in pairs]
            wanted = name == "case"
            f = lambda row: next((v.f(row) for c, v in pairs if c.f(row) is wanted), None)
            args = [x for p in pairs for x in p]
        if type == "num":
            inner = f
            f = lambda row: None if inner(row) is None else float(inner(row))
        bounds = [x.bound for x in xs if x.bound is not None]
        return self.call(name, args, type, f, max(bounds) if bounds else None, any(x.wide for x in xs))

    def _choice_int(self, d):
        return self._choice(d, self.int, "int")

    def _choice_num(self, d):
        return self._choice(d, self.num, "num")

    def _choice_str(self, d):
        return self._choice(d, self.str, "str")

    def _choice_mv(self, d):
        return self._choice(d, self.mv, "mv")

    def _nullif_str(self, d):
        a, b = self.str(d), self.str(d)
        return self.call("nullif", [a, b], "str", lambda row: None if a.f(row) is not None and a.f(row) == b.f(row) else a.f(row))

    # ---------------------------------------------------------------- text

    def _concat(self, d):
        a, b = self.str(d), self.str(d) if self.r.random() < 0.8 else self.int(d)
        if self.r.random() < 0.3:
            a, b = b, a
        if a.type == "int" and b.type == "int":
            return None
        self.note(".")
        return X(f"{a.t} . {b.t}", "str", strict(lambda p, q: str(p) + str(q), a, b))

    def _case_text(self, d):
        name = self.r.choice(("upper", "lower"))
        a = self.str(d)
        return self.call(name, [a], "str", strict(str.upper if name == "upper" else str.lower, a))

    def _substr(self, d):
        a = self.str(d)
        start, length = self.r.choice((1, 1, 2, 3, -1, -2, -5, 0, 9)), self.r.choice((0, 1, 2, 3, 5, 50))
        return self.call("substr", [a, str(start), str(length)], "str", strict(lambda v: substring(v, start, length), a))

    def _trim(self, d):
        name = self.r.choice(("trim", "ltrim", "rtrim"))
        a = self.str(d)
        chars = self.r.choice(("a", "x", "xa", " ", "ab ", ".-", "é", '"', "'"))
        f = {"trim": str.strip, "ltrim": str.lstrip, "rtrim": str.rstrip}[name]
        return self.call(name, [a, quote(chars)], "str", strict(lambda v: f(v, chars), a))

    def _replace(self, d):
        a = self.str(d)
        regex, groups = self.r.choice(REGEXES)
        rep = "".join(self.r.choice(("-", "X", "", "\\1" if groups else "#", "\\2" if groups > 1 else "$", "\\0", "$1", "é", " ", "'")) for _ in range(self.r.randint(0, 3)))
        compiled, by = re.compile(regex, re.ASCII), replacement_for_python(rep)
        return self.call("replace", [a, quote(regex), quote(rep)], "str", strict(lambda v: compiled.sub(by, v), a))

    def _mvindex(self, d):
        a = self.mv(d)
        i = self.r.choice((0, 0, 1, 2, 5))
        return self.call("mvindex", [a, str(i)], "str", strict(lambda v: v[i] if i < len(v) else None, a))

    def _hash(self, d):
        name = self.r.choice(("md5", "sha1", "sha256", "sha512"))
        a = self.str(d)
        return self.call(name, [a], "str", strict(lambda v: getattr(hashlib, name)(v.encode()).hexdigest(), a))

    def _tostring(self, d):
        a = self.int(d) if self.r.random() < 0.7 else self.str(d)
        return self.call("tostring", [a], "str", strict(str, a))

    def _urldecode(self, d):
        if self.fields.get("url") == []:
            return None
        return self.call("urldecode", ["url"], "str", lambda row: None if row["url"] is None else urllib.parse.unquote_plus(row["url"]))

    # ---------------------------------------------------------------- several values

    def _split(self, d):
        a = self.str(d)
        delim = self.r.choice((",", ".", "|", "-", " ", "a", "xx", "..", "$", "(", ")", "\\", "*", "+", "é", "[", "?", "^", "=", '"', "'"))
        return self.call("split", [a, quote(delim)], "mv", strict(lambda v: v.split(delim), a))

    def _mvappend(self, d):
        a = [self.mv(d) for _ in range(self.r.choice((1, 2, 2, 3)))]
        return self.call("mvappend", a, "mv", strict(lambda *v: [x for y in v for x in y], *a))

    def _mvslice(self, d):
        a = self.mv(d)
        if self.r.random() < 0.5:
            i = self.r.randint(0, 3)
            j = i + self.r.randint(0, 3)
        else:
            j = -self.r.randint(1, 3)
            i = j - self.r.randint(0, 3)
        return self.call("mvindex", [a, str(i), str(j)], "mv", strict(lambda v: slice_mv(v, i, j), a))

    def _mvzip(self, d):
        a = self.mv(d)
        delim = self.r.choice((None, ",", "|", " - ", "\\", '"', "'"))
        g = strict(lambda v: [x + (delim or ",") + x for x in v], a)
        # Both sides have the same number of values
        return self.call("mvzip", [a, a] + ([quote(delim)] if delim else []), "mv", g)

    def _json_keys(self, d):
        if self.fields.get("json") == []:
            return None
        return self.call("json_keys", ["j"], "mv", lambda row: None if row["j"] is None else json_object_keys(row["j"]))

    # ---------------------------------------------------------------- conditions

    def _compare(self, d):
        op = self.r.choice(("=", "==", "!=", "<", ">", "<=", ">="))
        if self.r.random() < 0.6:
            a, b = self.number(d), self.number(d)
        else:
            a, b = self.str(d), self.str(d)
        # A text with a wildcard or a literal on both sides is another matter
        self.note(op)
        return X(f"{a.t} {op} {b.t}", "bool", strict(lambda p, q: compare(op, p, q), a, b))

    def _logic(self, d):
        op = self.r.choice(("AND", "OR"))
        a, b = self.bool(d), self.bool(d)
        self.note(op)
        f = and3 if op == "AND" else or3
        return X(f"{a.t} {op} {b.t}", "bool", lambda row: f(a.f(row), b.f(row)))

    def _not(self, d):
        a = self.bool(d)
        self.note("NOT")
        return X(f"NOT ({a.text})", "bool", strict(lambda v: not v, a))

    def _null_test(self, d):
        name = self.r.choice(("isnull", "isnotnull"))
        a = self.any(d)
        return self.call(name, [a], "bool", lambda row: (a.f(row) is None) == (name == "isnull"))

    def _in(self, d):
        make = self.r.choice((self.int, self.str))
        a = make(d)
        vs = [make(0) for _ in range(self.r.choice((1, 2, 3, 6)))]

        def g(row):
            v = a.f(row)
            if v is None:
                return None
            others = [x.f(row) for x in vs]
            return True if v in others else (None if None in others else False)

        return self.call("in", [a] + vs, "bool", g)

    def _like(self, d):
        a = self.str(d)
        p = self.r.choice(("%", "a%", "%b", "%a%", "_", "a_c", "x_y%", "100\\%", "%\\_%", "error%", "", "%é%", "(1)", "%'%"))
        compiled = like_regex(p)
        return self.call("like", [a, quote(p)], "bool", strict(lambda v: bool(compiled.match(v)), a))

    def _match(self, d):
        a = self.str(d)
        regex, _ = self.r.choice(REGEXES)
        compiled = re.compile(regex, re.ASCII)
        return self.call("match", [a, quote(regex)], "bool", strict(lambda v: bool(compiled.search(v)), a))

    def _json_valid(self, d):
        if self.fields.get("json") == []:
            return None

        def g(row):
            if row["j"] is None:
                return False
            try:
                json.loads(row["j"])
                return True
            except ValueError:
                return False

        return self.call("json_valid", ["j"], "bool", g)

    def _cidr(self, d):
        if self.fields.get("ip") == []:
            return None
        cidr = self.r.choice(("10.0.0.0/8", "192.168.1.0/24", "0.0.0.0/0", "192.168.0.0/16", "2001:db8::/32", "10.1.2.3/32"))
        return self.call("cidrmatch", [quote(cidr), "ip"], "bool", lambda row: in_cidr(cidr, row["ip"]) if row["ip"] is not None else False)
