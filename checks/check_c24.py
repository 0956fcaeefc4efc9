"""The functions that run as Python code inside Spark give defined values for every input."""
import ctypes
import random
import re
import socket

from harness import Violation
from sparkbase import SparkCheck, same_value

LIBC = ctypes.CDLL(None)
LIBC.snprintf.restype = ctypes.c_int
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"
N = 24


def ip_bits(s):
    """(version, number) of an address or None: by the C library"""
    if s is None:
        return None
    for version, family in ((4, socket.AF_INET), (6, socket.AF_INET6)):
        try:
            return version, int.from_bytes(socket.inet_pton(family, s), "big")
        except (OSError, ValueError):
            pass
    return None


def c_format(conversion, value):
    buf = ctypes.create_string_buffer(4096)
    kind = conversion[-1]
    if kind in "diouxX":
        f = conversion[:-1] + "ll" + kind
        n = LIBC.snprintf(buf, 4096, f.encode(), ctypes.c_longlong(value))
    elif kind in "eEfFgG":
        n = LIBC.snprintf(buf, 4096, conversion.encode(), ctypes.c_double(value))
    else:
        n = LIBC.snprintf(buf, 4096, conversion.encode(), ctypes.c_char_p(value.encode()))
    assert 0 <= n < 4096
    return buf.value.decode()


def to_base(n, base):
    out = ""
    m = abs(n)
    while m or not out:
        out = DIGITS[m % base] + out
        m //= base
    return ("-" if n < 0 else "") + out


def from_base(s, base):
    """The number that a text of digits stands for, or None"""
    m = re.fullmatch(r"([+-]?)([0-9a-zA-Z]+)", s)
    if not m:
        return None
    n = 0
    for c in m[2].lower():
        d = DIGITS.index(c)
        if d >= base:
            return None
        n = n * base + d
    return -n if m[1] == "-" else n


class CHECK(SparkCheck):
    id = "C24"
    rule = "distinct calls of the library's Python functions on columns of random, malformed and missing values, run by Spark"
    assumptions = [
        "numbers within 64 bits; formats of printf with as many arguments of the right types as conversions, without %c, # and precision with 0",
        "hexadecimal without 0x, thousands without rounding and durations without days are as the library has them",
    ]

    # ---------------------------------------------------------------- values

    def ip(self, r):
        k = r.random()
        if k < 0.1:
            return None
        if k < 0.6:
            return ".".join(str(r.choice((0, 1, 10, 127, 128, 192, 254, 255, r.randint(0, 255)))) for _ in range(4))
        if k < 0.8:
            n = r.choice((0, 1, 0xFE80 << 112, 0x20010DB8 << 96)) + r.getrandbits(r.choice((1, 16, 64)))
            return socket.inet_ntop(socket.AF_INET6, n.to_bytes(16, "big"))
        return r.choice(("", "bad", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4/24", "-1.0.0.1", ":::", "12345::1", "1.2.3.4 x", "é", "1..2.3", "localhost"))

    def cidr(self, r, near):
        k = r.random()
        if k < 0.07:
            return None
        if k < 0.17:
            return r.choice(("", "bad", "10.0.0.0/33", "10.0.0.0/-1", "10.0.0.0/x", "300.0.0.0/8", "2001:db8::/129", "/8", "10.0.0.0/8/8", "10.0.0"))
        bits = ip_bits(r.choice(near)) if near and r.random() < 0.7 else None
        if bits is None:
            bits = ip_bits(self.ip(r)) or (4, r.getrandbits(32))
        version, n = bits
        size = 32 if version == 4 else 128
        plen = r.choice((0, 1, 8, 16, 23, 24, 25, 31, 32, 48, 64, 127, 128, r.randint(0, size)))
        plen = min(plen, size)
        if r.random() < 0.3:
            n ^= 1 << r.randrange(size)  # near the border of the range
        if r.random() < 0.6 and plen < size:
            n = n >> (size - plen) << (size - plen)
        text = socket.inet_ntop(socket.AF_INET if version == 4 else socket.AF_INET6, n.to_bytes(size // 8, "big"))
        return text if plen == size and r.random() < 0.5 else f"{text}/{plen}"

    def in_range(self, cidr, ip):
        if cidr is None or ip is None:
            return {None, False}
        addr = ip_bits(ip)
        base, _, plen = cidr.partition("/")
        net = ip_bits(base)
        if addr is None or net is None:
            return {False, None}
        size = 32 if net[0] == 4 else 128
        if "/" in cidr and not (plen.isascii() and plen.isdigit() and int(plen) <= size):
            return {False, None}
        if addr[0] != net[0]:
            return {False}
        shift = size - (int(plen) if "/" in cidr else size)
        return {addr[1] >> shift == net[1] >> shift}

    # ---------------------------------------------------------------- cases

    def do_cidr(self, r):
        ips = [self.ip(r) for _ in range(N)]
        rows = [(self.cidr(r, [i]), i) for i in ips]
        if r.random() < 0.5:
            # As rendered code has it: the range is a constant
            c = self.cidr(r, [i for i in ips if i])
            while c is None:
                c = self.cidr(r, ips)
            return [("p", "string"), ("q", "string")], [(c, i) for i in ips], lambda F, u, f: f.cidrmatch(c, "q"), lambda p, q: self.in_range(p, q)
        return [("p", "string"), ("q", "string")], rows, lambda F, u, f: u.cidr_match(F.col("p"), F.col("q")), self.in_range

    def do_sql_cidr(self, r):
        """The registered function, as rendered code without the runtime calls it"""
        ips = [self.ip(r) for _ in range(N)]
        c = self.cidr(r, [i for i in ips if i]) or "10.0.0.0/8"
        return [("p", "string"), ("q", "string")], [(c, i) for i in ips], lambda F, u, f: F.expr(f"cidr_match('{c}', q)"), self.in_range

    def do_ipmask(self, r):
        def mask():
            k = r.random()
            if k < 0.1:
                return None
            if k < 0.7:
                return r.choice(("255.255.255.0", "255.255.0.0", "255.0.0.0", "0.0.0.0", "255.255.255.255", "0.255.0.244", "255.255.254.0"))
            return self.ip(r)

        rows = [(mask(), self.ip(r)) for _ in range(N)]

        def expected(m, i):
            a, b = ip_bits(m), ip_bits(i)
            if a is None or b is None or a[0] != 4 or b[0] != 4:
                return {None}
            return {socket.inet_ntoa((a[1] & b[1]).to_bytes(4, "big"))}

        return [("p", "string"), ("q", "string")], rows, lambda F, u, f: f.ipmask("p", "q"), expected

    def do_tonumber(self, r):
        base = r.choice((2, 8, 16, 16, 36, r.choice([b for b in range(2, 37) if b != 10])))  # 10 is a cast of Spark

        def text():
            k = r.random()
            if k < 0.1:
                return None
            if k < 0.75:
                n = r.choice((0, 1, -1, base, base - 1, 2**31, 2**32 + 5, -(2**31) - 1, 2**63 - 1, -(2**63), r.randint(-999, 999), r.getrandbits(r.randint(1, 62))))
                s = to_base(n, base)
                return s.upper() if r.random() < 0.3 else "+" + s if s[0] != "-" and r.random() < 0.1 else "00" + s if s[0] != "-" and r.random() < 0.1 else s
            s = r.choice(("", "-", "+", "zz", "9", "a", "1.5", "1 2", "--1", "é", "1-", "g", "12z", "$1", "1,000"))
            n = from_base(s, base)
            return s if n is None or abs(n) < 2**63 else "~"

        def expected(p):
            return {None if p is None else from_base(p, base)}

        return [("p", "string")], [(text(),) for _ in range(N)], lambda F, u, f: f.tonumber("p", base), expected

    def integer(self, r):
        k = r.random()
        if k < 0.1:
            return None
        return r.choice((0, 1, -1, 7, 9, 10, 59, 60, 61, 99, 100, 999, 1000, 1001, 3599, 3600, 3661, 86399, 86400, 10**6, 10**9, 2**31, 2**63 - 1, r.randint(-5000, 5000), r.getrandbits(r.randint(1, 62)), -r.getrandbits(r.randint(1, 62))))

    def do_tostring(self, r):
        fmt = r.choice(("binary", "hex", "commas", "duration", "commas"))
        t = "double" if fmt == "commas" and r.random() < 0.4 else "bigint"

        def value():
            v = self.integer(r)
            if t == "double" and v is not None:
                v = r.choice((0.0, 1.5, -1234.5, 1234567.25, v % 10**6 / 8, -(v % 10**5) / 4))
            return (v,)

        def expected(v):
            if v is None:
                return {None}
            sign, m = ("-" if v < 0 else ""), abs(v)
            if fmt == "binary":
                return {sign + to_base(m, 2)}
            if fmt == "hex":
                return {sign + to_base(m, 16), sign + "0x" + to_base(m, 16).upper(), sign + "0x" + to_base(m, 16)}
            if fmt == "duration":
                two = lambda n: "0" * (2 - len(str(n))) + str(n)
                days = {f"{sign}{two(m // 3600)}:{two(m // 60 % 60)}:{two(m % 60)}"}
                if m >= 86400:
                    days.add(f"{sign}{m // 86400}+{two(m // 3600 % 24)}:{two(m // 60 % 60)}:{two(m % 60)}")
                return days
            whole, dot, frac = repr(m).partition(".")
            groups = []
            while whole:
                groups.insert(0, whole[-3:])
                whole = whole[:-3]
            return {sign + ",".join(groups) + dot + frac}

        return [("p", t)], [value() for _ in range(N)], lambda F, u, f: f.tostring("p", fmt), expected

    def do_printf(self, r):
        conversions, schema, kinds = [], [], []
        text = ""
        for _ in range(r.choice((1, 1, 2, 3, 4))):
            text += r.choice(("", "", " ", "x=", ", ", "é", "%%", "100%% ", "[", "|", "'", '"', "\\"))
            kind = r.choice("ddisssxXofeEgG")
            flags = "".join(f for f in ("-", "0" if kind not in "s" else "", "+" if kind in "difeEgG" else "", " " if kind in "difeEgG" else "") if f and r.random() < 0.25)
            width = r.choice(("", "", str(r.randint(1, 12))))
            precision = ""
            if kind in "feEgGs" and r.random() < 0.5:
                precision = "." + str(r.randint(0, 8))
            c = "%" + flags + width + precision + kind
            text += c
            conversions.append(c)
            kinds.append(kind)
            schema.append((f"a{len(schema)}", "string" if kind == "s" else "bigint" if kind in "dixXo" else "double"))
        text += r.choice(("", "", ".", "%%", " end"))
        parts = re.split("(%%|" + "|".join(map(re.escape, sorted(set(conversions), key=len, reverse=True))) + ")", text)

        def value(kind):
            if r.random() < 0.06:
                return None
            if kind == "s":
                return r.choice(("", "a", "word", "two words", "100%", "%s", "x" * 20, "it's", "\\n"))
            if kind in "di":
                return r.choice((0, 1, -1, 42, -7, 10**6, 2**40, r.randint(-999, 999)))
            if kind in "xXo":
                return r.choice((0, 1, 8, 255, 2**33, r.randint(0, 99999)))
            return r.choice((0.0, 1.0, -1.0, 0.5, 1.005, -2.675, 1e-7, 12345.678, 1e20, r.uniform(-1000, 1000)))

        def expected(*values):
            if any(v is None for v in values):
                return {None}
            vs = iter(values)
            return {"".join("%" if p == "%%" else c_format(p, next(vs)) if p in conversions else p for p in parts)}

        names = [n for n, _ in schema]
        rows = [tuple(value(k) for k in kinds) for _ in range(N)]
        return schema, rows, lambda F, u, f: f.printf(F.lit(text), *names), expected, text

    def run(self, rng, i):
        name = rng.choice(("cidr", "cidr", "sql_cidr", "ipmask", "tonumber", "tostring", "tostring", "printf", "printf"))
        jobs = [(name, *getattr(self, "do_" + name)(rng))]
        schema, rows, make, expected = jobs[0][1:5]
        what = name + (" " + repr(jobs[0][5]) if len(jobs[0]) > 5 else "")
        df = self.frame(schema, rows)
        from py4j.protocol import Py4JError
        from pyspark.errors import PySparkException

        try:
            out = df.select(make(self.F, self.udfs, self.functions.eval).alias("r"), *[n for n, _ in schema]).collect()
        except (PySparkException, Py4JError, ValueError, TypeError, AttributeError) as e:
            raise Violation(f"{what} fails: {type(e).__name__}: {str(e)[-900:]}\nrows: {rows}") from None
        if len(out) != len(rows):
            raise Violation(f"{what}: {len(out)} rows of {len(rows)}")
        for row, got in zip(rows, out):
            want = expected(*row)
            if not any(same_value(got[0], w) for w in want):
                raise Violation(f"{what} of {row!r} is {got[0]!r} instead of {' or '.join(map(repr, want))}")
            self.observed[name + ": " + ("null" if got[0] is None else "true" if got[0] is True else "false" if got[0] is False else "a value")] += 1
        return what + repr(rows), what + " of " + repr(rows[0])
