"""Random SPL of the supported language, with what it has to translate to.

Every generated piece carries its text and, built with the stand-ins of `fake`, the PySpark it stands
for: `sa` without the runtime library and `rt` with it. The two are independent of the transpiler:
they are made from the generator's own choices, never from parsed text.

Text is kept with markers for the places where the language leaves the spelling open, which
`spell` fills in: O optional whitespace, W required whitespace, K...E a keyword of any case.
"""
import re

import fake

F = fake.Functions()
COMMANDS = fake.Commands()
FUNCTIONS = fake.RuntimeFunctions()
SPARK = fake.Spark()

O, W, K, E_ = "\ue000", "\ue001", "\ue002", "\ue003"
MARKS = re.compile("([\ue000\ue001])|\ue002([^\ue003]*)\ue003")

RESERVED = set(
    """AFTER AND APPLY AS ASC BEFORE BETWEEN BIN BRANCH BY DEDUP DISTINCT EVENTSTATS EXISTS EXPORT FIT FROM FUNCTION GROUP
    GROUPBY HAVING HEAD HISTPERC IMPORT IN INNER INTO IS JOIN LIKE LIMIT LOOKUP NOT OFFSET ON ONCHANGE OR ORDER ORDERBY OUTER
    OUTPUTNEW RENAME RESET RETURN REX SEARCH SELECT SORT STATS STREAMSTATS THRU THROUGH TIMECHART TIMEWRAP UNION WHERE WHILE XOR""".split()
)
# Words with a meaning of their own somewhere in the language; the generators keep them out of names
SPECIAL = RESERVED | set(
    """T F TRUE FALSE NULL COUNT OUTPUT DESC SPAN AUTO INDEX SOURCE SOURCETYPE HOST HOSTTAG EVENTTYPE EVENTTYPETAG SAVEDSPLUNK
    SAVEDSEARCH SPLUNK_SERVER TERM PREFIX KEEPLAST VALUE FLAT ACCELERATION_SEARCH NODENAME DATAMODEL EARLIEST LATEST STARTTIME
    ENDTIME TIMEFORMAT DEDUP_SPLITVALS INF NAN LEFT RIGHT INFINITY DF BY FROM_ WHERE FILL_NULL_VALUE SOURCE_TYPE HOST_TAG
    EVENT_TYPE EVENT_TYPE_TAG SAVED_SPLUNK PY CASE IF LIMIT FIELDNAME""".split()
)
COMMAND_NAMES = set(
    """addtotals bin bucket collect convert datamodel dedup eval eventstats fields fillnull format head inputlookup join lookup
    makeresults map multisearch mvcombine mvexpand rare regex rename return rex search sort spath stats streamstats table tail top
    tstats where""".split()
)
SPECIAL |= {c.upper() for c in COMMAND_NAMES}
import keyword as _kw

SPECIAL |= {k.upper() for k in _kw.kwlist} | {k.upper() for k in _kw.softkwlist}
EVAL_FUNCTIONS = set(
    """bit_and bit_or bit_not bit_xor bit_shift_left bit_shift_right case cidrmatch coalesce false if in like lookup match null nullif
    searchmatch true validate ipmask printf tonumber tostring md5 sha1 sha256 sha512 now relative_time strftime strptime time isbool isint
    isnotnull isnull isnum isstr typeof json_object json_append json_array json_array_to_mv json_extend json_extract json_extract_exact
    json_keys json_set json_set_exact json_valid abs ceiling exact exp floor ln log pi pow round sigfig sqrt sum commands mvappend mvcount
    mvdedup mvfilter mvfind mvindex mvjoin mvmap mvrange mvsort mvzip mv_to_json_array split avg max min random len lower ltrim replace
    rtrim spath substr trim upper urldecode acos acosh asin asinh atan atan2 atanh cos cosh hypot sin sinh tan tanh memk rmunit rmcomma""".split()
)


def spell(text, rng=None, spaces=(" ", "  ", "\n", "\t", " \n  "), case=True):
    """The text of a query. Without `rng` in its plainest form."""

    def f(m):
        if m[1] == O:
            return rng.choice(("", "", " ", "  ", "\n")) if rng else ""
        if m[1] == W:
            return rng.choice(spaces) if rng else " "
        word = m[2]
        if not rng or not case:
            return word
        how = rng.randrange(4)
        if how == 0:
            return word.upper()
        if how == 1:
            return word.lower()
        if how == 2:
            return "".join(rng.choice((c.upper(), c.lower())) for c in word)
        return word

    return MARKS.sub(f, text)


def kw(word):
    return K + word + E_


def unescaped(text):
    """What SPL text stands for: a backslash escapes quotes and backslashes, and is itself elsewhere."""
    return re.sub(r"\\([\"'\\])", r"\1", text, flags=re.S)


class E:
    """An expression. `prec` is how loosely its outermost operator binds, 0 for none."""

    __slots__ = ("text", "prec", "sa", "rt", "type", "kind", "val")

    def __init__(self, text, prec, sa, rt=None, type="any", kind="", val=None):
        self.text, self.prec, self.sa, self.rt = text, prec, sa, sa if rt is None else rt
        self.type, self.kind, self.val = type, kind, val


class C:
    """A command: its text, and its effect on a dataframe (None at the start of a pipeline)."""

    __slots__ = ("text", "sa", "rt", "name", "source")

    def __init__(self, name, text, sa, rt=None, source=False):
        self.name, self.text, self.sa, self.rt, self.source = name, text, sa, rt or sa, source


def main_if_none(df):
    return SPARK.table("main") if df is None else df


def parens(e):
    return "(" + O + e.text + O + ")"


def tight(e, limit):
    """The text of an operand, in parentheses when its operator binds more loosely than `limit`."""
    return e.text if e.prec <= limit else parens(e)


IDENT_START = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
IDENT = IDENT_START + "0123456789"
TIME_LIKE = re.compile(r"(?i)^[-+]?\d*[a-z0-9]*$")


class Gen:
    def __init__(self, rng, runtime_names=False, unusual_names=True):
        self.r = rng
        self.runtime_names = runtime_names
        self.unusual_names = unusual_names
        n = rng.randint(4, 8)
        self.names = [self.fresh_name() for _ in range(n)]

    # ------------------------------------------------------------------ names and literals

    def few(self, options, many=40):
        """How many of something there are: mostly as `options` say, sometimes a lot"""
        r = self.r
        if r.random() < 0.012:
            return r.randint(6, r.choice((12, many)))
        return r.choice(options)

    def ident(self, lo=1, hi=9):
        r = self.r
        while True:
            s = r.choice(IDENT_START) + "".join(r.choice(IDENT) for _ in range(r.randint(lo, hi) - 1))
            if r.random() < 0.5:
                s = s.lower()
            if r.random() < 0.12:
                # names that begin or end with a word of the language
                word = r.choice(("or", "and", "not", "in", "as", "by", "desc", "AND", "OR", "NOT", "head", "where", "count", "search", "true", "false", "sum"))
                s = word + s if r.random() < 0.7 else s + word
            if s.upper() in SPECIAL or s in EVAL_FUNCTIONS or s.lower() in ("t", "f"):
                continue
            if not re.search("[A-Za-z]", s) or s.startswith("__"):
                continue
            return s

    def fresh_name(self):
        r = self.r
        s = self.ident()
        if self.unusual_names and r.random() < 0.2:
            # a short word before @ may read as a relative time
            s += r.choice((".", ".", ":", "-", "{}", "{}.", "@" if len(s) > 7 else ".")) + self.ident()
            s = s.rstrip(".")
        return s

    def field_name(self):
        return self.r.choice(self.names) if self.r.random() < 0.8 else self.fresh_name()

    def target_name(self):
        """A name for a new column."""
        return self.r.choice(self.names) if self.r.random() < 0.3 else self.ident()

    def column_name(self):
        """A plain name for a new column, maybe one that is in use; later commands may use it."""
        plain = [n for n in self.names if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", n)]
        if plain and self.r.random() < 0.3:
            return self.r.choice(plain)
        s = self.ident()
        if self.r.random() < 0.5:
            self.names.append(s)
        return s

    def quoted_field(self):
        r = self.r
        s = r.choice((self.ident(), self.ident() + " " + self.ident(), self.ident() + "-" + self.ident() + " (x)", self.ident() + "/" + self.ident() + "'s"))
        return s

    def name_text(self, allow_quotes=True):
        """(text, name) of a field in an expression or a list of fields"""
        r = self.r
        if allow_quotes and r.random() < 0.06:
            s = self.quoted_field().replace("'", "")
            return "'" + s + "'", s
        s = self.field_name()
        return s, s

    TEXT_CHARS = "abcXYZ 019_-.,:;!?#$&()[]{}<>/|=+~^`@%éßλ中🙂"

    def string_value(self, wild=False):
        r = self.r
        n = r.choice((0, 1, 1, 2, 3, 5, 8, 13))
        chars = self.TEXT_CHARS + "'\"\\" * 2 + "\n\t"
        while True:
            s = "".join(r.choice(chars) for _ in range(n))
            if wild:
                s += "*"
                k = r.randrange(len(s))
                if r.random() < 0.4:
                    s = s[:k] + "*" + s[k:]
            if re.fullmatch(r"(?i)[-+]?\d*[a-z0-9]*@[a-z0-9+-]*", s):
                continue  # reads as a relative time
            if s.startswith('"') or s.endswith('"'):
                continue  # doubled quotes have a meaning of their own
            return s

    def quote(self, value):
        """SPL text of a double-quoted string with this value."""
        r = self.r
        out = ""
        for i, c in enumerate(value):
            if c == '"':
                out += '\\"'
            elif c == "\\":
                nxt = value[i + 1] if i + 1 < len(value) else '"'
                # a backslash may stand for itself where it does not escape
                out += "\\\\" if nxt in "\"'\\" or r.random() < 0.5 else "\\" + ""
                if not out.endswith("\\\\") and nxt in "\"'\\":
                    raise AssertionError
            else:
                out += c
        # the pair of a lone backslash with the next character is only itself outside of escapes
        if unescaped(out) != value:
            out = value.replace("\\", "\\\\").replace('"', '\\"')
        assert unescaped(out) == value, (out, value)
        return '"' + out + '"'

    def lit_str(self, value=None):
        v = self.string_value() if value is None else value
        return E(self.quote(v), 0, F.lit(v), type="str", kind="lit", val=v)

    def int_value(self, lo=None, hi=None):
        r = self.r
        if lo is not None:
            return r.randint(lo, hi)
        return r.choice((0, 1, 2, r.randint(0, 9), r.randint(10, 99999), r.randint(0, 2**40), 2**31, 2**31 - 1, 2**63 - 1))

    def lit_int(self, v=None, signed=True):
        if v is None:
            v = self.int_value()
            if signed and self.r.random() < 0.2:
                v = -v
        return E(str(v), 0, F.lit(v), type="num", kind="lit", val=v)

    def double_text(self):
        r = self.r
        return r.choice(("0.5", "1.0", "2.25", "100.125", "0.1", "3.14159", "12345.678", "0.001", "1.50", f"{r.randint(0, 999)}.{r.randint(0, 999)}", f"{r.choice((0, 0, 7, 1700000000, r.randint(0, 10**12)))}.{r.randint(0, 10 ** r.choice((3, 9, 16))):0{r.randint(1, 12)}}"))

    def lit_double(self):
        t = self.double_text()
        if self.r.random() < 0.2:
            t = "-" + t
        return E(t, 0, F.lit(float(t)), type="num", kind="lit", val=float(t))

    def field(self):
        t, n = self.name_text()
        return E(t, 0, F.col(n), kind="field", val=n)

    def cidr(self):
        r = self.r
        return ".".join(str(r.randint(0, 255)) for _ in range(4)) + "/" + str(r.randint(0, 32))

    # ------------------------------------------------------------------ eval expressions

    def leaf(self):
        r = self.r.random()
        if r < 0.5:
            return self.field()
        if r < 0.7:
            return self.lit_int()
        if r < 0.8:
            return self.lit_double()
        return self.lit_str()

    def operand(self, depth):
        """An operand of arithmetic: no strings."""
        r = self.r.random()
        if depth <= 0 or r < 0.45:
            e = self.leaf()
            return e if e.type != "str" else self.field()
        if r < 0.75:
            return self.arith(depth - 1)
        return self.call(depth - 1)

    def chain(self, ops, sub, prec, limit):
        """first op1 e1 op2 e2 ..., applied from left to right"""
        n = self.few((2, 2, 2, 3, 3, 4, 5, 7))
        parts = [sub() for _ in range(n)]
        sa, rt = parts[0].sa, parts[0].rt
        text = tight(parts[0], limit)
        for p in parts[1:]:
            op = self.r.choice(ops)
            f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}[op]
            sa, rt = f(sa, p.sa), f(rt, p.rt)
            text += W + op + W + tight(p, limit)
        return E(text, prec, sa, rt, type="num")

    def arith(self, depth):
        if self.r.random() < 0.5:
            ops = self.r.choice((("*", "/"), ("*",), ("/",)))
            return self.chain(ops, lambda: self.operand(depth), 3, 0)
        ops = self.r.choice((("+", "-"), ("+",), ("-",)))
        return self.chain(ops, lambda: self.operand(depth), 4, 3)

    def concat(self, depth):
        n = self.few((2, 2, 3, 4))
        parts = [self.leaf() if self.r.random() < 0.6 else self.operand(depth) for _ in range(n)]
        # a number before the dot would swallow it, and so would a dotted name
        text = (W + "." + W).join(tight(p, 4) for p in parts)
        return E(text, 5, F.concat(*[p.sa for p in parts]), F.concat(*[p.rt for p in parts]), type="str")

    OPS = {
        "=": lambda a, b: a == b,
        "==": lambda a, b: a == b,
        "!=": lambda a, b: a != b,
        "<": lambda a, b: a < b,
        "<=": lambda a, b: a <= b,
        ">": lambda a, b: a > b,
        ">=": lambda a, b: a >= b,
    }

    def comparison(self, depth):
        op = self.r.choice(list(self.OPS))
        a = self.value(depth, 5)
        b = self.value(depth, 5)
        f = self.OPS[op]
        if a.kind == "lit" and b.kind == "lit":
            a = self.field()
        sa = f(a.sa, b.sa)
        rt = f(a.rt, b.rt)
        return E(tight(a, 5) + O + op + O + tight(b, 5), 6, sa, rt, type="bool")

    def value(self, depth, limit=9):
        """A value that is not a condition"""
        r = self.r.random()
        if depth <= 0 or r < 0.4:
            return self.leaf()
        if r < 0.65:
            return self.arith(depth - 1)
        if r < 0.75:
            return self.concat(depth - 1)
        return self.call(depth - 1)

    BOOL_CALLS = ("like", "in", "match", "isnull", "isnotnull", "json_valid")

    def condition(self, depth):
        r = self.r.random()
        if depth <= 0 or r < 0.5:
            return self.comparison(depth - 1)
        if r < 0.62:
            e = self.condition(depth - 1)
            # an equality of anything binds tighter than NOT
            gap = W if e.prec <= 7 else O
            return E(kw("NOT") + (W + tight(e, 7) if gap == W else O + parens(e)), 7, ~e.sa, ~e.rt, type="bool")
        if r < 0.72:
            return self.named_call(self.r.choice(self.BOOL_CALLS), depth - 1)
        n = self.few((2, 2, 3))
        parts = [self.condition(depth - 1) for _ in range(n)]
        sa, rt = parts[0].sa, parts[0].rt
        if r < 0.86:
            for p in parts[1:]:
                sa, rt = sa | p.sa, rt | p.rt
            return E((W + kw("OR") + W).join(tight(p, 7) for p in parts), 8, sa, rt, type="bool")
        for p in parts[1:]:
            sa, rt = sa & p.sa, rt & p.rt
        # OR within AND in parentheses: eval and search disagree about which one binds tighter
        return E((W + kw("AND") + W).join(tight(p, 7) for p in parts), 9, sa, rt, type="bool")

    def expr(self, depth=3):
        if self.r.random() < 0.12:
            c = self.condition(depth - 1)
            return c
        return self.value(depth)

    # ------------------------------------------------------------------ functions

    def call(self, depth):
        return self.named_call(self.r.choice(CALL_NAMES), depth)

    def named_call(self, name, depth):
        g = FUNCS[name]
        args, sa, rt = g(self, depth)
        text = name + "(" + O + (O + "," + O).join(args) + O + ")"
        return E(text, 0, sa, rt)

    def assignments(self, n=None, depth=3, names=None):
        n = n or self.few((1, 1, 1, 2, 3))
        out = []
        for _ in range(n):
            out.append((self.r.choice(names) if names else self.target_name(), self.expr(depth)))
        return out


# -------------------------------------------------------------------- time formats

# Directives of SPL time formats with their equivalent in Spark's patterns
TIME_DIRECTIVES = {
    "%H": "HH", "%I": "hh", "%k": "H", "%M": "mm", "%S": "ss", "%p": "a", "%Y": "yyyy", "%y": "yy", "%m": "MM", "%d": "dd", "%e": "d",
    "%b": "MMM", "%B": "MMMM", "%A": "EEEE", "%a": "EEE", "%j": "DDD", "%T": "HH:mm:ss", "%F": "yyyy-MM-dd", "%3Q": "SSS", "%6Q": "SSSSSS",
    "%9Q": "SSSSSSSSS", "%Q": "SSS", "%N": "SSS", "%3N": "SSS", "%6N": "SSSSSS", "%9N": "SSSSSSSSS", "%f": "SSSSSS", "%Z": "z",
    "%z": "xx", "%:z": "xxx", "%::z": "xxxxx", "%:::z": "x",
}
TIME_UNSUPPORTED = ("%c", "%+", "%Ez", "%s", "%X", "%x", "%w", "%V", "%U", "%v", "%q")
TIME_TEXTS = ("-", "/", ":", " ", ".", ", ", "_", "T", "Z", " at ", "h", "'", "''", "o'clock", "[", "]", "{x}", "#", "%%", "%%H", "GMT", "é", "\u65e5", "(a)", "=", "20", "z%%")


def time_text(text):
    """A text inside a time pattern, quoted as a whole"""
    return "'" + text.replace("'", "''") + "'" if text else ""


def time_format(g, directives=None):
    """(SPL time format, Spark pattern)"""
    r = g.r
    n = g.few((1, 2, 3, 4, 6), 24)
    spl, out, text = "", "", ""
    last = None
    for k in range(n):
        d = r.choice(directives or list(TIME_DIRECTIVES))
        if last and not text and TIME_DIRECTIVES[last][-1] == TIME_DIRECTIVES[d][0]:
            text, spl = "-", spl + "-"  # two runs of one letter would become one
        spl += d
        out += time_text(text) + TIME_DIRECTIVES[d]
        text, last = "", d
        for _ in range(r.choice((0, 1, 1, 1, 2))):
            t = r.choice(TIME_TEXTS)
            spl += t
            text += t.replace("%%", "%")
    return spl, out + time_text(text)


UNITS = {
    "s": ("seconds", "second"), "sec": ("seconds", "second"), "secs": ("seconds", "second"), "second": ("seconds", "second"), "seconds": ("seconds", "second"),
    "m": ("minutes", "minute"), "min": ("minutes", "minute"), "mins": ("minutes", "minute"), "minute": ("minutes", "minute"), "minutes": ("minutes", "minute"),
    "h": ("hours", "hour"), "hr": ("hours", "hour"), "hrs": ("hours", "hour"), "hour": ("hours", "hour"), "hours": ("hours", "hour"),
    "d": ("days", "day"), "day": ("days", "day"), "days": ("days", "day"),
    "w": ("weeks", "week"), "week": ("weeks", "week"), "weeks": ("weeks", "week"), "w0": ("weeks", "week"), "w7": ("weeks", "week"),
    "mon": ("months", "month"), "month": ("months", "month"), "months": ("months", "month"),
}


def snap_time(g):
    """(text, function of a timestamp column)"""
    r = g.r
    unit = r.choice(list(UNITS))
    text, steps = "", []
    k = r.random()
    if k < 0.5:
        v, u = r.choice((-1, 1)) * r.randint(0, 400), r.choice(list(UNITS))
        text += (f"{v:+d}" if r.random() < 0.5 or v < 0 else str(v)) + u
        steps.append((v, UNITS[u][0]))
    elif k < 0.65:
        u = r.choice(list(UNITS))
        if r.random() < 0.5:
            text += "-" + u
            steps.append((-1, UNITS[u][0]))
        else:
            text += u
            steps.append((1, UNITS[u][0]))
    text += "@" + unit
    after = None
    if r.random() < 0.35:
        v, u = r.choice((-1, 1)) * r.randint(1, 40), r.choice(list(UNITS))
        # "@w" followed by 0 or 7 would be read as another unit
        text += f"{v:+d}" + u
        after = (v, UNITS[u][0])

    def f(col):
        c = F.to_timestamp(col)
        for v, s in steps:
            c = c + F.expr(f"INTERVAL {v} {s.upper()}")
        if UNITS[unit][1] == "week":
            # From Sunday on
            c = F.date_trunc("week", c + F.expr("INTERVAL 1 DAYS")) - F.expr("INTERVAL 1 DAYS")
        else:
            c = F.date_trunc(UNITS[unit][1], c)
        if after:
            c = c + F.expr(f"INTERVAL {after[0]} {after[1].upper()}")
        return c

    return text, f


# -------------------------------------------------------------------- eval functions

FUNCS = {}


def func(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = (lambda n: lambda g, d: f(g, d, n))(n)
        return f

    return deco


def ev(name):
    return getattr(FUNCTIONS.eval, name)


def _simple(name, arity, sa, rt=None):
    """A function of columns only"""

    def f(g, d):
        args = [g.value(d) for _ in range(arity)]
        r = ev(rt)(*[a.rt for a in args]) if rt else sa(*[a.rt for a in args])
        return [a.text for a in args], sa(*[a.sa for a in args]), r

    FUNCS[name] = f


for _n in "exp floor sqrt acos acosh asin asinh atan atanh cos cosh sin sinh tan tanh abs lower upper md5 sha1".split():
    _simple(_n, 1, getattr(F, _n), _n)
_simple("ceiling", 1, F.ceil, "ceiling")
_simple("exact", 1, lambda x: x.cast("double"), "exact")
_simple("ln", 1, F.log, "ln")
_simple("len", 1, F.length, "len_")
_simple("urldecode", 1, F.url_decode, "urldecode")
_simple("sha256", 1, lambda x: F.sha2(x, 256), "sha256")
_simple("sha512", 1, lambda x: F.sha2(x, 512), "sha512")
_simple("isnull", 1, F.isnull, "isnull")
_simple("isnotnull", 1, F.isnotnull, "isnotnull")
_simple("json_keys", 1, F.json_object_keys, "json_keys")
_simple("json_valid", 1, lambda x: F.get_json_object(x, "$").isNotNull(), "json_valid")
_simple("mvcount", 1, F.size, "mvcount")
_simple("bit_not", 1, F.bitwise_not, "bit_not")
_simple("bit_and", 2, lambda a, b: a.bitwiseAND(b), "bit_and")
_simple("bit_or", 2, lambda a, b: a.bitwiseOR(b), "bit_or")
_simple("bit_xor", 2, lambda a, b: a.bitwiseXOR(b), "bit_xor")
_simple("nullif", 2, F.nullif, "nullif")
_simple("pow", 2, F.pow, "pow")
_simple("atan2", 2, F.atan2, "atan2")
_simple("hypot", 2, F.hypot, "hypot")
_simple("match", 2, F.regexp_like, "match")
_simple("like", 2, F.like, "like")
_simple("tonumber", 1, lambda x: x.cast("double"), "tonumber")
_simple("tostring", 1, lambda x: x.cast("string"), "tostring")


_simple("now", 0, F.current_timestamp, "now")
_simple("time", 0, F.current_timestamp, "time")
_simple("pi", 0, lambda: F.lit(3.141592653589793), "pi")
_simple("null", 0, lambda: F.lit(None), "null")
_simple("true", 0, lambda: F.lit(True), "true")
_simple("false", 0, lambda: F.lit(False), "false")
_simple("random", 0, F.rand, "random")


_MEMK_RE = r"(?i)^(\d*\.?\d+)([kmg])$"


def memk(c):
    unit = F.upper(F.regexp_extract(c, _MEMK_RE, 2))
    return F.regexp_extract(c, _MEMK_RE, 1).cast("double") * (
        F.when(unit == F.lit("K"), F.lit(1.0)).when(unit == F.lit("M"), F.lit(1024.0)).when(unit == F.lit("G"), F.lit(1048576.0)).otherwise(F.lit(1.0))
    )


def rmunit(c):
    return F.regexp_extract(c, r"(?i)^(\d*\.?\d+)(\w*)$", 1).cast("double")


def rmcomma(c):
    return F.regexp_replace(c, ",", "").cast("double")


_simple("memk", 1, memk)
_simple("rmunit", 1, rmunit)
_simple("rmcomma", 1, rmcomma)


@func("log")
def _log(g, d, name):
    x, b = g.value(d), g.value(d)
    if g.r.random() < 0.6:
        b = g.lit_int(g.r.choice((2, 3, 10)))
    if b.kind == "lit" and b.type == "num" and not isinstance(b.val, float):
        return [x.text, b.text], F.log(x.sa) / F.log(b.sa), ev("log")(x.rt, b.val)
    return [x.text, b.text], F.log(x.sa) / F.log(b.sa), F.log(x.rt) / F.log(b.rt)


@func("round")
def _round(g, d, name):
    x, k = g.value(d), g.int_value(0, 9)
    return [x.text, str(k)], F.round(x.sa, k), ev("round")(x.rt, k)


@func("bit_shift_left", "bit_shift_right")
def _shift(g, d, name):
    x, k = g.value(d), g.int_value(0, 40)
    f = F.shiftleft if name.endswith("left") else F.shiftright
    return [x.text, str(k)], f(x.sa, k), ev(name)(x.rt, k)


@func("substr")
def _substr(g, d, name):
    x, a, b = g.value(d), g.int_value(-9, 9), g.int_value(0, 20)
    return [x.text, str(a), str(b)], F.substring(x.sa, a, b), ev("substr")(x.rt, a, b)


@func("ltrim", "rtrim", "trim")
def _trim(g, d, name):
    x, s = g.value(d), g.lit_str()
    if g.r.random() < 0.2:
        s = g.field()
        return [x.text, s.text], getattr(F, name)(x.sa, s.sa), getattr(F, name)(x.rt, s.rt)
    return [x.text, s.text], getattr(F, name)(x.sa, s.sa), ev(name)(x.rt, s.val)


@func("split")
def _split(g, d, name):
    x, s = g.value(d), g.lit_str()
    return [x.text, s.text], F.split(x.sa, re.escape(s.val)), ev("split")(x.rt, s.val)


@func("replace")
def _replace(g, d, name):
    x, a = g.value(d), g.lit_str()
    if g.r.random() < 0.4:
        b = g.lit_str()
        val, text = b.val, b.text
    else:
        val = "".join(g.r.choice(("\\0", "\\1", "\\2", "\\9", "$1", "$", "-", "a", " ", "1", "\\\\", "\\d", "é", "${n}")) for _ in range(g.r.randint(0, 6)))
        text = '"' + val.replace("\\", "\\\\") + '"'
    return [x.text, a.text, text], F.regexp_replace(x.sa, a.val, spark_replacement(val)), ev("replace")(x.rt, a.val, val)


def spark_replacement(text):
    """SPL's replacement text as Spark reads it"""
    out, i = "", 0
    while i < len(text):
        c, rest = text[i], text[i + 1:i + 2]
        if c == "\\" and rest and rest in "0123456789":
            out += "$" + rest
            i += 1
        elif c == "\\" and rest:
            out += c + rest
            i += 1
        else:
            out += "\\" + c if c in "$\\" else c
        i += 1
    return out


@func("mvindex")
def _mvindex(g, d, name):
    x, r = g.value(d), g.r
    if r.random() < 0.4:
        k = r.randint(0, 9)
        return [x.text, str(k)], F.get(x.sa, k), F.get(x.rt, k)
    neg = r.random() < 0.5
    a, b = sorted(r.randint(0, 9) for _ in range(2)) if not neg else sorted(-r.randint(1, 9) for _ in range(2))
    first = a if a < 0 else a + 1
    return [x.text, str(a), str(b)], F.slice(x.sa, first, b - a + 1), F.slice(x.rt, first, b - a + 1)


@func("mvzip")
def _mvzip(g, d, name):
    x, y, r = g.value(d), g.value(d), g.r

    def sa(a, b, delim):
        return F.zip_with(a, b, lambda left, right: F.concat_ws(delim, left, right))

    if r.random() < 0.4:
        return [x.text, y.text], sa(x.sa, y.sa, ","), ev("mvzip")(x.rt, y.rt)
    s = g.lit_str()
    return [x.text, y.text, s.text], sa(x.sa, y.sa, s.val), ev("mvzip")(x.rt, y.rt, s.val)


@func("mvappend")
def _mvappend(g, d, name):
    a = [g.value(d) for _ in range(g.few(range(1, 5)))]
    return [x.text for x in a], F.concat(*[x.sa for x in a]), ev("mvappend")(*[x.rt for x in a])


@func("coalesce")
def _coalesce(g, d, name):
    a = [g.value(d) for _ in range(g.few(range(1, 6)))]
    return [x.text for x in a], F.coalesce(*[x.sa for x in a]), ev("coalesce")(*[x.rt for x in a])


@func("in")
def _in(g, d, name):
    x = g.value(d)
    a = [g.value(d) for _ in range(g.few(range(1, 5)))]
    return [y.text for y in [x] + a], x.sa.isin(*[y.sa for y in a]), ev("in_")(x.rt, *[y.rt for y in a])


@func("max", "min")
def _greatest(g, d, name):
    a = [g.value(d) for _ in range(g.few(range(1, 6)))]
    f = F.greatest if name == "max" else F.least
    out = a[0].sa
    for x in a[1:]:
        out = f(out, x.sa)
    return [x.text for x in a], out, ev(name + "_")(*[x.rt for x in a])


@func("avg")
def _avg(g, d, name):
    a = [g.value(d) for _ in range(g.few(range(1, 6)))]
    out = a[0].sa
    for x in a[1:]:
        out = out + x.sa
    return [x.text for x in a], out / len(a), ev("avg")(*[x.rt for x in a])


@func("if")
def _if(g, d, name):
    c, a, b = g.condition(d), g.value(d), g.value(d)
    return [c.text, a.text, b.text], F.when(c.sa, a.sa).otherwise(b.sa), ev("if_")(c.rt, a.rt, b.rt)


@func("case", "validate")
def _case(g, d, name):
    n = g.few(range(1, 5))
    pairs = [(g.condition(d), g.value(d)) for _ in range(n)]
    out = None
    for c, v in pairs:
        k = c.sa if name == "case" else ~c.sa
        out = F.when(k, v.sa) if out is None else out.when(k, v.sa)
    rt = ev(name)(*[x.rt for p in pairs for x in p])
    return [x.text for p in pairs for x in p], out, rt


@func("cidrmatch")
def _cidrmatch(g, d, name):
    cidr = g.cidr()
    f = g.ident()
    return ['"' + cidr + '"', f], F.expr(f"cidr_match('{cidr}', {f})"), ev("cidrmatch")(cidr, F.col(f))


@func("strftime", "strptime")
def _strf(g, d, name):
    x = g.value(d)
    spl, out = time_format(g)
    f = F.date_format if name == "strftime" else F.to_timestamp
    return [x.text, '"' + spl + '"'], f(x.sa, out), ev(name)(x.rt, spl)


@func("relative_time")
def _relative(g, d, name):
    x = g.value(d)
    text, f = snap_time(g)
    return [x.text, '"' + text + '"'], f(x.sa), f(x.rt)


CALL_NAMES = list(FUNCS)
