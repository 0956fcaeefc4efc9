"""A recording stand-in for PySpark: executing rendered code yields a symbolic plan.

The trees are plain tuples. Differences of notation that PySpark gives the same meaning (positional
or keyword arguments, `where`/`filter`, a list or separate columns, a Python value or a literal
column next to an operator, the nesting of chains of `&` and `|`) do not show in them.
"""
import re
import ast as pyast
import keyword


class FakeError(Exception):
    pass


def lit_node(v):
    if isinstance(v, bool):
        return ("lit", "bool", v)
    if v is None:
        return ("lit", "null", None)
    if isinstance(v, int):
        return ("lit", "int", v)
    if isinstance(v, float):
        return ("lit", "float", repr(v))
    if isinstance(v, str):
        return ("lit", "str", v)
    raise FakeError(f"literal of unsupported type {type(v)}")


def unalias(n):
    while n[0] == "alias":
        n = n[1]
    return n


def node(v):
    """The operand of an operator."""
    if isinstance(v, Col):
        return unalias(v.n)
    return lit_node(v)


def arg_node(v):
    """An argument of a function or method."""
    if isinstance(v, Col):
        return unalias(v.n)
    if isinstance(v, DF):
        return v.plan
    if isinstance(v, (list, tuple)):
        return ("list",) + tuple(arg_node(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, arg_node(x)) for k, x in v.items())
    if isinstance(v, Runtime):
        return v.n
    if callable(v) and not isinstance(v, type):
        import inspect

        k = len(inspect.signature(v).parameters)
        body = v(*[Col(("var", i)) for i in range(k)])
        return ("lambda", k, arg_node(body))
    return ("py",) + lit_node(v)[1:]


def col_node(v):
    """An argument that names a column."""
    if isinstance(v, str):
        return ("col", v)
    return arg_node(v)


def named_node(v):
    """A column of a result, with its name."""
    if isinstance(v, Col):
        return v.n
    return col_node(v)


def flat(op, a, b):
    out = []
    for x in (a, b):
        if x[0] == "op" and x[1] == op:
            out.extend(x[2:])
        else:
            out.append(x)
    return ("op", op) + tuple(out)


class Col:
    __slots__ = ("n",)

    def __init__(self, n):
        object.__setattr__(self, "n", n)

    def _bin(op, swap=False):
        def f(self, other):
            a, b = node(self), node(other)
            if swap:
                a, b = b, a
            if op in ("&", "|", "+", "*"):
                return Col(flat(op, a, b))
            return Col(("op", op, a, b))

        return f

    __add__, __radd__ = _bin("+"), _bin("+", True)
    __sub__, __rsub__ = _bin("-"), _bin("-", True)
    __mul__, __rmul__ = _bin("*"), _bin("*", True)
    __truediv__, __rtruediv__ = _bin("/"), _bin("/", True)
    __mod__, __rmod__ = _bin("%"), _bin("%", True)
    __pow__, __rpow__ = _bin("**"), _bin("**", True)
    __and__, __rand__ = _bin("&"), _bin("&", True)
    __or__, __ror__ = _bin("|"), _bin("|", True)
    __lt__, __le__, __gt__, __ge__ = _bin("<"), _bin("<="), _bin(">"), _bin(">=")
    __eq__, __ne__ = _bin("=="), _bin("!=")
    __hash__ = None

    def __invert__(self):
        return Col(("op", "~", self.n))

    def __neg__(self):
        return Col(("op", "neg", self.n))

    def __bool__(self):
        raise FakeError("a column has no truth value")

    def __iter__(self):
        raise FakeError("a column cannot be iterated")

    def __len__(self):
        raise FakeError("a column has no length")

    def __getitem__(self, k):
        return Col(("item", self.n, arg_node(k)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Method(self, name)

    def alias(self, *names):
        (name,) = names
        n = self.n
        while n[0] == "alias":
            n = n[1]
        return Col(("alias", n, name))

    name = alias

    def cast(self, t):
        return Col(("cast", self.n, t))

    astype = cast

    def isNull(self):
        return Col(("fn", "isnull", (self.n,)))

    def isNotNull(self):
        return Col(("fn", "isnotnull", (self.n,)))

    def isin(self, *vals):
        if len(vals) == 1 and isinstance(vals[0], (list, tuple, set)):
            vals = tuple(vals[0])
        return Col(("isin", self.n) + tuple(node(v) for v in vals))

    def like(self, pattern):
        return Col(("fn", "like", (self.n, node(pattern))))

    def ilike(self, pattern):
        return Col(("fn", "ilike", (self.n, node(pattern))))

    def rlike(self, pattern):
        return Col(("fn", "regexp_like", (self.n, node(pattern))))

    def when(self, c, v):
        if self.n[0] != "when" or self.n[2] is not None:
            raise FakeError("when() on a column that is not an open when()")
        return Col(("when", self.n[1] + ((arg_node(c), node(v)),), None))

    def otherwise(self, v):
        if self.n[0] != "when" or self.n[2] is not None:
            raise FakeError("otherwise() on a column that is not an open when()")
        return Col(("when", self.n[1], node(v)))

    def substr(self, a, b):
        return Col(("fn", "substring", (self.n, arg_node(a), arg_node(b))))

    def __repr__(self):
        return f"Col{self.n!r}"


class _Method(Col):
    """An attribute of a column: a method when it is called, else a field."""

    __slots__ = ("owner", "attr")

    def __init__(self, owner, attr):
        super().__init__(("attr", owner.n, attr))
        object.__setattr__(self, "owner", owner)
        object.__setattr__(self, "attr", attr)

    def __call__(self, *args, **kw):
        return Col(
            ("method", self.attr, self.owner.n, tuple(arg_node(a) for a in args), tuple(sorted((k, arg_node(v)) for k, v in kw.items())))
        )


# Functions whose plain string arguments at these positions name columns; "*" is for all of them
FUNCTIONS_OF_COLUMNS = {
    name: "*"
    for name in (
        "sum avg min max count mean first last collect_list collect_set approx_count_distinct "
        "count_distinct length lower upper abs sqrt coalesce concat greatest least isnull isnotnull"
    ).split()
}
ALIASES = {"ceiling": "ceil", "countDistinct": "count_distinct", "mean": "avg", "power": "pow", "ln": "log", "rlike": "regexp_like", "regexp": "regexp_like"}


GROUPS = re.compile(r"\\.|\[\^?\]?(?:\\.|[^\]\\])*\]|(\(\?<[A-Za-z][A-Za-z0-9]*>)", re.S)


def literal_pattern(pattern):
    """A regular expression that stands for a plain text, as that text: escaping more or less than needed is the same"""
    out, i = "", 0
    while i < len(pattern):
        c = pattern[i]
        if c == "\\":
            i += 1
            if i == len(pattern) or pattern[i].isalnum():
                return ("regex", pattern)
            out += pattern[i]
        elif c in ".[]{}()*+?^$|":
            return ("regex", pattern)
        else:
            out += c
        i += 1
    return ("text", out)


def replacement_parts(text):
    """Spark's replacement texts: texts and numbers of groups"""
    out, i = [], 0
    while i < len(text):
        m = re.compile(r"\$(?:(\d)|\{(\d+)\})").match(text, i)
        if m:
            out.append(int(m[1] or m[2]))
            i = m.end()
            continue
        if text[i] == "$":
            return ("refused", text)
        if text[i] == "\\":
            i += 1
            if i == len(text):
                return ("refused", text)
        if out and isinstance(out[-1], str):
            out[-1] += text[i]
        else:
            out.append(text[i])
        i += 1
    return tuple(out)


def time_pattern(text):
    """Spark's time patterns: (letters of a field) and texts, however they are quoted"""
    out, i = [], 0

    def add(c):
        if out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)

    while i < len(text):
        c = text[i]
        if c == "'":
            j = i + 1
            body = ""
            while True:
                if j >= len(text):
                    return ("refused", text)
                if text[j] == "'":
                    if text[j + 1:j + 2] != "'":
                        break
                    j += 1
                body += text[j]
                j += 1
            add(body or "'")
            i = j + 1
        elif c.isascii() and c.isalpha():
            j = i
            while j < len(text) and text[j] == c:
                j += 1
            out.append((text[i:j],))
            i = j
        elif c in "[]{}#":
            out.append(("special", c))
            i += 1
        else:
            add(c)
            i += 1
    return tuple(out)


TEXTS = {"split": (1, literal_pattern), "regexp_replace": (2, replacement_parts), "date_format": (1, time_pattern), "to_timestamp": (1, time_pattern)}


def without_group_names(regex):
    """A pattern without the names of its groups, which nothing refers to, as far as Java accepts them."""
    return GROUPS.sub(lambda m: "(" if m[1] else m[0], regex)


class Functions:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        name = ALIASES.get(name, name)

        def f(*args, **kw):
            if name in FUNCTIONS_OF_COLUMNS:
                a = tuple(col_node(x) for x in args)
            else:
                a = tuple(arg_node(x) for x in args)
            if name in ("like", "ilike", "regexp_like") and len(a) == 2:
                a = (a[0], ("lit",) + a[1][1:] if a[1][0] == "py" else a[1])
            if name == "regexp_extract" and len(a) == 3 and isinstance(a[1][-1], str):
                a = (a[0], a[1][:-1] + (without_group_names(a[1][-1]),), a[2])
            text = TEXTS.get(name)
            if text and len(a) > text[0] and isinstance(a[text[0]][-1], str):
                i = text[0]
                a = a[:i] + (a[i][:-1] + (text[1](a[i][-1]),),) + a[i + 1:]
            if name == "concat":
                a = tuple(y for x in a for y in (x[2] if x[:2] == ("fn", "concat") else (x,)))
            n = ("fn", name, a)
            if kw:
                n += (tuple(sorted((k, arg_node(v)) for k, v in kw.items())),)
            return Col(n)

        return f

    def col(self, name):
        if not isinstance(name, str):
            raise FakeError("F.col takes a name")
        return Col(("col", name))

    column = col

    def lit(self, v):
        if isinstance(v, Col):
            return v
        if isinstance(v, (list, tuple)):
            return Col(("fn", "array", tuple(node(x) for x in v)))
        return Col(lit_node(v))

    def when(self, c, v):
        return Col(("when", ((arg_node(c), node(v)),), None))

    def expr(self, s):
        if not isinstance(s, str):
            raise FakeError("F.expr takes a string")
        return Col(("sql", s))

    def asc(self, c):
        return Col(("method", "asc", col_node(c), (), ()))

    def desc(self, c):
        return Col(("method", "desc", col_node(c), (), ()))


def _cols(args, f=col_node):
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    return tuple(f(a) for a in args)


class DF:
    __slots__ = ("plan",)

    def __init__(self, plan):
        self.plan = plan

    def where(self, condition):
        return DF(("where", self.plan, ("sql", condition) if isinstance(condition, str) else arg_node(condition)))

    filter = where

    def select(self, *cols):
        return DF(("select", self.plan) + _cols(cols, named_node))

    def withColumn(self, colName, col):
        if not isinstance(colName, str) or not isinstance(col, Col):
            raise FakeError("withColumn takes a name and a column")
        return DF(("withColumn", self.plan, colName, unalias(col.n)))

    def withColumnRenamed(self, existing, new):
        if not isinstance(existing, str) or not isinstance(new, str):
            raise FakeError("withColumnRenamed takes two names")
        return DF(("rename", self.plan, existing, new))

    def groupBy(self, *cols):
        return Group(self.plan, _cols(cols))

    groupby = groupBy

    def agg(self, *aggs):
        return Group(self.plan, ()).agg(*aggs)

    def orderBy(self, *cols, ascending=True):
        if ascending is not True:
            raise FakeError("orderBy with ascending")
        out = []
        for c in _cols(cols):
            if c[0] == "method" and c[1] in ("asc", "desc", "asc_nulls_first", "desc_nulls_last"):
                out.append((c[1].split("_")[0], c[2]))
            elif c[0] == "method":
                out.append((c[1], c[2]))
            else:
                out.append(("asc", c))
        return DF(("orderBy", self.plan) + tuple(out))

    sort = orderBy

    def limit(self, num):
        if type(num) is not int or num < 0:
            raise FakeError(f"limit takes a non-negative number, not {num!r}")
        return DF(("limit", self.plan, num))

    def drop(self, *cols):
        return DF(("drop", self.plan) + tuple(col_node(c) for c in cols))

    def alias(self, name):
        return DF(("dfalias", self.plan, name))

    def join(self, other, on=None, how=None):
        return DF(("join", self.plan, other.plan, arg_node(on) if on is not None else None, {"left_outer": "left", "leftouter": "left"}.get(how, how or "inner")))

    def unionByName(self, other, allowMissingColumns=False):
        return DF(("unionByName", self.plan, other.plan, allowMissingColumns))

    def fillna(self, value, subset=None):
        return DF(("fillna", self.plan, arg_node(value), None if subset is None else tuple([subset] if isinstance(subset, str) else subset)))

    def tail(self, num):
        return DF(("tail", self.plan, num))

    def distinct(self):
        return DF(("distinct", self.plan))

    @property
    def na(self):
        df = self

        class Na:
            def fill(self, value, subset=None):
                return df.fillna(value, subset)

        return Na()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*args, **kw):
            return DF(("dfmethod", name, self.plan, tuple(arg_node(a) for a in args), tuple(sorted((k, arg_node(v)) for k, v in kw.items()))))

        return f

    def __repr__(self):
        return f"DF{self.plan!r}"


class Group:
    def __init__(self, plan, cols):
        self.plan, self.cols = plan, cols

    def agg(self, *aggs):
        if len(aggs) == 1 and isinstance(aggs[0], (list, tuple)):
            aggs = aggs[0]
        return DF(("agg", self.plan, self.cols, tuple(named_node(a) for a in aggs)))


class Spark:
    def table(self, name):
        if not isinstance(name, str):
            raise FakeError("spark.table takes a name")
        return DF(("table", name))

    def range(self, start, end=None, step=1, numPartitions=None):
        if end is None:
            start, end = 0, start
        return DF(("range", start, end, step))


class Runtime:
    def __init__(self, n):
        self.n = n


# What a runtime search looks up rather than compares
LOOKUPS = "index source source_type host host_tag event_type event_type_tag saved_splunk splunk_server".split()


class Commands:
    """Runtime commands: recorded as calls."""

    def search(self, df=None, *args, **kw):
        """The rows of `df` that satisfy all conditions: their order and notation mean nothing."""
        conditions = []
        for a in args:
            n = arg_node(a)
            conditions += n[2:] if n[:2] == ("op", "&") else [n]
        lookups = []
        for k, v in kw.items():
            if k in LOOKUPS:
                lookups.append((k, arg_node(v)))
            else:
                conditions.append(("op", "==", ("col", k), node(v)))
        p = df.plan if isinstance(df, DF) else None if df is None else arg_node(df)
        return DF(("cmd", "search", p, tuple(sorted(lookups)), tuple(sorted(conditions, key=repr))))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(df=None, *args, **kw):
            return DF(
                ("cmd", name, df.plan if isinstance(df, DF) else (None if df is None else arg_node(df)), tuple(arg_node(a) for a in args), tuple((k, arg_node(v)) for k, v in kw.items()))
            )

        return f


class RuntimeFunctions:
    class _NS:
        def __init__(self, ns):
            self.ns = ns

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*args, **kw):
                return Col(("rt", self.ns, name, tuple(arg_node(a) for a in args), tuple(sorted((k, arg_node(v)) for k, v in kw.items()))))

            return f

    def __init__(self):
        self.eval = self._NS("eval")
        self.stats = self._NS("stats")


def environment():
    return dict(spark=Spark(), F=Functions(), commands=Commands(), functions=RuntimeFunctions())


def run(code: str, env=None):
    """Executes rendered code against the stand-ins and returns the value of its last expression."""
    tree = pyast.parse(code)
    if not tree.body:
        raise FakeError("no code")
    last = tree.body[-1]
    if not isinstance(last, pyast.Expr):
        raise FakeError("the last statement is not an expression")
    g = dict(env or environment())
    if tree.body[:-1]:
        exec(compile(pyast.Module(tree.body[:-1], []), "<rendered>", "exec"), g)
    return eval(compile(pyast.Expression(last.value), "<rendered>", "eval"), g)


def plan(code: str):
    v = run(code)
    if not isinstance(v, DF):
        raise FakeError(f"the code yields {type(v).__name__}, not a dataframe")
    return v.plan


def show(n, indent=0):
    """A readable form of a plan."""
    if not isinstance(n, tuple):
        return repr(n)
    s = repr(n)
    if len(s) < 100:
        return s
    pad = "  " * (indent + 1)
    return "(" + (",\n" + pad).join(show(x, indent + 1) for x in n) + ")"


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, tuple):
        if len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}/{a[0] if a and isinstance(a[0], str) else ''}[{i}]")
            if d:
                return d
        return None
    if a != b or isinstance(a, float) != isinstance(b, float):
        return path, a, b
    return None
