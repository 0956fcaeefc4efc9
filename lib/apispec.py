"""Stand-ins that accept exactly the calls that the installed PySpark and the runtime library accept.

Executing rendered code against them observes each name it looks up and each call it makes, and
checks it against the real signatures: existence, number and names of the arguments, and their kinds.
"""
import ast as pyast
import inspect
import typing

import pyspark.sql.functions as real_functions
from pyspark.sql import DataFrame
from pyspark.sql.column import Column
from pyspark.sql.group import GroupedData
from pyspark.sql import SparkSession


class ApiError(Exception):
    pass


def hint_text(p):
    a = p.annotation
    if a is inspect.Parameter.empty:
        return None
    return a if isinstance(a, str) else str(a)


def kind_ok(value, hint):
    if hint is None or "Any" in hint or "TypeVar" in hint:
        return True
    if "base.Expr" in hint:  # the runtime's own conversions: a column, or a plain value
        if isinstance(value, (list, tuple)):
            return "list[" in hint.lower() and all(kind_ok(v, "base.Expr") for v in value)
        return isinstance(value, Ref) and value.kind == "column" or isinstance(value, (str, int, float)) or value is None
    if "StatsFunction" in hint:
        return isinstance(value, Ref) and value.kind == "stat"
    if "DataModelSpecifier" in hint:
        return isinstance(value, dict) and set(value) == {"datamodel", "nodename"} and isinstance(value["datamodel"], str)
    if "TimeSpan" in hint or "TimeScale" in hint:
        return not isinstance(value, Ref)
    if isinstance(value, Ref):
        if value.kind == "column":
            return "Column" in hint and not hint.startswith("typing.Literal")
        if value.kind == "df":
            return "DataFrame" in hint or "ParentDataFrame" in hint
        return True
    if isinstance(value, bool):
        return "bool" in hint or "LiteralType" in hint or "PrimitiveType" in hint
    if isinstance(value, int):
        return any(x in hint for x in ("int", "float", "LiteralType", "PrimitiveType"))
    if isinstance(value, float):
        return any(x in hint for x in ("float", "LiteralType", "PrimitiveType"))
    if isinstance(value, str):
        return any(x in hint for x in ("str", "ColumnOrName", "LiteralType", "PrimitiveType", "DataTypeOrString"))
    if value is None:
        if "DataFrame" in hint and "none" in TOLERATED:
            return True
        return "None" in hint or "Optional" in hint
    if isinstance(value, (list, tuple)):
        return any(x in hint for x in ("List", "list", "Iterable", "Sequence", "Tuple", "tuple"))
    if isinstance(value, dict):
        return "ict" in hint
    if callable(value):
        return "Callable" in hint
    return True


def check_call(where, sig, args, kw, skip_self=False):
    try:
        b = sig.bind(*(([None] if skip_self else []) + list(args)), **kw)
    except TypeError as e:
        raise ApiError(f"{where}: {e}") from None
    for n, (name, v) in enumerate(b.arguments.items()):
        if skip_self and n == 0:
            continue
        p = sig.parameters[name]
        hint = hint_text(p)
        vs = v if p.kind is p.VAR_POSITIONAL else v.values() if p.kind is p.VAR_KEYWORD else [v]
        for x in vs:
            if callable(x) and not isinstance(x, Ref):
                k = len(inspect.signature(x).parameters)
                x(*[Ref("column", where) for _ in range(k)])
            if not kind_ok(x, hint):
                raise ApiError(f"{where}: argument {name} (declared {hint}) is a {x.kind if isinstance(x, Ref) else type(x).__name__}: {x!r}")


class Ref:
    """A column, a data frame, grouped data, or the result of a runtime statistics function."""

    CLASSES = dict(column=Column, df=DataFrame, group=GroupedData)

    def __init__(self, kind, path=""):
        self.kind = kind
        self.path = path

    def __repr__(self):
        return f"<{self.kind}>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        cls = self.CLASSES.get(self.kind)
        if cls is None or not hasattr(cls, name):
            raise ApiError(f"a {self.kind} has no attribute {name}")
        member = inspect.getattr_static(cls, name)
        OBSERVED[f"{self.kind}.{name}"] += 1
        if isinstance(member, property):
            return Ref("na" if name == "na" else "other")
        f = getattr(cls, name)
        sig = inspect.signature(f)

        def call(*args, **kw):
            check_call(f"{self.kind}.{name}", sig, args, kw, skip_self=True)
            if self.kind == "column":
                return Ref("column")
            if self.kind == "df" and name == "tail" and "tail" in TOLERATED:
                return Ref("df")
            if self.kind == "df":
                return Ref("group" if name in ("groupBy", "groupby") else "other" if name in ("collect", "count", "tail", "dtypes") else "df")
            return Ref("df")

        return call

    def _op(self, *others):
        if self.kind != "column":
            raise ApiError(f"operator on a {self.kind}")
        for o in others:
            if isinstance(o, Ref) and o.kind != "column" or isinstance(o, (list, tuple, dict)):
                raise ApiError(f"operand {o!r}")
        return Ref("column")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __mod__ = __rmod__ = _op
    __and__ = __rand__ = __or__ = __ror__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __pow__ = __rpow__ = _op
    __invert__ = __neg__ = _op
    __hash__ = object.__hash__

    def __getitem__(self, k):
        return Ref("column")

    def __bool__(self):
        raise ApiError("a column as a condition of Python")

    def __iter__(self):
        raise ApiError("iteration over a column")


import collections

# Known findings of the query at hand: `F.count()` without a column, commands after a list of rows
TOLERATED = set()
OBSERVED = collections.Counter()


class Module:
    """A module of functions that return columns."""

    def __init__(self, label, module, result, names=None):
        self._label, self._module, self._result = label, module, result

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(self._module, name, None)
        if f is None or not callable(f):
            raise ApiError(f"{self._label} has no function {name}")
        OBSERVED[f"{self._label}.{name}"] += 1
        if name == "count" and self._label == "F" and "count" in TOLERATED:
            return lambda *args, **kw: Ref(self._result)
        if isinstance(f, type):  # the statistics functions of the runtime are models
            return self._model(name, f)
        sig = inspect.signature(f)

        def call(*args, **kw):
            check_call(f"{self._label}.{name}", sig, args, kw)
            return Ref(self._result)

        return call

    def _model(self, name, cls):
        sig = inspect.signature(cls.__init__)

        def call(*args, **kw):
            check_call(f"{self._label}.{name}", inspect.signature(cls), args, kw)
            return Ref(self._result)

        return call


class Spark:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(SparkSession, name):
            raise ApiError(f"a session has no {name}")
        sig = inspect.signature(getattr(SparkSession, name))

        def call(*args, **kw):
            check_call(f"spark.{name}", sig, args, kw, skip_self=True)
            OBSERVED[f"spark.{name}"] += 1
            return Ref("df")

        return call


class Namespace:
    pass


def environment():
    from spl_transpiler.runtime import commands, functions

    fns = Namespace()
    fns.eval = Module("functions.eval", functions.eval, "column")
    fns.stats = Module("functions.stats", functions.stats, "stat")
    return dict(F=Module("F", real_functions, "column"), spark=Spark(), commands=Module("commands", commands, "df"), functions=fns)


def check(code, tolerated=()):
    TOLERATED.clear()
    TOLERATED.update(tolerated)
    _check(code)


def _check(code):
    """Runs code against the stand-ins. ApiError or a syntax error: it can run on no Spark."""
    tree = pyast.parse(code)
    if not tree.body or not isinstance(tree.body[-1], pyast.Expr):
        raise ApiError("the code does not end in an expression")
    for s in tree.body[:-1]:
        if not isinstance(s, pyast.Assign):
            raise ApiError(f"a statement that is neither an assignment nor the result: {pyast.unparse(s)[:200]}")
    g = environment()
    for s in tree.body[:-1]:
        exec(compile(pyast.Module([s], []), "<rendered>", "exec"), g)
    r = eval(compile(pyast.Expression(tree.body[-1].value), "<rendered>", "eval"), g)
    if not (isinstance(r, Ref) and r.kind in ("df", "other")):
        raise ApiError(f"the result is {r!r}, no dataframe")
