"""Other ways of writing the same call of the runtime library.

Code for the runtime library gives columns, numbers and truth values as PySpark expressions; people
who call the library by hand also give names, plain values, dictionaries, keyword arguments and leave
out arguments that have a default. Each form has to mean the same.
"""
import ast
import collections
import copy

# The arguments that take an expression (`*`), and those with defaults; `...` takes any number.
FUNCTIONS = {
    "eval": """
bit_and *a *b; bit_or *a *b; bit_not *x; bit_xor *a *b; bit_shift_left *x offset; bit_shift_right *x offset
case ...*; cidrmatch cidr *ip; coalesce ...*; if_ *condition *true_value *false_value; in_ *field ...*
like *string *pattern; match *string *regex; nullif *field1 *field2; validate ...*
printf *format_str ...*; tonumber *value base=10; tostring *value format=None
md5 *value; sha1 *value; sha256 *value; sha512 *value
strftime *date format is_spl_format=True; strptime *date format is_spl_format=True
isbool *value; isint *value; isnotnull *value; isnull *value; isnum *value; isstr *value; typeof *value
abs *num; ceiling *num; exact *expression; exp *num; floor *num; ln *num; log *num base=10; pow *num *exp
round *num precision=0; sqrt *num; sum_ ...*; mvappend ...*; mvcount *column; mvdedup *column
mvfind *column *regex; mvindex *column start end=None; mvjoin *column delimiter; mvrange start end step
mvsort *column; mvzip *left *right delimiter=','; split *column delimiter; avg ...*; max_ ...*; min_ ...*
len_ *x; lower *x; ltrim *x chars; replace *input regex replacement; rtrim *x chars; substr *column start length
trim *x chars; upper *x; urldecode *x
acos *x; acosh *x; asin *x; asinh *x; atan *x; atan2 *x *y; atanh *x; cos *x; cosh *x; hypot *x *y
sin *x; sinh *x; tan *x; tanh *x
""",
    "stats": """
avg *value; count *value=None; distinct_count *x; dc *x; estdc *x; exactperc *value percentile; max *value
mean *value; median *value; min *value; mode *value; percentile *value percentile; range *value; stdev *value
stddev *value; sum_ *value; sumsq *value; upperperc *value percentile; var *value; varp *value; first *value
last *value; list_ *value; values *value; earliest *value; latest *value; rate *value
""",
}


class Parameter:
    def __init__(self, text):
        self.many = text.startswith("...")
        text = text.removeprefix("...")
        self.expression = text.startswith("*")
        self.name, self.has_default, default = text.removeprefix("*").partition("=")
        self.default = ast.literal_eval(default) if self.has_default else None


SIGNATURES = {
    (module, words[0]): [Parameter(w) for w in words[1:]]
    for module, text in FUNCTIONS.items()
    for words in (s.split() for line in text.strip().splitlines() for s in line.split(";"))
}


def call_of(node, *path):
    """The last name of a call of `path[0].path[1]…name`"""
    f = node.func
    if not isinstance(f, ast.Attribute):
        return None
    name, f = f.attr, f.value
    for p in reversed(path):
        if isinstance(f, ast.Attribute) and f.attr == p:
            f = f.value
        elif isinstance(f, ast.Name) and f.id == p and p == path[0]:
            return name
        else:
            return None
    return None


def dictionary(kind, value):
    return ast.Dict(keys=[ast.Constant("kind"), ast.Constant("value")], values=[ast.Constant(kind), value])


class Forms(ast.NodeTransformer):
    def __init__(self, rng, used=None):
        self.r = rng
        self.used = collections.Counter() if used is None else used

    def note(self, what):
        self.used[what] += 1

    def expression(self, node):
        """Another form of an argument that takes an expression"""
        if self.r.random() < 0.25:
            return node
        dicts = self.r.random() < 0.2
        name = isinstance(node, ast.Call) and call_of(node, "F")
        if name in ("col", "lit") and len(node.args) == 1 and not node.keywords and isinstance(node.args[0], ast.Constant):
            value = node.args[0]
            if dicts:
                self.note(f"{name} as a dictionary")
                return dictionary("column" if name == "col" else "literal", value)
            if name == "col":
                self.note("columns by name")
                return value
            if value.value is None or isinstance(value.value, (bool, int, float)):
                self.note("plain values")
                return value
        elif name == "lit" and len(node.args) == 1 and isinstance(node.args[0], ast.UnaryOp) and isinstance(node.args[0].operand, ast.Constant):
            self.note("plain negative numbers")
            return node.args[0]
        if dicts and not isinstance(node, ast.Constant):
            self.note("raw expressions as dictionaries")
            return dictionary("raw", node)
        return node

    def argument(self, p, node):
        if not p.expression:
            return node
        new = self.expression(node)
        # Nothing at all is not the value null where the argument may be left out
        return node if p.has_default and isinstance(new, ast.Constant) and new.value is None else new

    def function(self, node, signature):
        args, keywords = [], list(node.keywords)
        if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in keywords):
            return node
        positions = [p for p in signature if not p.many]
        rest = next((p for p in signature if p.many), None)
        for k, a in enumerate(node.args):
            p = positions[k] if k < len(positions) else rest
            if p is None:
                return node
            args.append((p, self.argument(p, a)))
        for k in keywords:
            p = next((p for p in positions if p.name == k.arg), None)
            if p is not None and p.expression:
                k.value = self.argument(p, k.value)
        while args and not keywords and args[-1][0].has_default and not args[-1][0].many:
            p, a = args[-1]
            if isinstance(a, ast.Constant) and a.value == p.default and type(a.value) is type(p.default) and self.r.random() < 0.5:
                self.note("defaults left out")
                args.pop()
            else:
                break
        if rest is None and args and self.r.random() < 0.4:
            first = self.r.randint(0, len(args) - 1)
            moved = [ast.keyword(arg=p.name, value=a) for p, a in args[first:]]
            self.r.shuffle(moved)
            self.note("keyword arguments")
            keywords = moved + keywords
            args = args[:first]
        node.args, node.keywords = [a for _, a in args], keywords
        return node

    def command(self, node, name):
        first = node.args[0] if node.args else None
        if name in ("eval", "search"):
            fixed = {"index", "source", "source_type", "host", "host_tag", "event_type", "event_type_tag", "saved_splunk", "splunk_server"} if name == "search" else set()
            for k in node.keywords:
                if k.arg is not None and k.arg not in fixed and k.arg != "df":
                    k.value = self.expression(k.value)
            node.args[1:] = [self.expression(a) for a in node.args[1:]]
            reused = {k.arg for k in node.keywords}
            if name == "search" and not reused & fixed and self.r.random() < 0.4:
                # Any order of conditions, and one call each
                self.r.shuffle(node.keywords)
                if len(node.args) > 1:
                    tail = node.args[1:]
                    self.r.shuffle(tail)
                    node.args[1:] = tail
                self.note("conditions in another order")
            if isinstance(first, ast.Name) and len(node.keywords) > 1 and self.r.random() < 0.3:
                cut = self.r.randint(1, len(node.keywords) - 1)
                inner = ast.Call(func=node.func, args=node.args, keywords=node.keywords[:cut])
                self.note("one call as two")
                return ast.Call(func=copy.deepcopy(node.func), args=[inner], keywords=node.keywords[cut:])
        if name in ("stats", "tstats"):
            for k in node.keywords:
                if k.arg == "by" and isinstance(k.value, ast.List):
                    k.value.elts = [self.expression(e) for e in k.value.elts]
            if name == "stats" and self.r.random() < 0.25:
                node.func.attr = "tstats"
                self.note("stats as tstats of rows")
        if name in ("eval", "stats", "fill_null") and len(node.args) == 1 and self.r.random() < 0.3:
            self.note("the rows by keyword")
            node.keywords.append(ast.keyword(arg="df", value=node.args.pop()))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        name = call_of(node, "commands")
        if name in ("eval", "search", "stats", "tstats", "fill_null"):
            return self.command(node, name)
        for module in ("eval", "stats"):
            name = call_of(node, "functions", module)
            if name is not None and (module, name) in SIGNATURES:
                return self.function(node, SIGNATURES[module, name])
        return node


def other_form(code, rng, used=None):
    tree = Forms(rng, used).visit(ast.parse(code))
    return ast.unparse(ast.fix_missing_locations(tree))
