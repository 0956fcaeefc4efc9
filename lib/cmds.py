"""Random commands and pipelines of the supported language, with what they have to translate to."""
import re

import fake
from spl import (
    CALL_NAMES, COMMANDS, E, C, F, FUNCS, FUNCTIONS, Gen, K, O, SPARK, TIME_DIRECTIVES, UNITS, W, kw, main_if_none, memk, parens, rmcomma, rmunit, tight, time_format,
)


def is_name(s):
    """Whether a runtime command takes this as the name of an argument."""
    import keyword

    return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", s) is not None and not keyword.iskeyword(s)


def stat(name):
    return getattr(FUNCTIONS.stats, name)


def _ordered(df):
    return df.orderBy(F.col("_time").asc())


def _same(df):
    return df


def _rate(x):
    t = F.col("_time")
    return (F.last(x, True) - F.first(x, True)) / (F.max(t).cast("double") - F.min(t).cast("double"))


# name: (arguments, column, dataframe before, runtime name, name of the result)
STATS = {
    "avg": (1, F.avg, _same, "avg", None),
    "mean": (1, F.avg, _same, "mean", None),
    "distinct_count": (1, F.count_distinct, _same, "distinct_count", None),
    "dc": (1, F.count_distinct, _same, "distinct_count", None),
    "estdc": (1, F.approx_count_distinct, _same, "estdc", None),
    "max": (1, F.max, _same, "max", None),
    "min": (1, F.min, _same, "min", None),
    "median": (1, lambda x: F.percentile_approx(x, F.lit(0.5)), _same, "median", None),
    "mode": (1, F.mode, _same, "mode", None),
    "range": (1, lambda x: F.max(x) - F.min(x), _same, "range", None),
    "stdev": (1, F.stddev_samp, _same, "stdev", None),
    "stdevp": (1, F.stddev_pop, _same, None, None),
    "var": (1, F.var_samp, _same, "var", None),
    "varp": (1, F.var_pop, _same, "varp", None),
    "sum": (1, F.sum, _same, "sum_", None),
    "sumsq": (1, lambda x: F.sum(x * x), _same, "sumsq", None),
    "first": (1, lambda x: F.first(x, True), _same, "first", None),
    "last": (1, lambda x: F.last(x, True), _same, "last", None),
    "list": (1, F.collect_list, _same, "list_", None),
    "values": (1, F.collect_set, _same, "values", None),
    "earliest": (1, lambda x: F.first(x, True), _ordered, "earliest", None),
    "latest": (1, lambda x: F.last(x, True), _ordered, "latest", None),
    "earliest_time": (0, lambda: F.min(F.col("_time")), _same, "earliest_time", None),
    "latest_time": (0, lambda: F.max(F.col("_time")), _same, "latest_time", None),
    "rate": (1, _rate, _ordered, "rate", None),
}


class Agg:
    __slots__ = ("text", "name", "col", "before", "rt", "rt_name")


class CmdGen(Gen):
    depth = 2
    where_exprs = True

    # ------------------------------------------------------------------ conditions of searches

    def word(self):
        s = self.fresh_name() if self.r.random() < 0.3 else self.ident()
        if self.r.random() < 0.1:
            s += self.r.choice("-:/%") + str(self.r.randint(0, 99))
        return s

    def wild_word(self):
        w = self.ident()
        k = self.r.randint(0, len(w))
        w = w[:k] + "*" + w[k:]
        return w if self.r.random() < 0.8 else "*" + w.strip("*") + "*"

    def like_pattern(self):
        """(text, pattern) of text with wildcards"""
        if self.r.random() < 0.5:
            w = self.wild_word()
            return w, w.replace("*", "%")
        while True:
            s = self.string_value(wild=True)
            if not set(s) & set("\"\\'") and not s.startswith("%") and s.strip():
                return '"' + s + '"', s.replace("*", "%")

    def ip(self):
        return ".".join(str(self.r.randint(0, 255)) for _ in range(4))

    def plain_value(self, words=True):
        """(text, value)"""
        r = self.r
        k = r.random()
        if k < 0.25 and words:
            w = self.word()
            return w, w
        if k < 0.55:
            e = self.lit_str()
            return e.text, e.val
        if k < 0.75:
            v = self.int_value()
            if r.random() < 0.2:
                v = -v
            return str(v), v
        if k < 0.88:
            t = self.double_text()
            return t, float(t)
        s = self.ip()
        return s, s

    def searched_name(self, search=True):
        """Double quotes stand for a name in a search only"""
        if search and self.r.random() < 0.08:
            n = self.quoted_field()
            return '"' + n + '"', n
        return self.name_text()

    def compare(self, words=True, calls=False, names=None):
        """A comparison of a field with a value: (text, sa, rt)"""
        r = self.r
        t, n = self.searched_name(words) if names is None else (names, names)
        col = F.col(n)
        k = r.random()
        ops = {"=": col.__eq__, "==": col.__eq__, "!=": col.__ne__}
        if k < 0.15:
            p, pattern = self.like_pattern()
            op = r.choice(list(ops))
            c = col.like(pattern)
            c = ~c if op == "!=" else c
            return E(t + O + op + O + p, 6, c)
        if k < 0.25:
            cidr = self.cidr()
            op = r.choice(list(ops))
            c = self.cidr_cond(n, cidr)
            return E(t + O + op + O + cidr, 6, ~c if op == "!=" else c)
        op = r.choice(list(self.OPS))
        if calls and k < 0.5:
            v = self.named_call(r.choice([c for c in CALL_NAMES if c not in self.BOOL_CALLS]), self.depth)
            return E(t + O + op + O + v.text, 6, self.OPS[op](col, v.sa), self.OPS[op](col, v.rt))
        vt, v = self.plain_value(words)
        return E(t + O + op + O + vt, 6, self.OPS[op](col, F.lit(v)))

    @staticmethod
    def cidr_cond(name, cidr):
        plain = re.fullmatch(r"[A-Za-z0-9_.]*", name)
        return F.expr(f"cidr_match('{cidr}', {name if plain else '`' + name.replace('`', '``') + '`'})")

    def member(self):
        r = self.r
        t, n = self.name_text()
        col = F.col(n)
        texts, out = [], None
        for _ in range(self.few((1, 2, 2, 3, 5))):
            k = r.random()
            if k < 0.2:
                vt, pattern = self.like_pattern()
                c = col.like(pattern)
            elif k < 0.3:
                vt = self.cidr()
                c = self.cidr_cond(n, vt)
            else:
                vt, v = self.plain_value()
                c = col == v
            texts.append(vt)
            out = c if out is None else out | c
        sep = O + "," + O if r.random() < 0.8 else W
        return E(t + W + kw("IN") + O + "(" + O + sep.join(texts) + O + ")", 6, out)

    def bare(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            t = s = self.word()
        elif k < 0.8:
            e = self.lit_str()
            t, s = e.text, e.val
        elif k < 0.9:
            t = s = str(r.choice((404, 0, r.randint(0, 10**6))))
        else:
            t = s = r.choice(("0.5", "2.25", "100.125"))
        return E(t, 0, F.col("_raw").ilike(f"%{s}%"))

    def search_term(self, depth):
        r = self.r
        k = r.random()
        if depth > 0 and k < 0.12:
            e = self.search_term(depth - 1)
            if e.prec <= 7 and r.random() < 0.6:
                return E(kw("NOT") + W + e.text, 7, ~e.sa, ~e.rt)
            return E(kw("NOT") + O + parens(e), 7, ~e.sa, ~e.rt)
        if depth > 0 and k < 0.24:
            n = r.choice((2, 2, 3))
            parts = [self.search_term(depth - 1) for _ in range(n)]
            sa, rt = parts[0].sa, parts[0].rt
            for p in parts[1:]:
                sa, rt = sa | p.sa, rt | p.rt
            return E((W + kw("OR") + W).join(tight(p, 7) for p in parts), 8, sa, rt)
        if depth > 0 and k < 0.32:
            e = self.search_all(depth - 1, r.choice((2, 2, 3)))
            return E(parens(e), 0, e.sa, e.rt)
        if k < 0.75:
            return self.compare()
        if k < 0.85:
            return self.member()
        return self.bare()

    def search_all(self, depth, n):
        r = self.r
        parts = [self.search_term(depth) for _ in range(n)]
        text = tight(parts[0], 8)
        sa, rt = parts[0].sa, parts[0].rt
        for p in parts[1:]:
            text += (W if r.random() < 0.6 else W + kw("AND") + W) + tight(p, 8)
            sa, rt = sa & p.sa, rt & p.rt
        return E(text, 9, sa, rt)

    def search_tree(self, depth=2):
        return self.search_all(depth, self.r.choice((1, 1, 2, 3)))

    LOOKUPS = {
        "source": "source", "sourcetype": "source_type", "host": "host", "hosttag": "host_tag", "eventtype": "event_type",
        "eventtypetag": "event_type_tag", "savedsplunk": "saved_splunk", "splunk_server": "splunk_server",
    }

    def lookup_value(self):
        r = self.r
        if r.random() < 0.6:
            w = self.word()
            return w, w
        while True:
            s = self.string_value()
            if s and not re.fullmatch(r"[-+0-9./ ]*", s):
                return self.quote(s), s

    def first_search(self, keyword=True, depth=2):
        """The search at the start of a pipeline, which chooses its tables"""
        r = self.r
        tables = []
        terms = []  # (text, sa, rt condition or None, lookup)
        for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
            name = self.ident() if r.random() < 0.8 else self.ident() + "-" + self.ident()
            tables.append(name)
            q = name if r.random() < 0.7 else '"' + name + '"'
            terms.append(("index" + O + "=" + O + q, None, None, ("index", name)))
        for _ in range(r.choice((0, 0, 0, 1, 2))):
            name = r.choice(list(self.LOOKUPS))
            q, v = self.lookup_value()
            c = F.col(name) == F.lit(v)
            terms.append((name + O + r.choice(("=", "==")) + O + q, c, c, (self.LOOKUPS[name], v)))
        for _ in range(self.few((0, 1, 1, 2, 3))):
            e = self.search_term(depth)
            terms.append((tight(e, 8), e.sa, e.rt, None))
        if not terms:
            e = self.search_term(depth)
            terms.append((tight(e, 8), e.sa, e.rt, None))
        r.shuffle(terms)
        text = terms[0][0]
        for t in terms[1:]:
            text += r.choice((W, W, W + kw("AND") + W, O + "," + O)) + t[0]
        if r.random() < 0.1 and len(terms) > 2 and "," not in text:
            pass

        def sa(df, mode="sa"):
            out = None
            for n in sorted(set(tables)):
                t = SPARK.table(n)
                out = t if out is None else out.unionByName(t, allowMissingColumns=True)
            if out is None:
                out = main_if_none(df)
            cond = None
            for t in terms:
                c = t[1] if mode == "sa" else t[2]
                if c is not None:
                    cond = c if cond is None else cond & c
            return out if cond is None else out.where(cond)

        def rt(df):
            looks = [t[3] for t in terms if t[3]]
            if len({k for k, _ in looks}) < len(looks):
                return sa(df, "rt")
            return COMMANDS.search(df, *[t[2] for t in terms if not t[3]], **dict(looks))

        prefix = kw("search") + W if keyword else ""
        return C("search", prefix + text, sa, rt, source=True)

    def later_search(self, depth=2):
        e = self.search_tree(depth)
        if self.r.random() < 0.15:
            n = self.r.choice(("index", "source", "host"))
            q, v = self.lookup_value()
            c = F.col(n) == F.lit(v)
            e = E(tight(e, 8) + W + n + O + "=" + O + q, 9, e.sa & c, e.rt & c)
        return C("search", kw("search") + W + e.text, lambda df: df.where(e.sa), lambda df: COMMANDS.search(df, e.rt))

    # ------------------------------------------------------------------ conditions of where

    def where_term(self, depth):
        r = self.r
        k = r.random()
        if depth > 0 and k < 0.14:
            e = self.where_term(depth - 1)
            return E(kw("NOT") + (W + e.text if r.random() < 0.6 else O + parens(e)), 7, ~e.sa, ~e.rt, kind=e.kind)
        if depth > 0 and k < 0.3:
            e = self.where_tree(depth - 1)
            return E(parens(e), 0, e.sa, e.rt)
        if k < 0.42:
            return self.named_call(r.choice([n for n in self.BOOL_CALLS if n in CALL_NAMES]), self.depth - 1)
        if k < 0.52:
            return self.member()
        if k < 0.72 and self.where_exprs:
            e = self.comparison(min(depth, 2))
            return E(e.text, 6, e.sa, e.rt, kind="expr")
        return self.compare(words=False, calls=self.depth > 0)

    def where_tree(self, depth=2):
        r = self.r
        groups = []
        for _ in range(self.few((1, 1, 2, 3))):
            parts = [self.where_term(depth) for _ in range(self.few((1, 1, 2, 3)))]
            sa, rt = parts[0].sa, parts[0].rt
            for p in parts[1:]:
                sa, rt = sa & p.sa, rt & p.rt
            text = parts[0].text
            for p, q in zip(parts, parts[1:]):
                # An expression could go on
                text += (W + kw("AND") + W if r.random() < 0.7 or "expr" in (p.kind, q.kind) else W) + q.text
            groups.append(E(text, 8, sa, rt))
        sa, rt = groups[0].sa, groups[0].rt
        for g in groups[1:]:
            sa, rt = sa | g.sa, rt | g.rt
        return E((W + kw("OR") + W).join(g.text for g in groups), 9, sa, rt)

    def where(self):
        e = self.where_tree()
        return C("where", kw("where") + W + e.text, lambda df: main_if_none(df).where(e.sa), lambda df: main_if_none(df).where(e.rt))

    # ------------------------------------------------------------------ rows

    def count_number(self):
        r = self.r
        return r.choice((0, 1, 2, 5, 10, r.randint(0, 100), r.randint(0, 10**6), 2**31, 2**62))

    @staticmethod
    def same(name, text, f):
        g = lambda df: f(main_if_none(df))
        return C(name, text, g, g)

    def head(self):
        r = self.r
        n = self.count_number()
        k = r.randrange(4)
        limit = n
        if k == 0:
            t = str(n)
        elif k == 1:
            t = kw("limit=") + str(n)
        else:
            op = r.choice(("<", "<="))
            t = "count" + O + op + O + str(n)
            limit += op == "<="
        # in the language, keeplast keeps the row that ends a comparison
        if k > 1 and r.random() < 0.4:
            keep = r.random() < 0.6
            t += W + kw("keeplast=") + r.choice(("true", "t") if keep else ("false", "f"))
            limit += keep
        if r.random() < 0.15:
            t += W + kw("null=") + r.choice(("true", "false"))
        return self.same("head", kw("head") + W + t, lambda df: df.limit(limit))

    def sort(self):
        r = self.r
        k = r.random()
        n = 10000
        t = ""
        if k < 0.4:
            n = self.count_number()
            t = (kw("limit=") if r.random() < 0.4 else "") + str(n) + W
        desc = r.random() < 0.25
        cols, parts = [], []
        for _ in range(self.few((1, 1, 2, 3, 4))):
            sign = r.choice(("", "", "+", "-"))
            name = self.field_name()
            parts.append(sign + name)
            d = (sign == "-") != desc
            cols.append(F.col(name).desc() if d else F.col(name).asc())
        t += (O + "," + O).join(parts) + (W + kw("desc") if desc else "")

        def f(df):
            df = df.orderBy(*cols)
            return df.limit(n) if n else df

        return self.same("sort", kw("sort") + W + t, f)

    def tail(self):
        n = self.count_number()
        return self.same("tail", kw("tail") + W + str(n), lambda df: df.tail(n))

    # ------------------------------------------------------------------ columns

    def field_list(self, lo=1, hi=5, quotes=True):
        names, texts = [], []
        for _ in range(self.r.randint(lo, hi)):
            t, n = self.name_text(allow_quotes=quotes)
            if self.r.random() < 0.05 and quotes:
                n = self.quoted_field()
                t = '"' + n + '"'
            names.append(n)
            texts.append(t)
        text = texts[0]
        for t in texts[1:]:
            text += (W if self.r.random() < 0.5 else O + "," + O) + t
        return text, names

    def fields(self):
        t, names = self.field_list()
        k = self.r.choice(("", "", "+", "-"))
        text = kw("fields") + W + (k + O if k else "") + t
        if k == "-":
            return self.same("fields", text, lambda df: df.drop(*names))
        return self.same("fields", text, lambda df: df.select(*[F.col(n) for n in names]))

    def table(self):
        t, names = self.field_list()
        return self.same("table", kw("table") + W + t, lambda df: df.select(*[F.col(n) for n in names]))

    def rename(self):
        r = self.r
        pairs, texts = [], []
        for _ in range(self.few((1, 1, 2, 3))):
            t, n = self.name_text()
            if r.random() < 0.1:
                n = self.quoted_field()
                t = '"' + n + '"'
            if r.random() < 0.3:
                to = self.quoted_field()
                tt = '"' + to + '"'
            else:
                tt = to = self.column_name()
            pairs.append((n, to))
            texts.append(t + W + kw("AS") + W + tt)

        def f(df):
            for a, b in pairs:
                df = df.withColumnRenamed(a, b)
            return df

        return self.same("rename", kw("rename") + W + (O + "," + O).join(texts), f)

    def fillnull(self):
        r = self.r
        text, value, names = kw("fillnull"), "0", None
        if r.random() < 0.6:
            if r.random() < 0.5:
                value = r.choice((self.ident(), "0", "NULL", "5", "-7", "00", "99999999999", "99999999999999999999", "N/A", "unknown"))
                text += W + "value=" + value
            else:
                e = self.lit_str()
                value = e.val
                text += W + "value=" + e.text
        if r.random() < 0.6:
            names, texts = [], []
            for _ in range(r.randint(1, 4)):
                t, n = self.name_text()
                names.append(n)
                texts.append(t)
            text += W + W.join(texts)
        if text == kw("fillnull"):
            pass

        def sa(df):
            df = main_if_none(df).fillna(value, names)
            if re.fullmatch("[+-]?[0-9]+", value, re.A) and -(2**63) <= int(value) < 2**63:
                df = df.fillna(int(value), names)
            return df

        return C("fillnull", text, sa, lambda df: COMMANDS.fill_null(df, value=value, fields=names))

    def eval(self, depth=None, n=None):
        r = self.r
        if r.random() < 0.7:
            targets = []
            for _ in range(n or self.few((1, 1, 1, 2, 3))):
                t = self.column_name()
                targets.append((t, t))
        else:
            targets = []
            for _ in range(n or self.few((1, 1, 2, 3))):
                if r.random() < 0.15:
                    q = self.quoted_field()
                    targets.append(('"' + q + '"', q))
                else:
                    t = self.target_name()
                    targets.append((t, t))
        exprs = [self.expr(self.depth if depth is None else depth) for _ in targets]
        text = kw("eval") + W + (O + "," + O).join(t + O + "=" + O + e.text for (t, _), e in zip(targets, exprs))
        names = [n for _, n in targets]

        def chain(df, mode):
            df = main_if_none(df)
            for n, e in zip(names, exprs):
                df = df.withColumn(n, e.sa if mode == "sa" else e.rt)
            return df

        def rt(df):
            if len(set(names)) == len(names) and all(is_name(n) and n != "df" for n in names):
                return COMMANDS.eval(df, **{n: e.rt for n, e in zip(names, exprs)})
            return chain(df, "rt")

        return C("eval", text, lambda df: chain(df, "sa"), rt)

    def addtotals(self):
        r = self.r
        text, name = kw("addtotals"), "Total"
        opts = []
        if r.random() < 0.3:
            opts.append("row" + O + "=" + O + r.choice(("true", "t")))
        if r.random() < 0.3:
            opts.append("col" + O + "=" + O + r.choice(("false", "f")))
        if r.random() < 0.5:
            name = self.column_name()
            opts.append("fieldname" + O + "=" + O + name)
        r.shuffle(opts)
        names, texts = [], []
        for _ in range(self.few(range(1, 6))):
            t, n = self.name_text()
            names.append(n)
            texts.append(t)
        out = None
        for n in names:
            c = F.when(F.col(n).cast("double").isNotNull(), F.col(n)).otherwise(F.lit(0.0))
            out = c if out is None else out + c
        return self.same("addtotals", text + W + W.join(opts + texts), lambda df: df.withColumn(name, out))

    def convert(self):
        r = self.r
        text = kw("convert")
        out = "MM/dd/yyyy HH:mm:ss"
        if r.random() < 0.5:
            spl, out = time_format(self)
            text += W + "timeformat" + O + "=" + O + '"' + spl + '"'
        steps = []
        for _ in range(self.few((1, 1, 2, 3))):
            fn = r.choice(("ctime", "memk", "rmunit", "rmcomma"))
            t, n = self.name_text()
            to = n
            text += W + fn + "(" + O + t + O + ")"
            if r.random() < 0.5:
                to = self.column_name()
                text += W + kw("AS") + W + to
            f = {"ctime": lambda c: F.date_format(c, out), "memk": memk, "rmunit": rmunit, "rmcomma": rmcomma}[fn]
            steps.append((to, f(F.col(n))))

        def g(df):
            for n, c in steps:
                df = df.withColumn(n, c)
            return df

        return self.same("convert", text, g)

    def makeresults(self):
        r = self.r
        text, n, annotate, server, group = kw("makeresults"), 1, False, "local", None
        opts = []
        if r.random() < 0.6:
            n = self.count_number()
            opts.append("count" + O + "=" + O + str(n))
        if r.random() < 0.5:
            annotate = r.random() < 0.7
            opts.append("annotate" + O + "=" + O + ("true" if annotate else "false"))
        if r.random() < 0.4:
            q, server = self.lookup_value()
            opts.append("splunk_server" + O + "=" + O + q)
        if r.random() < 0.3:
            q, group = self.lookup_value()
            opts.append("splunk_server_group" + O + "=" + O + q)
        r.shuffle(opts)
        text += "".join(W + o for o in opts)

        def f(df):
            df = SPARK.range(0, n, 1).withColumn("_time", F.current_timestamp())
            if annotate:
                for c, v in (("_raw", None), ("host", None), ("source", None), ("sourcetype", None), ("splunk_server", server), ("splunk_server_group", group)):
                    df = df.withColumn(c, F.lit(v))
            return df

        return C("makeresults", text, f, f, source=True)

    def bin(self):
        r = self.r
        n, u = r.randint(1, 99), r.choice(list(UNITS))
        name = self.ident()
        text = kw(r.choice(("bin", "bucket"))) + W + "span" + O + "=" + O + f"{n}{u}" + W + name
        if r.random() < 0.3:
            name = self.ident()
            text += W + kw("AS") + W + name

        def f(df):
            return df.withColumn(name, F.window(F.col("n"), f"{n} {UNITS[u][0]}")).withColumn(name, F.col(name + ".start"))

        return self.same("bin", text, f)

    # ------------------------------------------------------------------ extraction

    REGEX_PARTS = (r"\d+", r"\w*", r"[a-z]+", r"\.", r"a{2,3}", r".*?", r"\s", r"[^,]+", r"x|y", "é", "-", ":", r"\S+", r"[\]\[()]", r"\(", r"\)", r"[(]", r"(?:ab)?", r"(?i:q)", r"(?=z)", r"(?!k)", r"(?<=p)", r"(?<!m)", r"\\", r"'", r"[^(?<x>)]")

    def regex(self, groups):
        """(regex, [(index, name or None)])"""
        r = self.r
        found = []
        used = set()

        def name_of_group():
            while True:
                name = re.sub("[^A-Za-z0-9_]", "", self.ident()) or "a"
                if r.random() < 0.1:
                    name = r.choice(self.names)
                if name.isidentifier() and name.isascii() and name not in used:
                    used.add(name)
                    return name

        def inside(depth):
            alternatives = ["".join(part(depth - 1) for _ in range(r.choice((1, 1, 2)))) for _ in range(r.choice((1, 1, 1, 2, 3)))]
            return "|".join(alternatives)

        def part(depth):
            k = r.random()
            if groups and k < 0.4 and depth > 0:
                name = name_of_group() if r.random() < 0.7 else None
                found.append((len(found) + 1, name))
                head = "(" if name is None else r.choice(("(?<", "(?P<")) + name + ">"
                return head + inside(depth) + ")" + r.choice(("", "", "", "?", "*", "{1,2}", "+?"))
            if k < 0.55 and depth > 0:
                return r.choice(("(?:", "(?:", "(?i:", "(?s:")) + inside(depth) + ")" + r.choice(("", "", "?", "*", "+"))
            while True:
                p = r.choice(self.REGEX_PARTS)
                # the groups of a pattern with look-around are not supported
                if not groups or not p.startswith(("(?=", "(?!", "(?<")):
                    return p

        while True:
            found.clear()
            used.clear()
            s = r.choice(("", "", "", "(?i)", "^")) + "|".join("".join(part(3) for _ in range(r.randint(1, 5))) for _ in range(r.choice((1, 1, 1, 2))))
            if not groups or found:
                return s, list(found)

    def rex(self):
        r = self.r
        rx, groups = self.regex(True)
        java = rx
        for _, n in groups:  # the names that Java takes stay
            if n:
                java = java.replace("(?P<" + n + ">", "(?<" + n + ">")
                if "_" in n:
                    java = java.replace("(?<" + n + ">", "(")
        text, field = kw("rex"), "_raw"
        opts = []
        if r.random() < 0.6:
            field = self.field_name()
            opts.append("field" + O + "=" + O + field)
        if r.random() < 0.15:
            opts.append("max_match" + O + "=" + O + "1")
        r.shuffle(opts)
        text += "".join(W + o for o in opts) + W + '"' + rx + '"'

        def f(df):
            for i, n in sorted(groups, key=lambda g: g[1] == field):
                df = df.withColumn(n or str(i), F.regexp_extract(F.col(field), java, i))
            return df

        return self.same("rex", text, f)

    def regex_cmd(self):
        r = self.r
        rx, _ = self.regex(False)
        field, neg = "_raw", False
        text = kw("regex") + W
        if r.random() < 0.75:
            t, field = self.name_text()
            neg = r.random() < 0.4
            text += t + O + ("!=" if neg else "=") + O
        text += '"' + rx + '"'
        c = F.regexp_like(F.col(field), rx)
        return self.same("regex", text, lambda df: df.where(~c if neg else c))

    def spath(self):
        r = self.r
        text, src = kw("spath"), "_raw"
        path = ".".join(self.ident() + r.choice(("", "", "", "{0}", "{7}", "{12}")) for _ in range(r.randint(1, 3)))
        out = path
        if r.random() < 0.5:
            src = self.ident()
            text += W + kw("input=") + src
        if r.random() < 0.5:
            out = self.column_name()
            text += W + kw("output=") + out
        text += W + (kw("path=") if r.random() < 0.5 else "") + path
        return self.same("spath", text, lambda df: df.withColumn(out, F.get_json_object(F.col(src), "$." + path.replace("{", "[").replace("}", "]"))))

    # ------------------------------------------------------------------ aggregation

    def agg(self, simple_fields=False):
        r = self.r
        a = Agg()
        k = r.random()
        arg = None
        if k < 0.2:
            name = "count"
            if r.random() < 0.5 and not simple_fields:
                t, n = self.name_text(allow_quotes=False)
                arg = F.col(n)
                text = f"count({O}{t}{O})"
                a.col, a.rt = F.count(arg), stat("count")(arg)
            else:
                text = "count" if simple_fields else r.choice(("count", "count()"))
                a.col, a.rt = F.count(F.lit(1)), stat("count")()
            a.before, a.rt_name = _same, "count"
            default = "count"
        elif k < 0.35:
            fn = r.choice(("exactperc", "percentile", "upperperc"))
            p = r.choice((0, 1, 5, 50, 90, 95, 99, 100, r.randint(0, 100)))
            name = fn + str(p)
            t, n = self.name_text(allow_quotes=False)
            sp = "" if simple_fields else O
            text = f"{name}({sp}{t}{sp})"
            f = F.percentile if fn == "exactperc" else F.percentile_approx
            a.col, a.rt = f(F.col(n), p / 100.0), getattr(FUNCTIONS.stats, fn)(F.col(n), p)
            a.before, a.rt_name = _same, name
            default = fn
        else:
            name = r.choice([s for s in STATS if not simple_fields or STATS[s][0]])
            arity, f, before, rt, alias = STATS[name]
            sp = "" if simple_fields else O
            if arity:
                t, n = self.name_text(allow_quotes=False)
                text = f"{name}({sp}{t}{sp})"
                a.col = f(F.col(n))
                a.rt = getattr(FUNCTIONS.stats, rt)(F.col(n)) if rt else None
            else:
                text = name + r.choice(("", "()"))
                a.col = f()
                a.rt = getattr(FUNCTIONS.stats, rt)()
            a.before, a.rt_name = before, name
            default = alias or name
        a.name = default
        if r.random() < 0.55:
            a.name = a.rt_name = self.ident()
            text += W + kw("AS") + W + a.name
        a.text = text
        return a

    def by_list(self, lo=1, hi=3):
        r = self.r
        texts, cols = [], []
        for _ in range(r.randint(lo, hi)):
            t, n = self.name_text(allow_quotes=False)
            if r.random() < 0.2:
                k, u = r.randint(1, 60), r.choice(list(UNITS))
                texts.append(t + W + kw("span=") + f"{k}{u}")
                cols.append(F.window(n, f"{k} {UNITS[u][0]}"))
            else:
                texts.append(t)
                cols.append(F.col(n))
        text = texts[0]
        for t in texts[1:]:
            text += (W if r.random() < 0.5 else O + "," + O) + t
        return text, cols

    def stats(self):
        r = self.r
        aggs = [self.agg() for _ in range(self.few((1, 1, 2, 3, 4)))]
        text = kw("stats") + W
        if r.random() < 0.1:
            text += "allnum" + O + "=" + O + "true" + W
        text += aggs[0].text
        for a in aggs[1:]:
            text += r.choice((W, O + "," + O)) + a.text
        by = []
        if r.random() < 0.6:
            t, by = self.by_list()
            text += W + kw("BY") + W + t

        def sa(df):
            df = main_if_none(df)
            for a in aggs:
                df = a.before(df)
            return df.groupBy(*by).agg(*[a.col.alias(a.name) for a in aggs])

        def rt(df):
            names = [a.rt_name for a in aggs]
            if any(a.rt is None for a in aggs) or len(set(names)) < len(names) or not all(is_name(n) and n not in ("df", "by") for n in names):
                return sa(df)
            kwargs = {"by": by} if by else {}
            kwargs.update({n: a.rt for n, a in zip(names, aggs)})
            return COMMANDS.stats(df, **kwargs)

        return C("stats", text, sa, rt)

    def model_name(self, n=None):
        return ".".join(self.ident() for _ in range(n or self.r.randint(1, 3)))

    def tstats(self, model=None):
        r = self.r
        aggs = [self.agg(simple_fields=True) for _ in range(self.few((1, 1, 2, 3)))]
        text = kw("tstats")
        for a, b in zip(aggs, aggs[1:]):
            if a.text == "count" and b.text.startswith("count"):
                # two words would be an aggregation of a field
                a.text += W + kw("AS") + W + "count"
        fill = None
        if r.random() < 0.2:
            q, fill = self.lookup_value()
            text += W + "fillnull_value" + O + "=" + O + q
        for o in ("summariesonly", "allow_old_summaries"):
            if r.random() < 0.2:
                text += W + o + O + "=" + O + r.choice(("true", "false", "t", "f"))
        text += W + W.join(a.text for a in aggs)
        model = True if model is None else model
        dm = node = None
        if model:
            dm = self.model_name()
            text += W + kw("FROM") + W + kw("datamodel=") + dm
            if r.random() < 0.5:
                node = self.model_name()
                text += W + kw("WHERE") + W + kw("nodename=") + node
        cond = None
        if r.random() < 0.6:
            # tstats compares fields with values only
            self.where_exprs = False
            cond = self.where_tree(1)
            self.where_exprs = True
            text += W + kw("WHERE") + W + cond.text
        by = []
        if r.random() < 0.6:
            t, by = self.by_list()
            text += W + kw("BY") + W + t

        def sa(df, mode="sa"):
            if dm is None:
                return None
            rest = node.split(".")[1:] if node else []
            df = SPARK.table(".".join([dm] + rest))
            if cond:
                df = df.where(cond.sa if mode == "sa" else cond.rt)
            for a in aggs:
                df = a.before(df)
            return df.groupBy(*by).agg(*[a.col.alias(a.name) for a in aggs])

        def rt(df):
            names = [a.rt_name for a in aggs]
            if any(a.rt is None for a in aggs) or len(set(names)) < len(names) or not all(is_name(n) and n not in ("df", "by", "from_", "where", "fill_null_value") for n in names):
                return None
            kwargs = dict(from_={"datamodel": dm, "nodename": node})
            if fill is not None:
                kwargs["fill_null_value"] = fill
            if cond:
                kwargs["where"] = cond.rt
            if by:
                kwargs["by"] = by
            kwargs.update({n: a.rt for n, a in zip(names, aggs)})
            return COMMANDS.tstats(df, **kwargs)

        return C("tstats", text, sa, rt, source=True)

    def datamodel(self):
        r = self.r
        text = kw("datamodel")
        opts = dict(strict_fields=False, allow_old_summaries=False, summaries_only=True)
        for o, spelled in (("strict_fields", "strict_fields"), ("allow_old_summaries", "allow_old_summaries"), ("summaries_only", "summariesonly")):
            if r.random() < 0.2:
                opts[o] = r.random() < 0.5
                text += W + spelled + O + "=" + O + ("true" if opts[o] else "false")
        dm = self.ident()
        text += W + dm
        node = None
        if r.random() < 0.7:
            node = self.model_name()
            text += W + node
        text += W + "search"

        def sa(df):
            return SPARK.table(".".join([dm] + (node.split(".")[1:] if node else [])))

        return C(
            "datamodel", text, sa,
            lambda df: COMMANDS.data_model(df, data_model_name=dm, dataset_name=node, search_mode="search", **opts), source=True,
        )

    def top(self, name=None):
        r = self.r
        name = name or r.choice(("top", "rare"))
        n, cf, pf, showc, showp = 10, "count", "percent", True, True
        text = kw(name)
        opts = []
        if r.random() < 0.5:
            n = self.count_number()
            if r.random() < 0.6:
                text += W + str(n)
            else:
                opts.append(kw("limit") + O + "=" + O + str(n))
        if r.random() < 0.3:
            cf = self.ident()
            opts.append("countfield" + O + "=" + O + cf)
        if r.random() < 0.3:
            pf = self.ident()
            opts.append("percentfield" + O + "=" + O + pf)
        if r.random() < 0.3:
            showc = r.random() < 0.5
            opts.append("showcount" + O + "=" + O + r.choice(("true", "t") if showc else ("false", "f")))
        if r.random() < 0.3:
            showp = r.random() < 0.5
            opts.append("showperc" + O + "=" + O + r.choice(("true", "t") if showp else ("false", "f")))
        if r.random() < 0.1:
            opts.append("useother" + O + "=" + O + "false")
        r.shuffle(opts)
        text += "".join(W + o for o in opts)
        t, fields = self.field_list(1, 3)
        text += W + t
        by = []
        if r.random() < 0.5:
            t, by = self.field_list(1, 3)
            text += W + kw("BY") + W + t

        def f(df):
            df = df.groupBy(*(by + fields)).agg(F.count().alias(cf))
            if showp:
                df = df.withColumn(pf, F.col(cf) / F.sum(F.col(cf)))
            c = F.col(cf)
            df = df.orderBy(c.desc() if name == "top" else c.asc())
            if n:
                df = df.limit(n)
            if not showc:
                df = df.drop(cf)
            return df

        return self.same(name, text, f)

    # ------------------------------------------------------------------ other sources

    def lookup(self):
        r = self.r
        ds = self.ident()
        text = kw("lookup") + W + ds
        cond = None
        for _ in range(self.few((1, 1, 2, 3))):
            t = n = self.field_name()
            to = n
            text += (W if cond is None else r.choice((W, O + "," + O))) + t
            if r.random() < 0.4:
                to = self.ident()
                text += W + kw("AS") + W + to
            c = F.col("main." + to) == F.col("lookup." + n)
            cond = c if cond is None else cond & c
        outs = [F.col("main.*")]
        if r.random() < 0.6:
            text += W + kw("OUTPUT")
            for k in range(self.few((1, 1, 2, 3))):
                t = n = self.field_name()
                to = n
                text += W + t
                if r.random() < 0.4:
                    to = self.ident()
                    text += W + kw("AS") + W + to
                outs.append(F.col("lookup." + n).alias(to))
        else:
            outs.append(F.col("lookup.*"))
        return self.same("lookup", text, lambda df: df.alias("main").join(SPARK.table(ds).alias("lookup"), cond, "left").select(*outs))

    def subsearch(self, level=1):
        return "[" + O, self.pipeline(level=level, n=self.r.choice((0, 0, 1, 2)), explicit=True), O + "]"

    def join(self, level=1):
        r = self.r
        how, usetime, earlier = "inner", False, True
        opts = []
        if r.random() < 0.5:
            how = r.choice(("inner", "left", "outer"))
            opts.append("type" + O + "=" + O + (how if how == "left" else r.choice((kw(how), f'"{how}"'))))
            how = "left" if how == "outer" else how
        if r.random() < 0.4:
            usetime = r.random() < 0.7
            opts.append("usetime" + O + "=" + O + ("true" if usetime else "false"))
        if r.random() < 0.4:
            earlier = r.random() < 0.5
            opts.append("earlier" + O + "=" + O + ("true" if earlier else "false"))
        if r.random() < 0.2:
            opts.append("max" + O + "=" + O + "1")
        if r.random() < 0.1:
            opts.append("overwrite" + O + "=" + O + "true")
        r.shuffle(opts)
        t, names = self.field_list(1, 3)
        a, sub, b = self.subsearch(level)
        cond = None
        for n in names:
            c = F.col("LEFT." + n) == F.col("RIGHT." + n)
            cond = c if cond is None else cond & c
        if usetime:
            x, y = F.col("LEFT._time"), F.col("RIGHT._time")
            cond = cond & (x >= y if earlier else x <= y)
        text = kw("join") + "".join(W + o for o in opts) + W + t + W + a + sub.text + b

        def f(mode):
            return lambda df: main_if_none(df).alias("LEFT").join(getattr(sub, mode)(None).alias("RIGHT"), cond, how)

        return C("join", text, f("sa"), f("rt"))

    def multisearch(self, level=1):
        subs = [self.subsearch(level) for _ in range(self.r.choice((2, 2, 3)))]
        text = kw("multisearch") + W + O.join(a + s.text + b for a, s, b in subs)

        def f(mode):
            def g(df):
                out = None
                for _, s, _ in subs:
                    d = getattr(s, mode)(None)
                    out = d if out is None else out.unionByName(d, allowMissingColumns=True)
                return out

            return g

        return C("multisearch", text, f("sa"), f("rt"), source=True)

    # ------------------------------------------------------------------ pipelines

    STEPS = (
        "later_search", "where", "head", "sort", "fields", "table", "rename", "fillnull", "eval", "addtotals", "convert", "bin", "rex", "regex_cmd",
        "spath", "stats", "top", "lookup", "tail",
    )

    def step(self, level=1):
        r = self.r
        if level and r.random() < 0.05:
            return self.join(level - 1)
        return getattr(self, r.choice(self.STEPS))()

    def source(self, level=1):
        r = self.r
        k = r.random()
        if k < 0.7:
            return self.first_search()
        if k < 0.78:
            return self.makeresults()
        if k < 0.86:
            return self.datamodel()
        if k < 0.92 or not level:
            while True:
                c = self.tstats(model=True)
                if c.rt(None) is not None:
                    return c
        return self.multisearch(level - 1)

    def pipeline(self, level=1, n=None, first=None, steps=None, explicit=False):
        """A pipeline as a command. `explicit`: without the notations only possible outside of brackets"""
        r = self.r
        if steps is None:
            n = self.few((0, 1, 1, 2, 3, 4)) if n is None else n
            first = first or self.source(level)
            steps = [first] + [self.step(level) for _ in range(n)]
            # tail yields a list of rows, so nothing can follow it
            steps = [s for i, s in enumerate(steps) if s.name != "tail" or i == len(steps) - 1]
        text = (O + "|" + O).join(s.text for s in steps)

        def f(mode):
            def g(df):
                for s in steps:
                    df = getattr(s, mode)(df)
                    if df is None:  # not supported in this mode
                        return None
                return df

            return g

        return C("+".join(s.name for s in steps), text, f("sa"), f("rt"), source=True)
