"""Times: formats, parsing and relative times compute on Spark what SPL defines, in both modes."""
import calendar
import datetime as dt
import random
import zoneinfo

from harness import Violation
from sparkbase import SparkCheck

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)
# Zones without changes of their offset in the years used
ZONES = ["UTC", "UTC", "Asia/Kolkata", "America/Phoenix", "Asia/Tokyo", "Etc/GMT+11"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = "January February March April May June July August September October November December".split()
UNITS = {
    "seconds": "s sec secs second seconds".split(), "minutes": "m min mins minute minutes".split(), "hours": "h hr hrs hour hours".split(),
    "days": "d day days".split(), "weeks": "w w0 w7 week weeks".split(), "months": "mon month months".split(),
}
TEXTS = ["-", "/", ":", " ", ".", ", ", "_", "T", "Z", " at ", "h", "'", "''", "o'clock", "[", "]", "{x}", "#", "%%", "GMT", "é", "日", "(a)", "=", " of ", "%%Y", "d", "yyyy", "week "]


def offset(t):
    s = int(t.utcoffset().total_seconds())
    return ("-" if s < 0 else "+"), abs(s) // 3600, abs(s) // 60 % 60


def zone(form):
    def f(t):
        sign, h, m = offset(t)
        return form.format(sign, h, m)

    return f


# Directive of SPL -> its text for a time
DIRECTIVES = {
    "%H": lambda t: f"{t.hour:02d}", "%I": lambda t: f"{t.hour % 12 or 12:02d}", "%k": lambda t: str(t.hour), "%M": lambda t: f"{t.minute:02d}",
    "%S": lambda t: f"{t.second:02d}", "%p": lambda t: "AM" if t.hour < 12 else "PM", "%Y": lambda t: f"{t.year:04d}", "%y": lambda t: f"{t.year % 100:02d}",
    "%m": lambda t: f"{t.month:02d}", "%d": lambda t: f"{t.day:02d}", "%e": lambda t: str(t.day), "%b": lambda t: MONTHS[t.month - 1][:3],
    "%B": lambda t: MONTHS[t.month - 1], "%A": lambda t: DAYS[t.weekday()], "%a": lambda t: DAYS[t.weekday()][:3], "%j": lambda t: f"{t.timetuple().tm_yday:03d}",
    "%T": lambda t: f"{t.hour:02d}:{t.minute:02d}:{t.second:02d}", "%F": lambda t: f"{t.year:04d}-{t.month:02d}-{t.day:02d}",
    "%3Q": lambda t: f"{t.microsecond // 1000:03d}", "%6Q": lambda t: f"{t.microsecond:06d}", "%9Q": lambda t: f"{t.microsecond:06d}000",
    "%Q": lambda t: f"{t.microsecond // 1000:03d}", "%N": lambda t: f"{t.microsecond // 1000:03d}", "%3N": lambda t: f"{t.microsecond // 1000:03d}",
    "%6N": lambda t: f"{t.microsecond:06d}", "%9N": lambda t: f"{t.microsecond:06d}000", "%f": lambda t: f"{t.microsecond:06d}",
    "%z": zone("{}{:02d}{:02d}"), "%:z": zone("{}{:02d}:{:02d}"),
}
# First and last letter of the pattern in Spark: equal ones would merge when they meet without a text between them
LETTERS = {
    "%H": "HH", "%I": "hh", "%k": "HH", "%M": "mm", "%S": "ss", "%p": "aa", "%Y": "yy", "%y": "yy", "%m": "MM", "%d": "dd", "%e": "dd", "%b": "MM", "%B": "MM",
    "%A": "EE", "%a": "EE", "%j": "DD", "%T": "Hs", "%F": "yd", "%z": "xx", "%:z": "xx",
}
for _d in DIRECTIVES:
    LETTERS.setdefault(_d, "SS")


class G:
    def __init__(self, r, zone):
        self.r, self.zone = r, zone
        self.used = {}

    def note(self, name):
        self.used[name] = self.used.get(name, 0) + 1

    # ---------------------------------------------------------------- formats

    def format(self, directives=None, texts=TEXTS):
        """(text of a format, function of a local time)"""
        r = self.r
        spl, parts, text, last = "", [], "", None
        for _ in range(r.choice((1, 2, 2, 3, 4, 6))):
            d = r.choice(directives or list(DIRECTIVES))
            if last and not text and LETTERS[last][1] == LETTERS[d][0]:
                text += "-"
                spl += "-"
            parts += [text, DIRECTIVES[d]]
            self.note("directive " + d)
            spl, text, last = spl + d, "", d
            for _ in range(r.choice((0, 1, 1, 1, 2))):
                t = r.choice(texts)
                spl += t
                text += t.replace("%%", "%")
        parts.append(text)
        return spl, lambda t: "".join(p if isinstance(p, str) else p(t) for p in parts)

    def complete_format(self):
        """A format that tells a whole time: (text, resolution in microseconds, function)"""
        r = self.r
        day = r.choice(("%Y-%m-%d", "%F", "%d/%m/%Y", "%m/%d/%Y", "%b %d, %Y", "%d %B %Y", "%Y.%j", "%d.%m.%y", "%e %b %Y", "%Y%m%d"))
        glue = r.choice((" ", "T", " at ", ", ", " - ", "_"))
        clock, unit = r.choice((("%H:%M:%S", 10**6), ("%T", 10**6), ("%H:%M", 6 * 10**7), ("%I:%M %p", 6 * 10**7), ("%I:%M:%S %p", 10**6), ("%T.%3N", 1000), ("%T.%6N", 1), ("%T.%f", 1), ("%H:%M:%S.%3Q", 1000), ("%H%M%S", 10**6), ("%Hh %Mm", 6 * 10**7)))
        text = day + glue + clock
        k = r.random()
        if k < 0.15:
            text, unit = day, None
        elif k < 0.3:
            text += r.choice(("%z", " %z", "%:z"))
        elif k < 0.4:
            # (Spark does not parse fractions of a second after a leading quote)
            text = r.choice(("at ", "[", "100%% ", "day ", "it's ")) + text + r.choice(("]", " o'clock", " %%", "Z"))

        def f(t):
            out, i = "", 0
            while i < len(text):
                if text.startswith("%%", i):
                    out, i = out + "%", i + 2
                elif text[i] == "%":
                    d = next(d for n in (4, 3, 2) for d in [text[i : i + n]] if d in DIRECTIVES)
                    out, i = out + DIRECTIVES[d](t), i + len(d)
                else:
                    out, i = out + text[i], i + 1
            return out

        return text, unit, f

    # ---------------------------------------------------------------- expressions: (text, function of a row giving an aware local time or None)

    def time(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.3:
            n = r.choice(("d", "d", "e"))
            return n, lambda row: row[n]
        if k < 0.75:
            return self.relative(depth)
        return self.parsed(depth)

    def relative(self, depth):
        r = self.r
        self.note("relative_time")
        inner, f = self.time(depth - 1)
        steps, text = [], ""
        k = r.random()
        if k < 0.55:
            v, u = r.choice((-1, 1)) * r.choice((0, 1, 2, 7, 30, r.randint(0, 500))), r.choice(list(UNITS))
            w = r.choice(UNITS[u])
            text += (f"{v:+d}" if v < 0 or r.random() < 0.6 else str(v)) + w
            steps.append(("add", v, u))
        elif k < 0.7:
            u = r.choice(list(UNITS))
            neg = r.random() < 0.6
            text += ("-" if neg else "") + r.choice(UNITS[u])
            steps.append(("add", -1 if neg else 1, u))
        u = r.choice(list(UNITS))
        text += "@" + r.choice(UNITS[u])
        steps.append(("snap", None, u))
        self.note("snap to " + u)
        if r.random() < 0.4:
            v, u = r.choice((-1, 1)) * r.randint(1, 50), r.choice(list(UNITS))
            text += f"{v:+d}" + r.choice(UNITS[u])
            steps.append(("add", v, u))

        def g(row):
            t = f(row)
            if t is None:
                return None
            for kind, v, u in steps:
                t = add(t, v, u) if kind == "add" else snap(t, u)
            return t

        return f'relative_time({inner}, "{text}")', g

    def parsed(self, depth):
        r = self.r
        self.note("strptime")
        text, unit, f = self.complete_format()
        if r.random() < 0.3:
            t = random_time(r).astimezone(self.zone)
            return f'strptime("{f(t)}", "{text}")', lambda row: cut(t, unit)
        self.note("strftime")
        # Two digits of a year stand for a year of this century
        inner, g = self.time(0 if "%y" in text else depth - 1)

        def h(row):
            t = g(row)
            return None if t is None else cut(t, unit)

        return f'strptime(strftime({inner}, "{text}"), "{text}")', h

    def formatted(self, depth):
        self.note("strftime")
        inner, g = self.time(depth - 1)
        text, f = self.format() if self.r.random() < 0.7 else self.complete_format()[::2]

        def h(row):
            t = g(row)
            return None if t is None else f(t)

        return f'strftime({inner}, "{text}")', h


def cut(t, unit):
    if unit is None:
        return t.replace(hour=0, minute=0, second=0, microsecond=0)
    us = (t.second * 10**6 + t.microsecond) // unit * unit if unit < 6 * 10**7 else 0
    return t.replace(second=us // 10**6, microsecond=us % 10**6)


def add(t, v, u):
    if u == "months":
        n = t.year * 12 + t.month - 1 + v
        y, m = divmod(n, 12)
        return t.replace(year=y, month=m + 1, day=min(t.day, calendar.monthrange(y, m + 1)[1]))
    return t + dt.timedelta(**{u: v})


def snap(t, u):
    t = t.replace(microsecond=0)
    if u == "seconds":
        return t
    t = t.replace(second=0)
    if u == "minutes":
        return t
    t = t.replace(minute=0)
    if u == "hours":
        return t
    t = t.replace(hour=0)
    if u == "weeks":
        return t - dt.timedelta(days=(t.weekday() + 1) % 7)
    return t.replace(day=1) if u == "months" else t


def random_time(r):
    """A time of the years for which both %y and the zones are plain"""
    y = r.randint(2003, 2094)
    k = r.random()
    if k < 0.3:
        m = r.choice((1, 2, 3, 12, r.randint(1, 12)))
        d = r.choice((1, calendar.monthrange(y, m)[1]))
        h, mi, s = r.choice(((0, 0, 0), (23, 59, 59), (12, 0, 0), (11, 59, 59)))
        us = r.choice((0, 0, 1, 999999, 999000, 1000))
    else:
        m = r.randint(1, 12)
        d = r.randint(1, calendar.monthrange(y, m)[1])
        h, mi, s, us = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice((0, r.randint(0, 999999), r.randint(0, 999) * 1000))
    return dt.datetime(y, m, d, h, mi, s, us, tzinfo=UTC)


class CHECK(SparkCheck):
    id = "C26"
    rule = "distinct eval commands of time functions, each run on a table of times with missing values, in both modes and several time zones"
    assumptions = [
        "a local Spark session in time zones without changes of the offset; years 1900 to 2200 for formatting",
        "times are timestamps, as the translation has it; %k and %e have no leading space in Spark; %Z, %::z and %:::z are left out",
        "strptime gets texts that fit its format",
    ]

    def prepare(self):
        self.block = None

    def new_block(self, block):
        r = random.Random(f"{self.seed}:table:{block}")
        self.block = block
        self.zone_name = r.choice(ZONES)
        self.zone = zoneinfo.ZoneInfo(self.zone_name)
        self.spark.conf.set("spark.sql.session.timeZone", self.zone_name)
        self.data = []
        values = []
        for i in range(16):
            row = {n: None if r.random() < 0.1 else random_time(r).astimezone(self.zone) for n in ("d", "e")}
            self.data.append(row)
            values.append("(" + ", ".join("timestamp_micros(CAST(%s AS BIGINT))" % ("NULL" if t is None else round((t - EPOCH) / dt.timedelta(microseconds=1))) for t in row.values()) + ")")
        self.spark.sql(f"SELECT * FROM VALUES {', '.join(values)} AS t(d, e)").createOrReplaceTempView("main")

    def run(self, rng, i):
        if self.block != i // 40:
            self.new_block(i // 40)
        g = G(rng, self.zone)
        xs = [(g.formatted if rng.random() < 0.5 else g.relative if rng.random() < 0.7 else g.parsed)(rng.choice((1, 1, 2, 3))) for _ in range(rng.choice((1, 4, 8, 12)))]
        q = "index=main | eval " + ", ".join(f"r{n}={x[0]}" for n, x in enumerate(xs))
        expected = [[f(row) for _, f in xs] for row in self.data]
        for runtime in self.modes:
            code = self.render(q, runtime)
            names, rows = self.rows(code, f"{q}\nallow_runtime={runtime} zone={self.zone_name}")
            if len(rows) != len(self.data):
                raise Violation(f"eval changes the number of rows: {len(rows)} of {len(self.data)}\n{q}\n{code}")
            for row, want, got in zip(self.data, expected, rows):
                for n, (text, _) in enumerate(xs):
                    value = got[names.index(f"r{n}")]
                    if isinstance(value, dt.datetime):
                        value = value.replace(tzinfo=UTC)  # the process runs in UTC
                    if value != want[n] or type(value) is not type(want[n]):
                        raise Violation(f"{text} is {value!r} instead of {want[n]!r} (allow_runtime={runtime}, zone {self.zone_name})\nrow: { {k: str(v) for k, v in row.items()} }\nquery: {q}\n{code}")
                    self.observed["values compared"] += 1
                    if value is not None:
                        self.observed["values other than null"] += 1
        self.observed["queries in " + self.zone_name] += 1
        for name, k in g.used.items():
            self.observed["uses of " + name] += k
        return q, q
