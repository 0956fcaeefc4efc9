"""Macro calls and definitions made at random, and an account of what they stand for."""
NAMES = "a b x1 foo bar_baz src_ip user a:b my-macro T1 security_content_summariesonly x%y q{}z @at1 star*s c/d _u 9lives".split()
PLAIN = "a b src_ip count user _time f1 Z9 action dest.x".split()
STRINGS = [
    '"x, y"', '"a b"', '"(("', '"))"', '"a\\"b"', '"a=b"', '""', '"|"', '"é 中"', "'q r'", "'a,b'", '"\\\\"', '"$x$"', '"1"', '"[a]"', '"line\nbreak"', '"%H:%M"',
]
TICKS = ['"t`k"', '"`f`"', '"a``b"', '"`"']


def value(rng, depth=2, ticks=False):
    """The text of an argument that has no name of its own."""
    k = rng.random()
    if depth <= 0 or k < 0.35:
        return rng.choice([n for n in PLAIN if "." not in n])
    if k < 0.5:
        return rng.choice(["1", "-1", "1.5", "0", "42", "-7d@d", "0.10", "007"])
    if k < 0.7:
        return rng.choice(STRINGS + (TICKS if ticks else []))
    sub = lambda: value(rng, depth - 1, ticks)  # noqa: E731
    if k < 0.8:
        return rng.choice(["f", "abs", "len", "coalesce", "if"]) + "(" + ", ".join(sub() for _ in range(rng.randint(1, 3))) + ")"
    if k < 0.86:
        return "(" + sub() + ")"
    if k < 0.96:
        return rng.choice(PLAIN[:3]) + rng.choice([" + ", " * ", " - ", " AND ", " OR ", " > "]) + rng.choice(PLAIN[:4] + ["1", '"v"'])
    return "null()"


def ws(rng):
    return rng.choice(["", "", "", " ", "  ", "\n", "\t"])


def call(rng, name, args):
    """The text of a call; `args` are pairs of a name or None and a value."""
    body = ws(rng) + name
    if args or rng.random() < 0.2:
        body += ws(rng) + "(" + ws(rng)
        body += (",").join(ws(rng) + ("" if n is None else n + "=") + v + ws(rng) for n, v in args)
        body += ws(rng) + ")"
    return "`" + body + ws(rng) + "`"


def split_args(text):
    """The arguments in the text between the parentheses of a call, as this check understands them."""
    out, cur, quote, depth, i = [], "", None, 0, 0
    while i < len(text):
        c = text[i]
        if quote:
            cur += c
            if c == "\\":
                i += 1
                cur += text[i : i + 1]
            elif c == quote:
                quote = None
        elif c in "\"'":
            quote = c
            cur += c
        elif c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            depth += {"(": 1, ")": -1}.get(c, 0)
            cur += c
        i += 1
    if cur.strip() or out:
        out.append(cur.strip())
    return out
