"""Mutations of SPL text, by tokens and by characters."""
import re

TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'[^\']*\'|[A-Za-z_][\w.:{}@-]*|\d+(?:\.\d+)?|\s+|.', re.S)
WORDS = (
    "search where eval stats tstats by as AND OR NOT IN head tail top rare sort rename fields table rex regex spath lookup join fillnull makeresults bin datamodel convert addtotals multisearch dedup "
    "count sum avg max min dc values latest earliest eval if case coalesce null() true false t f index source sourcetype host = != < > <= >= + - * / . % | ( ) [ ] , \" ' ` $x$ -1 0 1 5 1.5 1e9 "
    "9223372036854775807 99999999999999999999 -7d@d 1h +1mon@w0 now() span=1h limit=0 10.0.0.0/8 *a* \"a b\" 'a b' \"\" field= output= max_match= mode=sed \"s/a/b/g\" \"(?<x>a)\" from datamodel=a.b"
).split(" ")


def tokens(q):
    return TOKEN.findall(q)


def mutate(q, rng, others=(), n=None):
    t = tokens(q)
    for _ in range(n or rng.choice((1, 1, 1, 2, 3, 5))):
        if not t:
            t = ["search"]
        k = rng.random()
        i = rng.randrange(len(t))
        if k < 0.2:
            del t[i : i + rng.choice((1, 1, 2, 3, 8))]
        elif k < 0.45:
            t.insert(i, rng.choice((" ", "")) + rng.choice(WORDS) + rng.choice((" ", "")))
        elif k < 0.6:
            t[i] = rng.choice(WORDS)
        elif k < 0.7:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k < 0.8 and others:
            o = tokens(rng.choice(others))
            j = rng.randrange(len(o)) if o else 0
            t[i : i + rng.choice((0, 1, 3))] = o[j : j + rng.choice((1, 3, 10))]
        elif k < 0.87:
            t.insert(i, t[rng.randrange(len(t))])
        else:
            s = t[i]
            p = rng.randint(0, len(s))
            t[i] = s[:p] + rng.choice(("", chr(rng.choice((0, 9, 10, 34, 39, 92, 96, 127, 160, 233, 0x2028, 0x4E2D, 0x1F642, rng.randint(32, 126)))))) + s[p + rng.choice((0, 1)) :]
    return "".join(t)
