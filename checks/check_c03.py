"""Text of a query arrives in the code unchanged, whatever it consists of."""
from plancheck import PlanCheck
from cmds import CmdGen
from harness import Violation
import api, ast, fake
from spl import unescaped

FRAGMENTS = (
    "\\", "\\\\", '"', "'", "'''", '"""', "\n", "\r", "\t", "\r\n", "{", "}", "{}", "{x}", "{{", "}}", "%s", "%", "%%", "#", "# x", "\\n", "\\u0041", "\\x41", "\\N{DASH}", "\\0", "\\'",
    "\\\"", "$", "$x$", "`", "``", "`x`", "(", ")", "[", "]", "|", "||", ",", ";", "=", "==", "!=", ":", "/", "//", "?", "!", "@", "&", "<", ">", "~", "^", "+", "-", "_", ".", "..", " ",
    "  ", "a", "Z", "0", "9", "é", "ß", "İ", "ı", "中", "🙂", "\u2028", "\u00a0", "\u200b", "\ufeff", "\x01", "\x7f", "\u0301", "F.col('x')", "')", '")', "'); import os; os.system('x') #", "');", "\\');",
    "f'{1}'", "r'", "lambda: 0", "None", "True", "nan", "OR", "AND", "NOT", "|head 1", "] | head 1", "AS x", "BY y", "1 OR 1=1", "0x1", "1e5", "0.0.0.0/0", "df_1", "spark.table('t')",
)


class Hostile(CmdGen):
    def string_value(self, wild=False):
        r = self.r
        while True:
            s = "".join(r.choice(FRAGMENTS) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 5, 8))))
            if wild:
                s += "*"
            s = s.replace("*", "") if not wild else s
            if s.startswith('"') or s.endswith('"'):
                continue  # doubled quotes have a meaning of their own
            import re

            if re.fullmatch(r"(?i)[-+]?\d*[a-z0-9]*@[a-z0-9+-]*", s):
                continue
            return s

    def quoted_field(self):
        r = self.r
        while True:
            s = "".join(r.choice(FRAGMENTS) for _ in range(r.choice((1, 2, 3))))
            s = "a" + s + "b"
            if not set(s) & set("'\"\\*`"):
                return s


class CHECK(PlanCheck):
    id = "C03"
    kinds = ("first_search", "later_search", "where", "eval", "rename", "fields", "fillnull", "makeresults", "rex", "regex_cmd", "eval", "tstats")
    depth = 1
    rule = "distinct queries full of quotes, backslashes, line breaks, braces, Python, SQL and SPL fragments whose text values were compared, character for character, with those that the executed code passes to Spark"

    def make(self, g, rng):
        return super().make(Hostile(rng), rng)
