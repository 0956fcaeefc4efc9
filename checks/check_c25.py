"""What has no translation is refused instead of being left out or turned into something else."""
import api
from cmds import CmdGen
from harness import Check, Skip, Violation
from spl import spell

# Commands of Splunk without a translation here, and names of no command at all
COMMANDS = """
abstract accum addcoltotals addinfo analyzefields anomalies anomalousvalue anomalydetection append appendcols appendpipe arules associate autoregress bucketdir chart cluster cofilter concurrency
contingency correlate dbinspect delete delta diff erex eventcount extract kv fieldformat fieldsummary filldown findtypes folderize foreach from gauge gentimes geom geomfilter geostats highlight history iconify
inputcsv iplocation kmeans kvform loadjob localize localop makecontinuous makemv mcollect metadata metasearch meventcollect mpreview msearch mstats multikv nomv outlier outputcsv outputlookup outputtext
overlap pivot predict rangemap redistribute reltime replace require rest reverse rtorder savedsearch script run scrub searchtxn selfjoin sendalert sendemail set setfields sichart sirare sistats sitimechart
sitop strcat tags timechart timewrap tojson transaction transpose trendline tscollect typeahead typelearner typer union uniq untable walklex x11 xmlkv xmlunescape xpath xyseries
nosuch searchx heads evaluate stat tables sorted whered xeval join2 lookups _search
""".split()
TAILS = ["", "{f}", "{f} {f}", "{f}=1", "{n}", "count by {f}", '"{s}"', "{f} as {f}", "[search {f}=1]", "{f}=1 {f}", "field={f}", "* ", "span=1h {f}", "count({f})"]

# Known to the parser and without any translation
PARSED = [
    "dedup {f}", "dedup {n} {f}", "dedup {f} {f}", "dedup keepevents=true {f}", "dedup consecutive=true {f}", "dedup {f} sortby {f}", "eventstats count by {f}", "eventstats max({f}) as {f}", "eventstats avg({f})",
    "streamstats count", "streamstats sum({f}) by {f}", "streamstats window={n} avg({f})", "format", "inputlookup t.csv", "inputlookup append=true t", "mvcombine {f}", "mvexpand {f}", "mvexpand {f} limit={n}",
    "mvcombine delim=\",\" {f}", "return {f}", "return {n} {f}", "return ${f}", "collect index={f}", "map search=\"search a=1\"", "collect index={f} addtime=false", "map [search {f}=1]",
]
# Options and forms of translated commands that have no translation
FORMS = [
    "head ({f}=1)", "head count>{n}", "head {n} {n}", "head {f}", "head -{n}", "head {f}<{n}", "head while ({f}=1)", "tail -{n}", "tail {n} {n}", "tail {f}", "tail {n}.5", "head {n}.5",
    "sort {n} {f} {f} desc", "sort {f} d", "top useother=true {f}", "rare useother=true {f}", "top useother=t limit={n} {f}", "top limit=-1 {f}", "rare limit=-{n} {f}",
    "table", "fields", "table {f},", "fields - {f}*", "fields - *", "rename {f}* as {f}*", "rename {f} {f}", "rename {f} as {f} {f}", "rename {f} as", "rename as {f}",
    'rex mode=sed "s/{f}/b/2"', 'rex mode=sed "s/{f}/b/3g"', 'rex mode=sed "y/abc/def/"', 'rex mode=sed "{s}"', 'rex max_match={m} "(?<{f}>x)"', 'rex offset_field={f} "(?<{f}>x)"', 'rex mode=nosuch "(?<{f}>x)"',
    'rex "(?<{f}>x)" {f}', 'rex field={f}', "rex", "regex", "regex {f}~b", 'regex "{s}" "{s}"', "regex {f}=",
    "bin bins={n} {f}", "bin minspan=1h {f}", "bin start=1 {f}", "bin end=9 {f}", "bin aligntime=x span=1h {f}", "bin span=1h {f} as",
    "addtotals col=true", "addtotals col=true {f} {f}", "addtotals row=false {f}", "addtotals row=false col=true {f}", "addtotals row=f {f}",
    "convert dur2sec({f}) as", "convert {f}", "fillnull value=0 {f}={n}", "spath", "spath output={f}", "spath input={f}",
    "join", "join {f}", "join type=full {f} [search {f}=1]", "join type=nosuch {f} [search {f}=1]", "join type=cross {f} [search {f}=1]", "join max={m} {f} [search {f}=1]", "join max=0 {f} [search {f}=1]", "join {f} [search {f}=1] {f}",
    "join {f} [search {f}=1", "join {f} search {f}=1]",
    "lookup t {f} OUTPUTNEW {f}", "lookup t {f} OUTPUTNEW {f} as {f}", "lookup t {f} as", "lookup t {f} OUTPUT", "lookup", "multisearch [search {f}=1]", "multisearch", "multisearch [search {f}=1] [search {f}=2] {f}",
    "stats", "stats count by", "stats count({f}, {f})", "stats avg()", "stats max", "stats sum({f}) as", "stats count as", "stats by {f}", "stats median({f}, {f})", "stats percentile({f})",
    "datamodel {f} {f}", "datamodel", "datamodel {f}", "datamodel {f} {f} flat", "datamodel {f} {f} acceleration_search",
    "tstats prestats=true count", "tstats append=true count", "tstats count from sid={n}", "tstats prestats=true count from datamodel={f}", "tstats append=true count from datamodel={f}", "tstats", "tstats count by", "tstats count from",
    "eval {f}", "eval {f}=", "eval {f}=1 {f}=2", "eval {f}=1,", "eval ={n}", "eval {f}={f} {f}", "where", "where {f}=", "where ({f}=1", "where {f}=1)", 'where {f}="{s}', 'eval {f}="{s}',
    "search {f}=", "search =1", "search ({f}=1", "search {f}=1)", "search {f} ~ {f}", "search [search {f}=1]", "search {f}=[search {f}=1]", "search {f}=1 AND", "search NOT", "search {f}>*", "search {f}<a*", "search {f}>=*a", "search OR {f}=1",
    "search {f}=1 OR", "search ()", "search {f} IN (1", "search {f} IN 1)",
    "eval {f}=len()", "eval {f}=len({f}, {f})", "eval {f}=if({f}=1, 2)", "eval {f}=if({f}=1, 2, 3, 4)", "eval {f}=case({f}=1)", "eval {f}=case()", "eval {f}=mvindex({f}, -1, 2)", "eval {f}=mvindex({f}, 1, -2)", "eval {f}=random({n})",
    'eval {f}=relative_time({f}, "nosuch")', "eval {f}=relative_time({f})", "eval {f}=substr({f})", "eval {f}=round()", "eval {f}=round({f}, 1, 2)", "eval {f}=replace({f}, \"a\")", "eval {f}=split({f})", "eval {f}=pow({f})", "eval {f}=now({f})",
    "eval {f}=nullif({f})", "eval {f}=upper()", "eval {f}=upper({f}, {f})", "eval {f}=like({f})", "eval {f}=match({f})", "eval {f}=strftime({f})", "eval {f}=strptime({f})", "eval {f}=mvindex({f})", "eval {f}=log({f}, 2, 3)", "eval {f}=abs()",
]
FUNCTIONS = """
lookup searchmatch isbool isint isnum isstr typeof json_object json_append json_array json_array_to_mv json_extend json_extract json_extract_exact json_set json_set_exact sigfig commands mvdedup mvfilter
mvfind mvjoin mvmap mvrange mvsort mv_to_json_array spath
""".split()
STAT_FUNCTIONS = "estdc_error per_day per_hour per_minute per_second rate_avg rate_sum".split()
ARGS = ["", "{f}", '{f}, "{s}"', "{f}, {f}, {f}", "{n}", '"{s}", {f}', "{f}={n}", "{f} + {n}", "{f}, {n}"]
# Only in the standalone mode: the runtime has them
STANDALONE = ['eval {f}=printf("%d", {f})', 'eval {f}=tostring({f}, "hex")', 'eval {f}=tostring({f}, "commas")', "eval {f}=tonumber({f}, 16)", 'eval {f}=ipmask("255.0.0.0", {f})', "eval {f}=len(printf(\"%d\", {f}))", "where printf(\"%d\", {f})=1"]


class CHECK(Check):
    id = "C25"
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)
    rule = "distinct pipelines with one command, form, option or function in them that has no translation; both modes must refuse each of them while they accept the same pipeline without it"
    assumptions = ["functions of unknown names become PySpark functions of these names by design and are left out; so are options that are read and have no effect"]

    def fill(self, rng, t):
        out = t
        while "{f}" in out:
            out = out.replace("{f}", rng.choice("a b src_ip count2 user dest x1 field_1".split()), 1)
        while "{n}" in out:
            out = out.replace("{n}", str(rng.choice((1, 2, 5, 10, 100))), 1)
        out = out.replace("{m}", str(rng.choice((2, 3, 10))))
        while "{s}" in out:
            out = out.replace("{s}", rng.choice(("x", "a b", "1", "é", "x|y")), 1)
        return out

    def nested(self, rng, f, args):
        e = f"{f}({args})"
        k = rng.random()
        if k < 0.4:
            return "eval x=" + e
        if k < 0.55:
            return "eval x=" + rng.choice(["len({})", "if(a=1, {}, 2)", "coalesce(a, {})", "abs({})", "case(a=1, 2, b=1, {})", "mvappend(a, {})", "upper(lower({}))"]).format(e)
        if k < 0.7:
            return "eval x=" + rng.choice(["{} + 1", "a . {}", "1 - {}", "({}) * 2", "-{}"]).format(e)
        if k < 0.9:
            return "where " + rng.choice(["{}=1", "a=1 OR {}>2", "NOT {}=1", "({}=1) AND b=2"]).format(e)
        return "eval y=1, x=" + e + ", z=2"

    def pick(self, rng):
        """The text of what has no translation, whether it must come first, and the modes to refuse it."""
        k = rng.random()
        both = (False, True)
        if k < 0.22:
            c = rng.choice(COMMANDS)
            c = rng.choice((c, c, c.upper(), c.title()))
            t = self.fill(rng, rng.choice(TAILS))
            return "command", (c + " " + t).strip(), both
        if k < 0.38:
            return "parsed", self.fill(rng, rng.choice(PARSED)), both
        if k < 0.72:
            return "form", self.fill(rng, rng.choice(FORMS)), both
        if k < 0.88:
            return "function", self.nested(rng, rng.choice(FUNCTIONS), self.fill(rng, rng.choice(ARGS))), both
        if k < 0.94:
            f = rng.choice(STAT_FUNCTIONS) + "(" + self.fill(rng, rng.choice(ARGS[:4])) + ")"
            return "stats function", rng.choice(("stats {}", "stats count {}", "stats {} as b", "stats {} by c", "stats count, {}, max(a)", "stats max(a) {} by b")).format(f), both
        return "standalone function", self.fill(rng, rng.choice(STANDALONE)), (False,)

    def run(self, rng, i):
        kind, bad, modes = self.pick(rng)
        g = CmdGen(rng)
        before = ["index=main"] + ["search a=1", "eval q=1", "where b=2", "table a, b", "head 3", "stats count by a", "fields a", "rename a as r"][: rng.randint(0, 8)]
        rng.shuffle(before[1:])
        before = before[: rng.randint(1, 4)]
        if rng.random() < 0.4:
            before = [spell(g.pipeline(level=1).text, rng)]
            if "| tail" in before[0] or "`" in before[0]:
                raise Skip("tail")
        after = rng.choice([[], [], ["head 5"], ["table a"], ["eval z=1", "where z=1"], ["stats count"]])
        shape = rng.choice(("{}", "{}", "{}", "index=o | join k [{}]", "multisearch [index=o] [{}]", "multisearch [{}] [index=o]", "index=o | join k [index=p | join k [{}]] | head 2"))
        join = rng.choice((" | ", "|", "\n| "))
        good = shape.format(join.join(before + after))
        q = shape.format(join.join(before + [bad] + after))
        for runtime in modes:
            try:
                api.render(good, runtime)
            except api.Rejected:
                raise Skip("the pipeline itself is refused") from None
            try:
                code = api.render(q, runtime)
            except api.Rejected as e:
                self.observed[f"{kind}: refused " + ("by the parser" if str(e).startswith("ValueError") else "by the renderer")] += 1
                continue
            raise Violation(f"a {kind} without translation is accepted (allow_runtime={runtime}): {q!r}\n{code[:1500]}")
        return q, q[:200]

    def fixed_cases(self):
        out = []
        for t in [c + " a" for c in COMMANDS] + COMMANDS + PARSED + FORMS:
            out.append((t, [self.plain(t), [False, True]]))
        for f in FUNCTIONS:
            for a in ARGS:
                out.append((f"{f}({a})", [f"eval x={f}({self.plain(a)})", [False, True]]))
        for f in STAT_FUNCTIONS:
            for a in ARGS[:4]:
                out.append((f"stats {f}({a})", [f"stats {f}({self.plain(a)})", [False, True]]))
        for t in STANDALONE:
            out.append((t, [self.plain(t), [False]]))
        return out

    def plain(self, t):
        return t.replace("{f}", "a").replace("{n}", "3").replace("{m}", "2").replace("{s}", "x")

    def run_fixed(self, name, value):
        bad, modes = value
        for runtime in modes:
            q = "index=main | " + bad
            try:
                code = api.render(q, runtime)
            except api.Rejected:
                self.observed["fixed forms refused"] += 1
                continue
            raise Violation(f"accepted without a translation (allow_runtime={runtime}): {q!r}\n{code[:1500]}")
        return name, name
