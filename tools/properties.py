prop(
    "C03", "Text of a query reaches the rendered code character for character",
    "Every string value, quoted field name and pattern of a query appears in the rendered Python code as a literal that evaluates to exactly the text the query denotes, but for names of groups that Java refuses. No text of a query, whatever quotes, backslashes, line breaks, braces or code fragments it holds, changes the structure of the rendered code or runs as code.",
    ["inputs"], "all string values, field names and patterns, in every place of a command that takes them, in both runtime modes",
    TESTS + " Their strings hold almost no quotes, backslashes, control characters or non-ASCII text; the guarantee is about all strings in all positions.",
    ["src/spl/parser.rs", "src/pyspark/ast.rs", "src/pyspark/utils.rs", "src/pyspark/mod.rs"],
    [("literal rendering", "src/pyspark/ast.rs, src/pyspark/utils.rs"), ("string parsing and unescaping", "src/spl/parser.rs")],
    PLAN, PLAN_NOTE,
)
prop(
    "C04", "Operators group as SPL precedence and parentheses say",
    "The rendered condition or expression applies arithmetic, concatenation, comparison and boolean operators with the grouping of the SPL text: by precedence, from left to right among equals, and by its parentheses, however deep. In a search adjacent terms are joined by AND and OR binds tighter; in where AND binds tighter.",
    ["inputs"], "all expressions and conditions in search, where and eval, of any size and nesting",
    TESTS + " A handful of expressions with at most three operators; grouping errors show only for particular mixes of operators on particular sides.",
    ["src/spl/parser.rs", "src/spl/operators.rs", "src/pyspark/ast.rs", "src/pyspark/transpiler"],
    [("operator precedence parsing", "src/spl/parser.rs, src/spl/operators.rs"), ("parentheses in rendered code", "src/pyspark/ast.rs")],
    PLAN, PLAN_NOTE + " One known finding (eval's OR and AND), pinned by its input.",
)
prop(
    "C05", "search and where keep exactly the rows that their conditions describe",
    "The filter rendered for search and where tests each named field with the operator, wildcards, address range or set of values that the condition states, negated where it says so, and takes index terms as the table to read. No term is dropped, duplicated or applied to another field.",
    ["inputs"], "all conditions of search and where, alone or after other commands, in both runtime modes",
    TESTS + " They fix some forms of terms; the guarantee spans every combination of field, operator, kind of value and negation.",
    ["src/commands/cmd_search", "src/commands/cmd_where", "src/spl/parser.rs", "src/pyspark/mod.rs", "src/spl/utils.rs"],
    [("index and condition split", "src/commands/cmd_search"), ("wildcards and address ranges", "src/pyspark/mod.rs")],
    PLAN, PLAN_NOTE,
)
prop(
    "C06", "eval computes each assignment with the functions it names",
    "Every assignment of eval becomes the definition of that field, in order, by an expression that applies the named functions to the arguments in their order, whatever the nesting. Functions with optional arguments behave as documented for each number of arguments.",
    ["inputs"], "all eval expressions over the supported functions, at any nesting, in both runtime modes",
    TESTS + " One or two calls per function with fixed arguments; argument order, optional arguments and nesting combine without limit.",
    ["src/functions/eval_fns.rs", "src/functions/mod.rs", "src/functions/shared.rs", "src/commands/cmd_eval", "src/pyspark/alias.rs"],
    [("function translation", "src/functions/eval_fns.rs"), ("alias statements", "src/pyspark/alias.rs")],
    PLAN, PLAN_NOTE,
)
prop(
    "C07", "head, sort and tail keep the number and order of rows they state",
    "head keeps the stated number of first rows, tail the last ones, and sort orders by the listed fields, each in its own direction, up to its limit. The count or limit in the rendered code is the number in the query.",
    ["inputs"], "all forms of head, sort and tail, after any command",
    TESTS + " One to three queries per command with particular numbers and fields.",
    ["src/commands/cmd_head", "src/commands/cmd_sort", "src/commands/cmd_tail", "src/spl/parser.rs"],
    [("row counts", "src/commands/cmd_head, src/commands/cmd_tail"), ("sort keys", "src/commands/cmd_sort")],
    PLAN, PLAN_NOTE,
)
prop(
    "C08", "Commands that reshape columns touch exactly the columns they name",
    "fields, table, rename, fillnull, eval, addtotals, convert, bin and makeresults produce, keep, drop, rename, fill or convert exactly the columns that the query names, in the order named, with the options given. All other columns pass unchanged.",
    ["inputs"], "all field lists (quoted, unusual and repeated names), options and their combinations for these commands, in both runtime modes",
    TESTS + " A few short field lists of plain names per command, most options at one value.",
    ["src/commands/cmd_fields", "src/commands/cmd_table", "src/commands/cmd_rename", "src/commands/cmd_fill_null", "src/commands/cmd_add_totals", "src/commands/cmd_convert", "src/commands/cmd_make_results", "src/commands/cmd_bin"],
    [("per-command translation", "src/commands/*/pyspark.rs"), ("options", "src/commands/spl.rs")],
    PLAN, PLAN_NOTE,
)
prop(
    "C09", "Extraction commands use the query's own pattern, paths and fields",
    "rex defines one column per named group of its pattern from the stated field; spath reads the stated path into the stated column; regex keeps or drops the rows whose field matches. Group numbers, flags and field names correspond to the pattern of the query.",
    ["inputs"], "all patterns (nested, unnamed and named groups, escapes, character classes), paths and options of these commands",
    TESTS + " A dozen patterns with simple group structure; the numbering of groups depends on the whole pattern.",
    ["src/commands/cmd_rex", "src/commands/cmd_regex", "src/commands/cmd_s_path", "src/commands/regex_utils.rs"],
    [("group discovery", "src/commands/regex_utils.rs")],
    PLAN, PLAN_NOTE,
)
prop(
    "C10", "Aggregations compute the stated functions, names and groupings",
    "stats, tstats, top, rare and datamodel aggregate with the functions the query lists, over their stated fields, into the stated or default names, grouped by exactly the listed fields. Options such as limits, counts, time spans, filters and model names carry over unchanged.",
    ["inputs"], "all lists of aggregations, aliases, groupings and options, in both runtime modes",
    TESTS + " Each function once or twice, mostly one per query; names, groupings and options combine without limit.",
    ["src/commands/cmd_stats", "src/commands/cmd_t_stats", "src/commands/cmd_top", "src/commands/cmd_rare", "src/commands/cmd_data_model", "src/commands/stats_utils.rs", "src/functions/stat_fns.rs"],
    [("aggregation translation", "src/functions/stat_fns.rs"), ("grouping", "src/commands/stats_utils.rs")],
    PLAN, PLAN_NOTE,
)
prop(
    "C11", "A pipeline applies all its commands, once each and in order",
    "The rendered code of a pipeline applies the translation of each command to the result of the one before it, exactly once, in the order written, and yields the result of the last. This holds in both runtime modes, with subsearches at any nesting, however runtime and standalone commands alternate.",
    ["programs"], "all pipelines of supported commands, of any length, order and nesting of subsearches",
    TESTS + " Most tests have one to three commands; the bookkeeping of intermediate results depends on the whole sequence and on nesting.",
    ["src/pyspark/mod.rs", "src/pyspark/base.rs", "src/pyspark/transpiler", "src/spl/ast.rs"],
    [("numbering of intermediate results", "src/pyspark/base.rs"), ("ordering of statements", "src/pyspark/transpiler")],
    PLAN, PLAN_NOTE,
)
prop(
    "C12", "Commands that combine data sets use the stated sources, keys and fields",
    "join, multisearch and lookup combine the current rows with exactly the stated subsearches or table, on the stated keys, with the stated kind of join, and bring in the stated fields under the stated names. Each subsearch is evaluated as a pipeline of its own.",
    ["programs", "inputs"], "all subsearches, key lists, field mappings and options of these commands, in both runtime modes",
    TESTS + " A few fixed forms with trivial subsearches.",
    ["src/commands/cmd_join", "src/commands/cmd_multi_search", "src/commands/cmd_lookup"],
    [("combination", "src/commands/cmd_join, src/commands/cmd_multi_search, src/commands/cmd_lookup")],
    PLAN, PLAN_NOTE,
)
prop(
    "C15", "Spelling without meaning does not change the translation",
    "Queries that differ only in whitespace between words, in line breaks, in the letter case of keywords and command names, or in a leading pipe are translated to code with the same effect. If one of them is accepted, so are the others.",
    ["inputs"], "all pairs of spellings of one query",
    TESTS + " They use one spelling per query.",
    ["src/spl/parser.rs"],
    [("whitespace and keyword parsing", "src/spl/parser.rs")],
    "runtime monitoring: metamorphic comparison of the recorded executions of the code for two spellings of one query", PLAN_NOTE,
)
prop(
    "C01", "Every text is answered: with code, a tree or an ordinary error, in time",
    "For every text, parsing, macro detection and rendering (formatted or not, in both runtime modes) end with a result or with an ordinary catchable error: ValueError from the parser, ValueError or RuntimeError from the renderer. None of them panics, kills the process, runs forever or takes time out of proportion to the text.",
    ["inputs"], "all Unicode texts, well-formed or not, of any length and nesting",
    TESTS + " They parse well-formed queries and a few malformed ones; a panic, an overflow or a blow-up needs a particular text.",
    ["src/spl/parser.rs", "src/spl/macros.rs", "src/lib.rs", "src/pyspark", "src/functions", "src/commands", "src/format_python.rs"],
    [("parser", "src/spl/parser.rs"), ("entry points", "src/lib.rs"), ("numeric conversions and indexing", "src/functions, src/commands")],
    "runtime monitoring: hostile, mutated and deeply nested texts in worker processes watched for panics, deaths by signal, wrong exception types and processor time",
    "Judges every text completely; which texts is a matter of random generation. Deep nesting that overflows the stack is a known finding, pinned by three inputs; nesting beyond 60 levels is otherwise left out.",
)
prop(
    "C02", "Code given for a query is Python that runs",
    "Whenever the transpiler accepts a query, the code is valid Python that executes with only the names its documentation imports, yields a data frame, and calls PySpark and the runtime library only with functions, parameters and kinds of arguments that they have. Formatting on or off makes no difference to that.",
    ["inputs"], "all texts that the transpiler accepts, including odd mixtures of valid parts, in both runtime modes",
    TESTS + " The code for a handful of queries is ever run; whether a call fits the API depends on the function, the number and the kind of its arguments.",
    ["src/pyspark", "src/functions", "src/commands", "python/spl_transpiler/runtime"],
    [("rendering", "src/pyspark/ast.rs, src/pyspark/utils.rs"), ("translation of functions and commands", "src/functions, src/commands")],
    "runtime monitoring: the code is compiled and executed against stand-ins that check each call against the signatures of the installed PySpark and of the runtime library",
    "Stand-ins for Spark check the API's signatures and kinds of arguments, not types of columns. Three known findings, pinned by inputs and recognised by their call.",
)
prop(
    "C13", "The same query always gives the same code",
    "Translating a query gives the same code every time: in one process or another, whatever was translated before or at the same time in other threads, whatever the hash seed, locale or time zone. Rendering does not alter the syntax tree it is given.",
    ["schedules", "histories", "inputs"], "all queries, histories of earlier translations and interleavings of threads",
    TESTS + " Each query is translated once, in one process and one thread; an order that depends on hashing or a shared counter varies between runs only.",
    ["src/pyspark/base.rs", "src/commands/cmd_search", "src/lib.rs", "src/format_python.rs"],
    [("translation context", "src/pyspark/base.rs"), ("combination of indices", "src/commands/cmd_search")],
    "runtime monitoring: renderings of one query by several processes, threads and histories are logged and compared byte for byte",
    "Thread interleavings come from stress, not from a scheduler; each query is rendered about a dozen times.",
)
prop(
    "C14", "Formatting changes the layout of the code and nothing else",
    "The code given with formatting has the same Python syntax tree as the code given without it, for every query and in both runtime modes. Formatting never fails a translation that succeeds without it, and formatting is the default.",
    ["inputs"], "all queries that are accepted, with any text in their literals",
    TESTS + " They format fixed queries, whose literals hold nothing that a formatter could disturb.",
    ["src/format_python.rs", "src/lib.rs"],
    [("formatting through black", "src/format_python.rs")],
    "runtime monitoring: both renderings of each query are recorded and their Python syntax trees compared; faults are injected into the formatter",
    "The comparison is complete for each query; coverage is by random generation.",
)
prop(
    "C17", "Macro calls in a text are found exactly, and nothing between them is lost",
    "Detecting macros splits a text into its macro calls, each with its name and its arguments by position or by name as written, and the exact text before, between and after them. Backticks, commas and parentheses within quoted arguments belong to the argument, and backticks that form no call are refused.",
    ["inputs"], "all texts, with any number of calls of any arguments",
    TESTS + " Five texts with simple calls; what belongs to a call depends on nesting, quoting and whitespace.",
    ["src/spl/macros.rs", "src/spl/parser.rs", "src/lib.rs"],
    [("macro detection", "src/spl/macros.rs")],
    "runtime monitoring: detection of texts made from known calls is compared with those calls; for any accepted text a checker confirms that the detected parts cover it",
    "Judges each text completely; coverage is by random generation.",
)
prop(
    "C18", "Expanding macros puts definitions and arguments in place of calls",
    "Substitution replaces every macro call, at any depth of nesting, by its definition with each placeholder replaced by its argument's text, taken literally, and leaves all other text alone but for trailing pipes and outer whitespace. Calls whose arguments do not fit the macro's in number or name are refused, and parsing with macros equals parsing the substituted text.",
    ["inputs", "programs"], "all queries and sets of macros that do not call themselves without end",
    TESTS + " One test with two macros; values that look like placeholders, escapes or patterns, and nesting, are untested.",
    ["python/spl_transpiler/macros.py", "src/spl/macros.rs"],
    [("substitution", "python/spl_transpiler/macros.py")],
    "runtime monitoring: each substitution is compared with the expansion by a reference interpreter of our own",
    "Judges each query completely; coverage is by random generation over layered macros.",
)
prop(
    "C19", "Macro loaders give the definition that belongs to a name, and no other",
    "A registry gives what was last registered under a name; a folder gives the single file of that name and suffix anywhere below it and refuses ambiguity; a combination gives the answer of the first loader that knows the name, then of its fallback. Unknown names are reported as missing, and no loader's answers leak into another's.",
    ["histories"], "all histories of registrations, file creations and lookups over any nesting of loaders",
    TESTS + " Loaders are not tested except through one plain dictionary.",
    ["python/spl_transpiler/macros.py"],
    [("loaders", "python/spl_transpiler/macros.py")],
    "runtime monitoring: histories of operations on real loaders and real folders are checked online against a model",
    "Every answer of each history is judged; coverage is by random generation of histories.",
)
prop(
    "C25", "What has no translation is refused, not dropped or changed",
    "A command, a form or option of a command, or a function that is documented or known as not translated is refused with an error, wherever it stands in a pipeline or expression. The transpiler never drops it silently or takes its text for something else, such as search terms.",
    ["inputs", "programs"], "all pipelines and subsearches that hold an untranslated command, form, option or function at any place, in both runtime modes",
    TESTS + " Hardly any test expects a refusal.",
    ["src/spl/parser.rs", "src/pyspark/transpiler/mod.rs", "src/functions/eval_fns.rs", "src/functions/stat_fns.rs", "src/commands"],
    [("refusals", "bail!/ensure! in src/commands, src/functions, src/pyspark/transpiler"), ("command dispatch", "src/spl/parser.rs")],
    "runtime monitoring: pipelines that are accepted without the untranslated part must be refused with it, in both modes",
    "Each form is tried alone on every run and within random pipelines; the list of forms is ours.",
)
prop(
    "C16", "Syntax trees are values that compare, hash, come apart and go together",
    "Parsing a text twice gives equal trees with equal hashes and the same printed form; trees that differ in any attribute are unequal. Trees cannot be altered, and a tree rebuilt from the attributes of its nodes through the public constructors equals the original and is rendered alike.",
    ["inputs"], "all parsed queries, all their nodes and all alterations of one attribute",
    TESTS + " The Python interface of the trees is not tested at all.",
    ["src/spl/ast.rs", "src/spl/python.rs", "src/commands"],
    [("Python classes of the tree", "src/spl/python.rs, src/spl/ast.rs, src/commands/*/spl.rs")],
    "runtime monitoring: a checker walks, compares, rebuilds, alters and renders the trees of generated and real queries",
    "Judges each tree completely but for nodes without public constructor; coverage is by random generation.",
)
SPARK = "runtime monitoring: generated code is executed on a real local Spark session; an online checker compares every value with a reference written from the documentation of SPL"
prop(
    "C20", "Whole pipelines return the rows that SPL defines",
    "Running the rendered code of a pipeline on any tables gives exactly the rows, in number, order and content, that its commands define one after the other, with exactly the fields they leave. Both runtime modes give the same rows, and subsearches contribute exactly their own.",
    ["inputs", "programs"], "all pipelines over search, where, eval, fields, table, rename, head, sort, stats, fillnull, rex, addtotals, lookup, convert, multisearch and join, and all tables, missing values included",
    TESTS + " Rendered code is compared as text there, and hardly ever run; what one command leaves for the next shows only when whole pipelines run.",
    ["src/pyspark/transpiler", "src/commands", "python/spl_transpiler/runtime/commands"],
    [("pipeline translation", "src/pyspark/transpiler"), ("commands", "src/commands"), ("runtime commands", "python/spl_transpiler/runtime/commands")],
    SPARK.replace("compares every value with a reference", "compares all rows with a reference interpreter of SPL"),
    "Judges every row of each generated pipeline on random tables; coverage is by random generation. Text compares by case, as in Spark. Known findings are pinned by their queries.",
)
prop(
    "C22", "Eval expressions compute on Spark the values that SPL defines",
    "An eval expression that is accepted gives, for every row, the value and type that SPL defines for it, missing fields and missing arguments included. Both runtime modes give the same values.",
    ["inputs", "programs"], "all well-typed expressions over the translated operators and functions, and all rows of a table, away from arithmetic errors",
    TESTS + " Only a few are ever run on Spark, on one or two rows.",
    ["src/functions/eval_fns.rs", "src/commands/cmd_eval", "src/pyspark/base.rs", "python/spl_transpiler/runtime/functions/eval.py", "python/spl_transpiler/runtime/udfs/__init__.py", "python/spl_transpiler/runtime/commands/eval.py"],
    [("translation of functions", "src/functions/eval_fns.rs"), ("runtime functions", "python/spl_transpiler/runtime/functions/eval.py, runtime/udfs/__init__.py")],
    SPARK,
    "Judges every value of each generated expression on random rows; coverage is by typed random generation of expressions. Trusts Spark and the reference.",
)
prop(
    "C26", "Time formats and relative times mean on Spark what they mean in SPL",
    "Formatting a time, parsing a text by a format that it fits, and moving and snapping a time by a relative time specifier give, for every time and time zone, what SPL defines, missing times included. Literal text in a format stays literal, and both runtime modes agree.",
    ["inputs", "programs"], "all formats of the translated variables and texts, all relative time specifiers, all nestings of them, and all times of rows",
    TESTS + " They compare a few formats as text.",
    ["src/functions/eval_fns.rs", "src/pyspark/transpiler/utils.rs", "src/spl/parser.rs", "python/spl_transpiler/runtime/functions/utils.py", "python/spl_transpiler/runtime/functions/eval.py"],
    [("time formats", "src/pyspark/transpiler/utils.rs, python/spl_transpiler/runtime/functions/utils.py"), ("relative times", "src/functions/eval_fns.rs, src/spl/parser.rs")],
    SPARK,
    "Judges every value of each generated expression on random times in several time zones; coverage is by random generation. Trusts Spark and the reference.",
)
prop(
    "C23", "Aggregations compute on Spark what SPL defines, group by group",
    "Every aggregation of a stats command gives, for every group of rows and whatever other aggregations stand beside it, the value that SPL defines: over present values only, by the order of rows or of time where it depends on one, and over the values of eval() where its argument is one. Both runtime modes agree.",
    ["inputs", "programs"], "all combinations of the translated aggregations, their arguments and groupings, and all tables, empty ones and missing values included",
    TESTS + " The code is compared as text; the runtime library's aggregations are run one at a time on a few rows, if at all.",
    ["src/functions/stat_fns.rs", "src/commands/stats_utils.rs", "src/commands/cmd_stats", "python/spl_transpiler/runtime/functions/stats.py", "python/spl_transpiler/runtime/commands/stats.py"],
    [("translation of aggregations", "src/functions/stat_fns.rs"), ("runtime aggregations", "python/spl_transpiler/runtime/functions/stats.py")],
    SPARK,
    "Judges every value of each generated command on random rows, ties and the freedom of approximate functions allowed for; coverage is by random generation. Known findings are pinned by their commands.",
)
prop(
    "C24", "The functions run as Python code in Spark are defined for every value",
    "Matching and masking addresses, formatting with printf, and converting numbers to and from text give the documented result for every well-formed value, and a missing value (or false, for matching) for malformed and missing ones. They never fail on, or confuse, borders such as prefix lengths, signs and large numbers.",
    ["inputs"], "all addresses, ranges, masks, formats, bases and values, well-formed or not, as constants and as columns",
    TESTS + " A handful of calls is tested, without malformed or missing values.",
    ["python/spl_transpiler/runtime/udfs/__init__.py", "python/spl_transpiler/runtime/functions/eval.py"],
    [("Python functions in Spark", "python/spl_transpiler/runtime/udfs/__init__.py")],
    SPARK.replace("generated code is executed", "the library's functions are called on random columns") ,
    "Judges every value by references independent of Python's own conversions (the C library's printf and inet_pton, digit by digit conversion); coverage is by random generation.",
)
prop(
    "C27", "Searches, data models and tstats read exactly the data the query names",
    "Code rendered for the runtime library asks the configured table lookup once for exactly the index, source, source type, host and further selectors or data model that the query states, and filters what it gets by the remaining conditions. The default lookup gives the rows of the table so named that carry the stated values, several indexes are read together, and an invalid setting of the lookup is refused.",
    ["inputs", "programs"], "all combinations of selectors and conditions, all tables and rows, all settings of the lookup",
    TESTS + " The lookup is replaced by a mock there.",
    ["python/spl_transpiler/runtime/config.py", "python/spl_transpiler/runtime/commands/search.py", "python/spl_transpiler/runtime/commands/data_model.py", "python/spl_transpiler/runtime/commands/tstats.py", "src/commands/cmd_search/pyspark.rs"],
    [("table lookup", "python/spl_transpiler/runtime/config.py"), ("selectors of a search", "src/commands/cmd_search/pyspark.rs")],
    SPARK.replace("compares every value with a reference", "compares rows and recorded lookups with a reference"),
    "Judges the rows and the recorded arguments of each generated query; coverage is by random generation.",
)
prop(
    "C28", "Memory stays sound and bounded, and threads do not disturb each other",
    "No text makes the native code read or write memory it does not own, and treating texts again and again does not use up memory. Threads that use the transpiler at the same time, from their very first calls on, all finish and get the answers that each would get alone.",
    ["inputs", "schedules"], "all texts, all numbers of repetitions, and all interleavings of threads and of their first calls",
    "Tests are single-threaded, short, and run without instrumentation.",
    ["src/lib.rs", "src/spl/python.rs", "src/pyspark/base.rs", "python/spl_transpiler/macros.py"],
    [("native interface", "src/lib.rs, src/spl/python.rs"), ("formatting through Python", "src/pyspark/base.rs"), ("shared loaders", "python/spl_transpiler/macros.py")],
    "runtime monitoring and sanitizers: AddressSanitizer on the whole extension under hostile texts, differentially to the ordinary build; heap meters over repetitions; threads with tiny switch intervals compared with a lone one",
    "Judges executions; coverage is by random generation and by the schedules that occur. The interpreter lock makes most interleavings equivalent.",
)
prop(
    "C21", "The runtime library means the same in every form of call, and by hand",
    "Each command and function of the runtime library gives the same rows whether its arguments are names or columns, texts or literals, positional or named, also in programs written by hand that mix it with PySpark. Programs executed with a returned value give the value of their last expression, and nothing else of them is changed.",
    ["inputs", "programs"], "all forms of arguments of all commands and functions, all programs, and all tables",
    TESTS + " Each function is called in one form, that of the rendered code or nearly so.",
    ["python/spl_transpiler/runtime/base.py", "python/spl_transpiler/runtime/utils.py", "python/spl_transpiler/runtime/commands", "python/spl_transpiler/runtime/functions/eval.py", "python/spl_transpiler/runtime/functions/stats.py"],
    [("conversion of arguments", "python/spl_transpiler/runtime/base.py"), ("execution with a returned value", "python/spl_transpiler/runtime/utils.py")],
    SPARK.replace("generated code is executed", "generated code is rewritten to other forms of its calls and executed"),
    "Judges every value of each rewritten program by the references of the other Spark checks; coverage is by random generation.",
)
