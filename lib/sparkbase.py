"""Checks that execute generated code on a real local Spark session."""
import math
import os
import shutil
import tempfile

import api
from harness import Check, Violation

HEAP = "700m"


def start_spark(workdir):
    os.environ.setdefault("SPARK_LOCAL_DIRS", workdir)
    os.environ["PYSPARK_SUBMIT_ARGS"] = f"--driver-memory {HEAP} --driver-java-options '-XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Xss4m -Dlog4j2.level=OFF -Duser.timezone=UTC' pyspark-shell"
    from pyspark.sql import SparkSession

    spark = (
        SparkSession.builder.master("local[1]")
        .config("spark.ui.enabled", "false")
        .config("spark.ui.showConsoleProgress", "false")
        .config("spark.sql.shuffle.partitions", "1")
        .config("spark.default.parallelism", "1")
        .config("spark.sql.warehouse.dir", os.path.join(workdir, "warehouse"))
        .config("spark.sql.session.timeZone", "UTC")
        .config("spark.sql.codegen.wholeStage", "false")
        .config("spark.sql.codegen.factoryMode", "NO_CODEGEN")
        .config("spark.sql.adaptive.enabled", "false")
        .config("spark.driver.host", "127.0.0.1")
        .config("spark.driver.bindAddress", "127.0.0.1")
        .config("spark.sql.dataFrameQueryContext.enabled", "false")
        .config("spark.python.sql.dataFrameDebugging.enabled", "false")
        .getOrCreate()
    )
    spark.sparkContext.setLogLevel("OFF")
    import logging

    for name in ("DataFrameQueryContextLogger", "SQLQueryContextLogger", "pyspark", "py4j"):
        logging.getLogger(name).setLevel(logging.CRITICAL + 10)
        logging.getLogger(name).disabled = True
    try:
        from pyspark.logger import PySparkLogger

        for name in ("DataFrameQueryContextLogger", "SQLQueryContextLogger"):
            PySparkLogger.getLogger(name).disabled = True
    except ImportError:
        pass
    return spark


class SparkCheck(Check):
    shards = 8
    quick = dict(cases=10**9, seconds=60)
    thorough = dict(cases=10**9, seconds=600)
    case_timeout = 240
    modes = (False, True)  # what generated code may use: PySpark alone, the runtime library

    def setup(self):
        self.workdir = tempfile.mkdtemp(prefix="spark-", dir=os.environ.get("TMPDIR", "/tmp"))
        os.chdir(self.workdir)
        self.spark = start_spark(self.workdir)
        from pyspark.sql import functions as F
        from spl_transpiler.runtime import commands, functions, udfs
        from spl_transpiler.runtime.utils import exec_with_return

        self.F, self.commands, self.functions, self.udfs, self.exec_with_return = F, commands, functions, udfs, exec_with_return
        self.spark.udf.register("cidr_match", udfs.cidr_match)
        self.prepare()

    def prepare(self):
        pass

    def teardown(self):
        shutil.rmtree(self.workdir, ignore_errors=True)

    def scope(self):
        return dict(spark=self.spark, F=self.F, commands=self.commands, functions=self.functions, udfs=self.udfs)

    def render(self, q, runtime):
        return api.must_render(q, runtime)

    def execute(self, code):
        """The data frame that generated code returns."""
        return self.exec_with_return(code, self.scope(), {})

    def rows(self, code, what):
        """The rows that generated code returns, as dictionaries; an exception is a violation."""
        from py4j.protocol import Py4JError
        from pyspark.errors import PySparkException

        try:
            df = self.execute(code)
            names = df.columns
            return names, [tuple(r) for r in df.collect()]
        except (PySparkException, Py4JError, ValueError, TypeError, NameError, AttributeError, SyntaxError, KeyError, IndexError, RecursionError, NotImplementedError) as e:
            raise Violation(f"{what}\ngenerated code fails: {type(e).__name__}: {str(e)[:700]}\n{code}") from None

    # -------------------------------------------------------------------- tables

    def table(self, name, schema, rows):
        """A temporary view holding these rows; schema: [(name, SQL type)]"""
        self.frame(schema, rows).createOrReplaceTempView(name)

    def frame(self, schema, rows):
        values = ", ".join("(" + ", ".join(sql(v, t) for v, (_, t) in zip(r, schema)) + ")" for r in rows)
        names = ", ".join(f"`{n}`" for n, _ in schema)
        if not rows:
            values = "(" + ", ".join(sql(None, t) for _, t in schema) + ")"
            return self.spark.sql(f"SELECT * FROM VALUES {values} AS t({names}) WHERE 1 = 0")
        return self.spark.sql(f"SELECT * FROM VALUES {values} AS t({names})")


def sql(v, t):
    if v is None:
        return f"CAST(NULL AS {t})"
    if t.startswith("array<"):
        inner = t[6:-1]
        if not v:
            return f"CAST(array() AS {t})"
        return "array(" + ", ".join(sql(x, inner) for x in v) + ")"
    if t == "string":
        return "'" + v.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"
    if t == "boolean":
        return "true" if v else "false"
    if t == "timestamp":
        return f"TIMESTAMP '{v:%Y-%m-%d %H:%M:%S.%f}'"
    if t == "double":
        return f"CAST('{v!r}' AS DOUBLE)"
    return f"CAST({v} AS {t})"


def same_value(a, b):
    """Whether a value of Spark is the expected one; numbers up to rounding."""
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b
