"""The transpiler as its users call it, with the outcomes the checks tell apart."""
import spl_transpiler
from harness import Violation


class Rejected(Exception):
    """The query was refused with an ordinary error."""


def guard(f, *args, what="", **kw):
    try:
        return f(*args, **kw)
    except (ValueError, RuntimeError) as e:
        raise Rejected(f"{type(e).__name__}: {e}") from e
    except Exception as e:
        raise Rejected(f"{type(e).__name__}: {e}") from e
    except BaseException as e:  # PanicException derives from BaseException
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        raise Violation(f"{what} ends in {type(e).__name__}: {str(e)[:500]}") from None


def parse(q):
    return guard(spl_transpiler.parse, q, what=f"parse({q!r})")


def render(q, runtime=False, fmt=False):
    tree = parse(q) if isinstance(q, str) else q
    return guard(
        spl_transpiler.render_pyspark, tree, allow_runtime=runtime, format_code=fmt, what=f"render_pyspark({q!r}, allow_runtime={runtime}, format_code={fmt})"
    )


def must_render(q, runtime=False, fmt=False):
    """The code for a query of the supported language."""
    try:
        return render(q, runtime, fmt)
    except Rejected as e:
        raise Violation(f"a supported query is refused (allow_runtime={runtime}): {q!r}\n{str(e)[:600]}") from None
