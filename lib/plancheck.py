"""Checks that compare what rendered code does, command by command, with what a generated query means."""
import api
import fake
from cmds import CmdGen
from harness import Check, Skip, Violation
from spl import C, spell


def compare(q, want, runtime, fmt=False, tree=None):
    """Renders a query and runs the code against the stand-ins; both must come to the same plan."""
    code = api.must_render(q if tree is None else tree, runtime, fmt)
    try:
        got = fake.plan(code)
    except Exception as e:
        raise Violation(f"the code for {q!r} (allow_runtime={runtime}) fails: {type(e).__name__}: {e}\n{code}") from None
    d = fake.first_difference(got, want.plan)
    if d:
        raise Violation(
            f"query: {q}\nallow_runtime={runtime} format_code={fmt}\ncode:\n{code}\nat {d[0]}\n  the code does  {fake.show(d[1])[:1200]}\n  the query asks {fake.show(d[2])[:1200]}"
        )
    return code


def count_nodes(plan, observed):
    stack = [plan]
    while stack:
        n = stack.pop()
        if isinstance(n, tuple):
            if len(n) > 2 and isinstance(n[0], str):
                tag = n[0]
                if tag in ("fn", "cmd", "rt", "op"):
                    tag += " " + str(n[2] if tag == "rt" else n[1])
                if not tag.startswith(("col", "lit", "py")):
                    observed["plan node " + tag] += 1
            stack.extend(x for x in n if isinstance(x, tuple))


class PlanCheck(Check):
    """Pipelines with commands of `kinds`, at the start or after other commands."""

    kinds = ()
    depth = 2
    alone = 0.5  # how often the command is the only one
    quick = dict(cases=10**9, seconds=22)
    thorough = dict(cases=10**9, seconds=600)

    assumptions = [
        "the recording stand-ins for Spark and the runtime library tell apart all code that behaves differently",
        "the generator's own reading of SPL, from which it builds each query and its meaning side by side",
    ]
    rule = "distinct query texts whose code, run against recording stand-ins, was compared node by node with the plan the query was generated from, in both runtime modes"

    def make(self, g, rng):
        kind = rng.choice(self.kinds)
        c = getattr(g, kind)()
        if c.source:
            steps = [c]
        elif rng.random() < self.alone and kind not in ("later_search",):
            steps = [c]
        else:
            steps = [g.first_search(keyword=rng.random() < 0.9, depth=1) if rng.random() < 0.8 else g.makeresults()]
            if rng.random() < 0.3:
                steps.append(g.head())
            steps.append(c)
        if rng.random() < 0.25 and c.name != "tail":
            steps.append(g.table())
        return kind, g.pipeline(steps=steps)

    def run(self, rng, i):
        g = CmdGen(rng)
        g.depth = self.depth if rng.random() < 0.9 else self.depth + 1
        kind, p = self.make(g, rng)
        q = spell(p.text, rng if rng.random() < 0.7 else None)
        fmt = rng.random() < 0.02
        wants = [(False, p.sa(None)), (True, p.rt(None))]
        for runtime, want in wants:
            if want is None:
                continue
            compare(q, want, runtime, fmt)
            self.observed["renderings compared"] += 1
            self.observed["command " + kind] += 1
            if i % 7 == 0:
                count_nodes(want.plan, self.observed)
        return q, q[:300]
