"""Pipelines as compositions of their commands."""
from plancheck import PlanCheck, compare
from cmds import CmdGen
from harness import Violation
from spl import C, spell
import fake


class CHECK(PlanCheck):
    id = "C11"
    depth = 1
    rule = PlanCheck.rule + "; pipelines of up to 40 commands, with nested subsearches in both runtime modes, and each prefix of some of them"

    def run(self, rng, i):
        g = CmdGen(rng)
        g.depth = rng.choice((0, 1, 1, 2))
        k = rng.random()
        n = rng.choice((1, 2, 3, 4, 5, 6)) if k < 0.9 else rng.randint(10, 40)
        level = rng.choice((0, 1, 1, 2))
        first = g.source(level)
        steps = [first] + [g.step(level) for _ in range(n)]
        steps = [s for j, s in enumerate(steps) if s.name != "tail" or j == len(steps) - 1]
        if rng.random() < 0.1:
            steps = steps[1:]
            while steps and steps[0].name == "search":
                steps = steps[1:]
            if not steps:
                steps = [first]
        # commands that start anew replace what came before them
        if rng.random() < 0.05 and steps[-1].name != 'tail':
            steps.insert(rng.randint(1, len(steps)), g.makeresults())
        p = g.pipeline(steps=steps)
        q = spell(p.text, rng if rng.random() < 0.5 else None)
        for runtime, want in ((False, p.sa(None)), (True, p.rt(None))):
            if want is None:
                continue
            compare(q, want, runtime, rng.random() < 0.02)
            self.observed["renderings compared"] += 1
            self.observed[f"commands in pipelines, runtime={runtime}"] += len(steps)
        for a, b in zip(steps, steps[1:]):
            self.observed["neighbours " + a.name + " | " + b.name] += 1
        return q, q[:400]
