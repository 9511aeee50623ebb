"""Checks that run generated programs and compare everything they print with the model's."""
from .engine import Check
from . import client, common, progen, syntax


def walk(x):
    """All nodes of statements."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, (list, tuple)):
            if n and isinstance(n[0], str):
                yield n
            stack.extend(y for y in n if isinstance(y, (list, tuple)))


class ProgCheck(Check):
    weights = {}
    opts = {}
    kinds = ()          # nontrivial: at least `least` nodes of these kinds
    least = 2
    mode = client.EXEC

    def gen(self, s):
        o = dict(self.opts)
        return common.padded(s, progen.ProgGen(s, self.weights, **o).program())

    def steps(self, case):
        return 20000

    def show(self, case):
        return syntax.source(case)[0]

    def test(self, case, env):
        f, it, st = common.judge(case, env, self.mode, max_steps=self.steps(case))
        n = {}
        for x in walk(case):
            n[x[0]] = n.get(x[0], 0) + 1
        labels = ["status%d" % st] + ["has:" + k for k in self.kinds if k in n]
        return f, labels, sum(n.get(k, 0) for k in self.kinds) >= self.least and len(it.out) > 0
