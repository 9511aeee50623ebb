"""Checks that run a history of inputs on one state and compare each with the model."""
from .engine import Check
import re
from . import client, common, model, syntax

FNTEXT = re.compile(r"<fn: -?\w+>")


def model_hist(parts, repl=True, **kw):
    """-> (interp, [(status, text)], [source])"""
    it = model.Interp(**kw)
    env = model.base_env(it)
    res, srcs = [], []
    for p in parts:
        src, lines = syntax.source(p)
        srcs.append(src)
        it.line = lines
        it.out = []
        if repl and p and p[-1][0] == "expr":
            # the value of a last expression is shown
            last = ["echo", p[-1][1]]
            lines[id(last)] = lines[id(p[-1])]
            p = p[:-1] + [last]
        st = it.run(p, env)
        env = it.end_env
        it.depth = 0
        res.append((st, model.cat(*it.out) if it.out else ""))
    return it, res, srcs


def judge(parts, env, mode=client.REPL, **kw):
    it, res, srcs = model_hist(parts, repl=mode == client.REPL, **kw)
    r = env.run(mode, *srcs)
    c = common.crashed(r)
    if c:
        return c, res
    outs = r.outs()
    if len(outs) != len(res):
        return f"steps: {len(outs)} of {len(res)} inputs ran", res
    for i, ((st, text), out) in enumerate(zip(res, outs)):
        out = common.latin(out)
        if kw.get("fntext"):
            out = FNTEXT.sub("<fn: ?>", out)
        if not model.matches(text, out):
            return f"output: input {i}: expected {model.show_text(text)[-1500:]!r} (status {st}), got {out[-1500:]!r} " \
                   f"(status {r.statuses[i]}, {r.err[-200:]!r})", res
        if r.statuses[i] != st:
            return f"status: input {i}: expected {st}, got {r.statuses[i]} ({r.err[-200:]!r})", res
    want = [common.KIND[st] for st, _ in res if st > 1]
    got = [l.split(":")[0].split(" (")[0].rstrip(".") for l in common.latin(r.err).split("\n") if l and not l.startswith("In function call")]
    if want != got:
        return f"stderr: expected {want}, got {r.err[-300:]!r}", res
    return None, res


class HistCheck(Check):
    def show(self, case):
        return "\n---\n".join(syntax.source(p)[0] for p in case)

    def test(self, case, env):
        huge = any(st[0] == "cfor" and st[3][3][1] > 5000 for p in case for st in p)
        f, res = judge(case, env, max_steps=1200000 if huge else 60000)
        n = sum(len(p) for p in case)
        labels = ["inputs", *("status%d" % st for st, _ in res)]
        if huge:
            labels.append("huge")
        return f, labels, self.nontrivial(case, res)

    def nontrivial(self, case, res):
        return sum(len(p) for p in case) >= 8
