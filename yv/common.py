"""Judging a run of the real thing against the model."""
from . import client, model, syntax
from .engine import Discard

KIND = {model.TYPE: "TypeError", model.DIVZ: "DivisionByZeroError", model.VALUE: "ValueError",
        model.ASSERT: "AssertError", model.OVERFLOW: "StackOverflow"}


def latin(b):
    return b.decode("latin-1")


def model_run(stmts, **kw):
    """-> (interp, status, text of the program)"""
    src, lines = syntax.source(stmts)
    it = model.Interp(**kw)
    it.line = lines
    try:
        st = it.run(stmts)
    except RecursionError:
        raise Discard("model recursion")
    it.expected = model.cat(*it.out) if it.out else ""
    return it, st, src


def crashed(r):
    """Failure message if the run died."""
    if r.crash == "cpu":
        return "hang: the program didn't end in time"
    if r.crash:
        err = latin(r.err)
        import re
        m = re.search(r"ERROR: (AddressSanitizer|MemorySanitizer): ([\w-]+)|runtime error: (.*)", err)
        what = (m.group(2) or m.group(3)) if m else ""
        return f"crash: {r.crash} {what} {err[:400]!r}"
    return None


def verdict(it, st, r):
    """None, or how the run differs from the model's."""
    c = crashed(r)
    if c:
        return c
    out, err = latin(r.out), latin(r.err)
    if not model.matches(it.expected, out):
        return f"output: expected {model.show_text(it.expected)[-1500:]!r} (status {st}), got {out[-1500:]!r} " \
               f"(status {r.status}, {err[:200]!r})"
    if r.status != st:
        return f"status: expected {st} ({it.err.msg if st > 1 else ''}), got {r.status} ({err[:200]!r})"
    if st <= 1 and err:
        return f"stderr: {err[:300]!r} though the program succeeds"
    if st > 1 and not err.startswith(KIND[st]):
        return f"stderr: expected a {KIND[st]}, got {err[:300]!r}"
    return None


def judge(stmts, env, mode=client.EXEC, **kw):
    it, st, src = model_run(stmts, **kw)
    return verdict(it, st, env.run(mode, src)), it, st


def padded(s, body, num=4):
    """The program, sometimes after code that isn't run but has more constants than fit in a byte."""
    if not s.chance(num):
        return body
    n = s.choice([120, 250, 254, 255, 256, 257, 300])
    k = s.draw(3)
    f = [lambda i: "K%d" % i, lambda i: 1000 + i, lambda i: i + 0.25][k]
    return [["if", [(("lit", False), [["echo", ("list", [("lit", f(i)) for i in range(n)])]])], None]] + body
