"""C15: one textual form per value."""
import math
from ..engine import Check
from .. import client, common, gen, model, syntax
from .c12 import G as Vals, HELP

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
MARK = "\x02\x03"


class G(Vals):
    def scalar(self):
        s = self.s
        k = s.draw(10)
        if k <= 1:
            return gen.gfloat(s)
        if k == 2:
            return s.draw(1 << 64) / (1 << s.int(0, 64)) * s.choice([1, -1])
        if k == 3:
            return s.int(-10 ** 7, 10 ** 7) / 10 ** s.int(0, 8)
        if k == 4:
            return s.choice([-(1 << 63), (1 << 63) - 1, -1, 0, 10 ** s.draw(19), -10 ** s.draw(19)])
        v = super().scalar()
        if type(v) is str:
            v = v.replace("\2", "_")
        return v


class C15(Check):
    id = "C15"
    technique = ("property-based testing: every way of turning a generated value into text compared with each other and with a "
                 "reference model, and texts of numbers parsed back")
    note = ("Random search over nested and cyclic values; the order within tables and sets is left open but must be the same in every "
            "form; the text of functions is only compared between forms; echo drops NULs.")
    rule = ("programs that build 1-4 values (scalars, nested lists, tables, sets, cycles) and show each by echo, interpolation, ~, tostr "
            "and join, parse numbers back and show containers of them; non-trivial: a container with two elements, or a float or an int "
            "of 4 or more digits")
    quick = 45000
    thorough = 1200000

    def gen(self, s):
        g = G(s)
        body, names, n = [], [], s.int(1, 4)
        for i in range(n):
            v = g.value(s.draw(4))
            nm = "v%d" % i
            e = g.spell(v)
            if names and s.chance(30):
                e = ("list", [e, V(s.choice(names))]) if s.chance(50) else ("table", [(L(s.choice(["k", 1, 2.5])), V(s.choice(names))), (L("z"), e)])
            body.append(["let", nm, e])
            names.append(nm)
        opaque = False
        if s.chance(12):
            opaque = True
            body.append(["fndecl", "fu", [], [["return", [L(1)]]], False])
            body.append(["let", "v%d" % n, s.choice([V("fu"), ("list", [V("fu"), L(1)]), ("table", [(L("f"), V("fu"))]),
                                                     ("mem", V("math"), "abs"), ("fn", ["x"], [["return", [V("n0")]]])
                                                     if False else ("fn", ["x"], [["return", [V("x")]]])])])
            names.append("v%d" % n)
            n += 1
        cyc = None
        if s.chance(30):
            # references back
            cyc = s.draw(4)
            a, b = "w0", "w1"
            body += [["let", a, ("list", [L(1)])], ["let", b, ("table", [(L("a"), L(2))])]]
            x, y = V(a), V(b)
            body += [[["expr", ("mcall", x, "push", [x])]],
                     [["setidx", y, L("self"), y]],
                     [["expr", ("mcall", x, "push", [y])], ["setidx", y, L("l"), x]],
                     [["expr", ("mcall", x, "push", [("list", [x, y])])], ["setidx", y, L(3), ("list", [y, L(0)])],
                      ["expr", ("mcall", x, "push", [L(9)])]]][cyc]
            names += [a, b]
        for nm in names:
            x = V(nm)
            forms = [x, ("interp", ["", x, ""]), ("bin", "~", x, L("")), ("mcall", x, "tostr", []) if not opaque else ("interp", ["", x, ""]),
                     ("bin", "~", L(""), x), ("mcall", ("list", [x]), "join", [L(",")])]
            if s.chance(30):
                forms.append(("call", ("fn", ["q"], [["return", [("interp", ["", V("q"), ""])]]]), [x]))
            for f in forms:
                body.append(["echo", f])
                body.append(["echo", L(MARK)])
        # in company
        tail = []
        for _ in range(s.draw(3)):
            k = s.draw(5)
            xs = [V(s.choice(names)) for _ in range(s.int(1, 3))]
            if k == 0:
                tail.append(["echo", ("list", xs)])
            elif k == 1:
                tail.append(["echo", ("mcall", ("list", xs), "join", [L(s.choice(["", ", ", "\n"]))])])
            elif k == 2:
                tail.append(["echo", ("interp", [s.choice(["", "a"])] + [y for x in xs for y in (x, s.choice(["", " "]))])])
            elif k == 3:
                tail.append(["echo", ("table", [(L("q"), xs[0])])])
            else:
                tail.append(["echo", ("bin", "~", xs[0], xs[-1])])
        nums = []
        for _ in range(s.draw(4)):
            v = g.scalar()
            if type(v) is int:
                nums.append((v, ["echo", ("bin", "===", ("mcall", ("mcall", L(v), "tostr", []), "toint", []), L(v))]))
            elif type(v) is float and math.copysign(1, v) > 0 and v < math.inf:
                t = ("mcall", L(v), "tostr", [])
                nums.append((v, ["echo", ("bin", "==", ("mcall", ("mcall", t, "tofloat", []), "tostr", []), t)]))
        if s.chance(10):
            # the number in a part of a str that isn't the script's own; adding a char and taking it away makes it the script's own
            i = s.int(0, 3)
            part = ("slice", V("__VERSION__"), L(i), L(i + s.int(1, 4)))
            own = ("slice", ("bin", "~", part, L("!")), None, L(-1))
            f = s.choice(["toint", "tofloat"])
            nums.append((f + " of a part of __VERSION__",
                         ["echo", ("bin", "==", ("mcall", ("mcall", part, f, []), "tostr", []), ("mcall", ("mcall", own, f, []), "tostr", []))]))
        return HELP + body, len(names), opaque, tail, nums

    def stmts(self, case):
        body, n, opaque, tail, nums = case
        return body + ([] if opaque else tail) + [["echo", L(MARK)]] + [x for _, x in nums]

    def show(self, case):
        return syntax.source(self.stmts(case))[0]

    def test(self, case, env):
        body, n, opaque, tail, nums = case
        stmts = self.stmts(case)
        src, _ = syntax.source(stmts)
        big = any(type(v) in (int, float) and len(str(v)) >= 4 for v in _values(body)) or \
            any(x[0] in ("list", "table") and len(x[1]) > 1 for x in _nodes(body))
        if opaque:
            r = env.run(client.EXEC, src)
            f = common.crashed(r)
            if not f and (r.status != 0 or r.err):
                f = f"status: {r.brief()}"
        else:
            f, it, st = common.judge(stmts, env, max_steps=40000)
            r = env.run(client.EXEC, src)
        if not f:
            parts = common.latin(r.out).split(MARK + "\n")
            back = parts[-1].split("\n")[:-1]
            parts = parts[:-2] if not opaque else parts[:-1]
            # the forms of one value follow each other; each group has the same text
            groups = self.groups(body)
            at = 0
            for k in groups:
                g = parts[at:at + k]
                at += k
                if len(set(g)) > 1:
                    f = f"forms: {g!r} for one value"
                    break
            if not f and back != ["true"] * len(nums):
                f = f"parse: {back} for {[v for v, _ in nums]}"
        return f, ["opaque" if opaque else "judged"] + (["numbers"] if nums else []), big

    def groups(self, body):
        out, last = [], None
        for st in body:
            if st[0] == "echo" and st[1] == L(MARK):
                out[-1] += 1
            elif st[0] == "echo" and st[1][0] == "var":
                out.append(0)
        return out


def _nodes(x):
    if isinstance(x, (list, tuple)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from _nodes(y)


def _values(x):
    for n in _nodes(x):
        if n[0] == "lit":
            yield n[1]


check = C15()
