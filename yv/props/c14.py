"""C14: for-in loops and comprehensions against the model, with every evaluation traced."""
from ..engine import Check
from .. import client, common, gen, model, syntax

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
B = lambda op, a, b: ("bin", op, a, b)
COLLS = ["la", "lb", "lc", "sa", "sb", "ta", "tb"]

HELP = [["fndecl", "tr", ["n", "v"], [["echo", ("interp", ["", V("n"), "=", V("v"), ""])], ["return", [V("v")]]], False]]


class G:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.vars = []       # (name, 'x' any / 'i' counter)
        self.loops = 0
        self.unordered = 0
        self.nested = True
        self.infn = False
        self.budget = s.int(4, 18)

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- collections
    def elems(self, kind=None):
        s = self.s
        kind = kind or s.choice(["int", "str", "any", "list"])
        n = s.choice([0, 1, 2, 3, 3, 4, 5]) if s.chance(95) else s.int(20, 70)
        if kind == "int":
            return [L(s.int(-3, 9)) for _ in range(n)]
        if kind == "str":
            return [gen.gstr_lit(s, 3) for _ in range(n)]
        if kind == "list":
            return [("list", [L(s.int(0, 5)) for _ in range(s.draw(4))]) for _ in range(n)]
        return [L(gen.scalar(s, s.choice(gen.TYPES))) for _ in range(n)]

    def coll(self, kind):
        s = self.s
        if kind == "l":
            return ("list", self.elems())
        if kind == "s":
            return gen.gstr_lit(s, 8, 30)
        ks = []
        for _ in range(s.draw(7) if s.chance(90) else s.int(10, 60)):
            k = s.choice([s.int(-3, 99), gen.gstr(s, 3), s.int(0, 9) / 2, s.chance(50)])
            if not (type(k) is float and k == 0) and not any(type(k) is type(x) and k == x for x in ks):
                ks.append(k)
        return ("table", [(L(k), L(s.int(0, 9))) for k in ks])

    def iterable(self):
        """Something to iterate over."""
        s = self.s
        k = s.draw(20)
        if k < 9:
            return V(s.choice(COLLS[:5]))
        if k < 11:
            return V(s.choice(COLLS[5:]))
        if k == 11:
            return ("list", self.elems())
        if k == 12:
            return gen.gstr_lit(s, 5, 30)
        if k == 13:
            return ("slice", V(s.choice(COLLS[:5])), L(s.draw(3)) if s.chance(50) else None, None)
        if k == 14:
            return ("mcall", V(s.choice(["la", "lb", "ta"])), "copy", [])
        if k == 15:
            return ("call", V("tr"), [L(s.draw(9)), V(s.choice(COLLS))])
        if k == 16:
            return ("list", [V(v) for v in s.shuffle(COLLS)[:s.draw(4)]])
        if k == 17:
            return B("+", V("la"), V("lb"))
        if k == 18 and self.vars:
            return V(s.choice(self.vars)) if s.chance(30) else ("list", [V(v) for v in self.vars])
        if s.chance(15) and self.nested:
            self.nested = False
            r = self.comp()
            self.nested = True
            return r
        if s.chance(20):
            return s.choice([L(1), L(1.5), L(True), L(None), ("call", ("mem", V("collections"), "set"), [L(1)]), V("tr")])
        return V(s.choice(COLLS))

    def ordered(self, it):
        def tab(e):
            return e[0] == "var" and (e[1] in ("ta", "tb") or e[1] in self.vars) or \
                e[0] == "mcall" and tab(e[1]) or e[0] == "call" and bool(e[2]) and tab(e[2][-1]) or e[0] == "tcomp" or e[0] == "lcomp" and tab(e[3])
        return not tab(it)

    def any(self):
        s = self.s
        if self.vars and not s.chance(20):
            return V(s.choice(self.vars))
        return s.choice([L(s.int(0, 9)), L("z"), ("un", "len", V("la"))])

    def cond(self):
        s = self.s
        k = s.draw(6)
        if k == 0:
            return L(s.chance(50))
        if k == 1:
            return B(s.choice(["==", "!="]), self.any(), self.any())
        if k == 2:
            return ("call", V("tr"), [L("c"), self.cond()])
        if k == 3:
            return self.any()
        if k == 4:
            return B("==", self.any(), L(s.int(0, 5)))
        return B(s.choice(["&&", "||"]), self.cond(), self.cond())

    def text(self):
        parts = ["%d:" % self.n]
        for v in self.s.shuffle(self.vars)[:3] or []:
            parts += [V(v), " "]
        if len(parts) == 1:
            return L("%d" % self.n)
        return ("interp", parts)

    def elem_expr(self):
        s = self.s
        if s.chance(12) and self.nested:
            self.nested = False
            r = self.comp()
            self.nested = True
            return r
        k = s.draw(7)
        if k <= 1:
            return self.any()
        if k == 2:
            return ("list", [self.any(), self.any()])
        if k == 3:
            return ("call", V("tr"), [L("e"), self.any()])
        if k == 4:
            return B("~", self.any(), self.any())
        if k == 5:
            return ("tern", self.cond(), self.any(), self.any())
        return ("call", V("count"), [])

    def comp(self):
        s = self.s
        it = self.iterable()
        v = self.fresh("c")
        self.vars.append(v)
        cond = self.cond() if s.chance(60) else None
        if s.chance(60):
            r = ("lcomp", self.elem_expr(), v, it, cond)
        else:
            k = s.choice([V(v), ("un", "len", ("mcall", V(v), "tostr", [])), self.any(), ("call", V("tr"), [L("k"), V(v)])])
            r = ("tcomp", k, self.elem_expr(), v, it, cond)
        self.vars.pop()
        return r

    def within(self, c):
        """A comprehension in the middle of something else."""
        s = self.s
        for _ in range(s.int(1, 2)):
            k = s.draw(9)
            a = self.any
            if k < 2:
                c = ("list", [a() for _ in range(s.draw(4))] + [c] + [a() for _ in range(s.draw(3))])
            elif k == 2:
                c = ("call", V("tr"), [a(), c])
            elif k == 3:
                c = ("tern", B("==", a(), c), a(), c)
            elif k == 4:
                c = ("table", [(L("a"), a()), (L("b"), c), (L("c"), a())])
            elif k == 5:
                c = ("call", ("fn", ["p", "q"], [["let", "z", a()], ["return", [("list", [V("z"), V("q"), V("p")])]]]), [a(), c])
            elif k == 6:
                c = ("call", ("fn", ["p"], [["let", "z", V("p")], ["return", [("list", [V("z"), c, V("p")])]]]), [a()])
            elif k == 7:
                c = ("call", ("mem", V("collections"), "list"), [a(), c, a()])
            else:
                return ("interp", ["<", a(), "|", c, ">"])
        return c

    # ---- statements
    def block(self, n=None):
        out = []
        mark = len(self.vars)
        for _ in range(n or self.s.int(1, 3)):
            out += self.stmt()
        del self.vars[mark:]
        return out

    def leave(self):
        """break, continue or return, perhaps on a condition."""
        s = self.s
        st = ["break"] if s.chance(50) else ["continue"]
        if self.infn and s.chance(35):
            st = ["return", [self.any()]]
        if s.chance(85):
            return [["if", [(self.cond(), [["echo", L("leave")], st])], None]]
        return [["if", [(L(True), [st])], None]]

    def stmt(self):
        s = self.s
        self.budget -= 1
        k = s.draw(20)
        if self.unordered and k not in (10, 11, 12, 13):
            k = 0
        if self.budget <= 0:
            k = 0
        if k < 3:
            return [["echo", self.text()]]
        if k < 10:
            it = self.iterable()
            o = self.ordered(it)
            v = self.fresh() if not self.vars or not s.chance(15) else s.choice(self.vars)
            self.vars.append(v)
            self.loops += 1
            self.unordered += not o
            body = self.block()
            self.unordered -= not o
            self.loops -= 1
            self.vars.pop()
            return [["for", v, it, [["echo", self.text()] if not self.vars else ["echo", ("interp", ["in ", V(v), ""])]] + body]]
        if k < 13:
            c = self.comp()
            if self.unordered:
                return [["echo", self.text()]]
            if s.chance(50):
                c = self.within(c)
            j = s.draw(5)
            if j == 0:
                return [["echo", c]]
            if j == 1:
                v = self.fresh("d")
                r = [["for", v, c, [["echo", V(v)]]]]
                return r
            v = self.fresh("m")
            return [["let", v, c], ["echo", V(v)]]
        if k == 13 and self.vars:
            return [["if", [(self.cond(), self.block(1))], self.block(1) if s.chance(40) else None]]
        if k < 16 and self.loops:
            return self.leave()
        if k == 16:
            i = self.fresh("i")
            self.loops += 1
            body = self.block()
            self.loops -= 1
            return [["cfor", i, L(0), B("<", V(i), L(s.int(1, 3))), ["aug", "+", V(i), L(1)], body]]
        if k == 17 and self.loops:
            # more of the same collection, from a function
            return [["echo", ("call", V(s.choice(["walk", "first"])), [s.choice([V("la"), V("lb"), V("sa"), V("lc")]), L(s.draw(3))])]]
        if k == 18 and not self.infn:
            f = self.fresh("f")
            sv, sl, self.infn, self.loops = self.vars, self.loops, True, 0
            p = self.fresh("p")
            self.vars = sv + [p]
            body = self.block() + [["return", [self.comp() if s.chance(40) else self.any()]]]
            self.vars, self.loops, self.infn = sv, sl, False
            return [["fndecl", f, [p], body, False], ["echo", ("call", V(f), [self.any()])], ["echo", ("call", V(f), [V("lb")])]]
        return [["echo", self.text()]]

    def program(self):
        s = self.s
        out = [list(x) for x in HELP]
        out.append(["let", "n", L(0)])
        out.append(["fndecl", "count", [], [["aug", "+", V("n"), L(1)], ["return", [V("n")]]], False])
        for c in COLLS:
            v = self.coll(c[0])
            out.append(["let", c, v])
            if c[0] == "t" and s.chance(60):
                # what has been removed isn't visited, wherever it was
                ks = [k for k, _ in v[1]]
                gone = s.shuffle(ks)[:s.choice([1, 1, 2, 3, len(ks)])]
                for k in gone:
                    out.append(["expr", ("mcall", V(c), "remove", [k])])
                for k in gone:
                    if s.chance(30):
                        out.append(["setidx", V(c), k, L(s.int(0, 9))])
            elif c[0] == "l" and s.chance(30):
                for _ in range(s.int(1, 4)):
                    out.append(["expr", ("mcall", V(c), "push", [self.any()])])
                if s.chance(50):
                    out.append(["expr", ("mcall", V(c), "pop", [])])
        # a function that iterates over what is being iterated over
        out.append(["fndecl", "walk", ["c", "d"], [["let", "r", L("")],
                    ["for", "x", V("c"), [["aug", "~", V("r"), V("x")],
                                          ["if", [(B(">", V("d"), L(0)), [["aug", "~", V("r"), ("call", V("walk"), [V("c"), B("-", V("d"), L(1))])]])], None],
                                          ["if", [(B(">", ("un", "len", V("r")), L(60)), [["return", [V("r")]]])], None]]],
                    ["return", [V("r")]]], False])
        out.append(["fndecl", "first", ["c", "d"], [["for", "x", V("c"), [["for", "y", V("c"), [
            ["if", [(B("==", V("d"), L(0)), [["return", [B("~", V("x"), V("y"))]]])], None], ["aug", "-", V("d"), L(1)]]]]],
            ["return", [L("none")]]], False])
        out += self.block(s.int(2, 5))
        for c in COLLS:
            out.append(["echo", V(c)])
        return out


class C14(Check):
    id = "C14"
    technique = "property-based testing: generated loop and comprehension programs with traced evaluations against a reference model"
    note = ("Random search over nested loops (up to 4 deep over the same and other collections) left by break, continue and return, and "
            "comprehensions nested and in the middle of other expressions; collections are not changed while "
            "iterated over; the order of tables is left open.")
    rule = ("programs of 4-18 statements with loops over lists, strs, tables and other values, and comprehensions; non-trivial: two "
            "or more loops or comprehensions were entered")
    quick = 24000
    thorough = 900000

    def gen(self, s):
        return common.padded(s, G(s).program(), 3)

    def show(self, case):
        return syntax.source(case)[0]

    def test(self, case, env):
        f, it, st = common.judge(case, env, max_steps=30000)
        n = {}
        from ..progcheck import walk
        for x in walk(case):
            n[x[0]] = n.get(x[0], 0) + 1
        loops = n.get("for", 0) - 3 + n.get("lcomp", 0) + n.get("tcomp", 0)
        return f, ["status%d" % st] + ["has:" + k for k in ("for", "lcomp", "tcomp", "break", "continue", "return") if n.get(k, 0) > (3 if k in ("for", "return") else 0)], \
            loops >= 2 and len(it.out) > 8


check = C14()
