"""C05: calls, arguments and return values, against the model."""
from ..progcheck import ProgCheck, walk
from .. import common, gen, progen, syntax


class CallGen:
    """Programs of functions with any number of parameters and returned values, called in every context."""

    def __init__(self, s):
        self.s = s
        self.fns = []          # (name, arity, number of values or None)
        self.n = 0
        self.vars = []
        self.tables = []

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def lit(self):
        s = self.s
        return ("lit", s.weighted([(5, s.int(0, 9)), (2, s.choice(["a", "b", ""])), (1, None), (1, True), (1, 1.5)]))

    def tr(self, e):
        """e, with a trace of when it is evaluated."""
        if self.s.chance(55):
            return ("call", ("var", "tr"), [("lit", self.s.int(0, 99)), e])
        return e

    def callee(self, f):
        """An expression for calling f, and its kind."""
        s = self.s
        k = s.draw(10)
        if k == 0 and self.tables:
            t, m, fn = s.choice(self.tables)
            return ("mem", self.tr(("var", t)), m)
        if k == 1 and self.tables:
            t, m, fn = s.choice(self.tables)
            return ("idx", ("var", t), self.tr(("lit", m)))
        if k == 2:
            return ("call", ("var", "tr"), [("lit", s.int(0, 99)), ("var", f)])
        if k == 3:
            return ("idx", ("list", [("var", f)]), ("lit", 0))
        return ("var", f)

    def call(self, d):
        s = self.s
        k = s.draw(12)
        if k == 0 and self.tables:
            t, m, fn = s.choice(self.tables)
            return ("mcall", self.tr(("var", t)), m, self.argl(d))
        if k == 1:
            # a builtin, which takes a fixed number of arguments
            j = s.draw(6)
            if j == 0:
                return ("mcall", ("list", [("lit", 1), ("lit", 2)]), "push", self.argl(d))
            if j == 1:
                return ("mcall", ("lit", s.choice(["a,b", "xyx"])), "replace", [("lit", "x"), ("lit", "y")] + self.argl(d)[2:])
            if j == 2:
                return ("call", ("mem", ("var", "collections"), "list"), self.argl(d))
            if j == 3:
                return ("mcall", ("list", [("lit", s.int(0, 9)) for _ in range(s.draw(4))]), "spread", [])
            if j == 4:
                return ("mcall", ("list", [("lit", s.int(0, 9)) for _ in range(s.draw(4))]), "count", self.argl(d))
            return ("mcall", self.tr(("list", [("lit", 3), ("lit", 1)])), s.choice(["sort", "reverse", "clear", "copy"]), [])
        if k == 2 and d > 0:
            # an immediate function
            ps = ["p%d" % i for i in range(s.draw(4))]
            body = [["return", self.vals([("var", p) for p in ps], d - 1)]]
            return ("call", ("paren", ("fn", ps, body)), self.argl(d - 1))
        if not self.fns:
            return ("call", ("var", "tr"), [("lit", 1), ("lit", 2)])
        f, n, _ = s.choice(self.fns)
        return ("call", self.callee(f), self.argl(d, n))

    def argl(self, d, n=None):
        s = self.s
        k = s.draw(5) if n is None or s.chance(40) else n
        return self.vals(None, d, k)

    def vals(self, pool, d, k=None):
        s = self.s
        k = s.draw(4) if k is None else k
        r = []
        for i in range(k):
            if d > 0 and s.chance(35):
                r.append(self.call(d - 1))
                if s.chance(15):
                    r[-1] = ("paren", r[-1]) if i < k - 1 else r[-1]
            elif pool and s.chance(60):
                r.append(self.tr(s.choice(pool)))
            else:
                r.append(self.tr(self.value(d)))
        return r

    def value(self, d):
        s = self.s
        k = s.draw(10)
        if k < 6 or d <= 0:
            return ("var", s.choice(self.vars)) if self.vars and s.chance(40) else self.lit()
        if k == 6:
            return ("list", [self.call(d - 1)] + ([self.lit()] if s.chance(50) else []))
        if k == 7:
            return ("bin", "~", ("mcall", self.call(d - 1), "tostr", []) if False else ("interp", ["<", self.call(d - 1), ">"]),
                    self.lit())
        if k == 8:
            return ("tern", self.call(d - 1), self.call(d - 1), self.lit())
        return ("bin", s.choice(["&&", "||", "??", "==", "!="]), self.call(d - 1), self.lit())

    def show(self, name_or_e):
        return ["echo", name_or_e]

    def fn(self):
        s = self.s
        f = self.name("f")
        n = s.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (1, 5)])
        ps = ["a%d" % i for i in range(n)]
        body = []
        if s.chance(70):
            body.append(["echo", ("interp", [f + " "] + sum([[("var", p), " "] for p in ps], []))])
        if s.chance(30):
            body += self.stmts(1, 1)
            # names declared in there are not visible outside
        if ps and s.chance(25):
            body.append(["assign", s.choice(ps), self.lit()])
        k = s.draw(10)
        if k < 1:
            pass
        elif k < 7 or not self.fns:
            body.append(["return", self.vals([("var", p) for p in ps], 1, s.weighted([(3, 1), (3, 2), (2, 3), (1, 6)]))])
        elif k < 9:
            body.append(["return", [self.call(1)]])
        else:
            body.append(["if", [(("bin", "==", ("var", ps[0]) if ps else self.lit(), self.lit()),
                                 [["return", self.vals([("var", p) for p in ps], 1, s.int(1, 3))]])], None])
            body.append(["return", self.vals([("var", p) for p in ps], 1, s.int(1, 4))])
        self.fns.append((f, n, None))
        return [["fndecl", f, [("const " if s.chance(0) else "") + p for p in ps], body, s.chance(20)]]

    def levels(self, few, many):
        s = self.s
        return s.int(few, many) if s.chance(8) else s.int(0, few)

    def rec(self):
        """Self and mutual recursion with accumulators."""
        s = self.s
        k = s.draw(3)
        n = ("var", "n")
        dec = ("bin", "-", n, ("lit", 1))
        if k == 0:
            f = self.name("r")
            body = [["if", [(("bin", "<=", n, ("lit", 0)), [["return", [("var", "acc"), ("lit", s.int(0, 9))]]])], None],
                    ["let", "loc", ("bin", "*", n, ("lit", 2))],
                    ["let", "sub", ("call", ("var", f), [dec, ("bin", "+", ("var", "acc"), n)])],
                    ["echo", ("interp", ["r ", n, " ", ("var", "loc"), " ", ("var", "sub")])],
                    ["return", [("var", "sub"), ("var", "loc"), n]]]
            return [["fndecl", f, ["n", "acc"], body, False],
                    ["mlet", [("let", f + "x"), ("let", f + "y"), ("let", f + "z")],
                     [("call", ("var", f), [("lit", self.levels(5, 40)), ("lit", 0)])]],
                    ["echo", ("interp", [("var", f + "x"), " ", ("var", f + "y"), " ", ("var", f + "z")])]]
        if k == 1:
            # tail position: all values come back through every level
            f = self.name("r")
            body = [["if", [(("bin", "<=", n, ("lit", 0)), [["return", [("var", "b"), ("var", "a"), n]]])], None],
                    ["return", [("call", ("var", f), [dec, ("var", "b"), ("bin", "+", ("var", "a"), ("var", "b"))])]]]
            return [["fndecl", f, ["n", "a", "b"], body, False],
                    ["echo", ("call", ("mem", ("var", "collections"), "list"),
                              [("lit", "t"), ("call", ("var", f), [("lit", self.levels(9, 100)), ("lit", 0), ("lit", 1)])])]]
        # mutual, through a table
        t = self.name("t")
        return [["let", t, ("table", [])],
                ["tfndecl", t, "even", ["n"], [["if", [(("bin", "==", n, ("lit", 0)), [["return", [("lit", True)]]])], None],
                                              ["return", [("call", ("mem", ("var", t), "odd"), [dec]), ("lit", "e")]]]],
                ["tfndecl", t, "odd", ["n"], [["if", [(("bin", "==", n, ("lit", 0)), [["return", [("lit", False)]]])], None],
                                             ["return", [("call", ("mem", ("var", t), "even"), [dec]), n]]]],
                ["echo", ("call", ("mem", ("var", "collections"), "list"),
                          [("call", ("mem", ("var", t), s.choice(["even", "odd"])), [("lit", self.levels(6, 30))])])]]

    def stmts(self, n, d):
        out = []
        for _ in range(n):
            out += self.stmt(d)
        return out

    def stmt(self, d=2):
        s = self.s
        k = s.draw(16)
        top = d >= 2
        if k <= 2:
            return [["echo", self.call(d)]]
        if k == 3:
            return [["expr", self.call(d)]]
        if k <= 5:
            n = s.int(1, 4)
            names = [self.name("v") for _ in range(n)]
            vals = self.vals(None, d, s.int(1, n))
            if n == 1 and len(vals) == 1:
                st = ["let", names[0], vals[0]]
            elif n == 1:
                st = ["mlet", [("let", names[0])], vals[:1]]
            else:
                st = ["mlet", [(s.choice(["let", "const"]), x) for x in names], vals]
            r = [st, ["echo", ("interp", sum([[("var", x), " "] for x in names], []))]]
            if top:
                self.vars += [x for x, (kw, _) in zip(names, st[1]) if kw == "let"] if st[0] == "mlet" else names
            return r
        if k <= 7 and len(self.vars) >= 2 and top:
            xs = s.shuffle(self.vars)[:s.int(2, 3)]
            st = ["massign", [("var", x) for x in xs], self.vals(None, d, s.int(1, len(xs)))]
            return [st, ["echo", ("interp", sum([[("var", x), " "] for x in xs], []))]]
        if k == 8:
            return [["echo", ("list", self.vals(None, d))]]
        if k == 9:
            return [["echo", ("call", ("mem", ("var", "collections"), "list"), self.vals(None, d))]]
        if k == 10:
            return [["if", [(self.call(d), [["echo", self.call(d)]])], [["echo", ("lit", "else")]]]]
        if k == 11 and top:
            i = self.name("i")
            return [["for", i, ("list", self.vals(None, d)), [["echo", ("call", ("var", "tr"), [("lit", 0), ("var", i)])]]]]
        if k == 12 and self.fns and top:
            f, n, _ = s.choice(self.fns)
            t = self.name("t")
            m = s.choice(["m", "g", "run"])
            self.tables.append((t, m, f))
            return [["let", t, ("table", [(("lit", m), ("var", f)), (("lit", 0), ("lit", 5))])]]
        if k == 13 and top:
            g = self.name("h")
            # a function that returns functions
            return [["fndecl", g, ["a"], [["echo", ("bin", "~", ("lit", "mk "), ("var", "a"))],
                                          ["return", [("fn", ["b", "c"], [["echo", ("interp", ["in ", ("var", "a"), ("var", "b"),
                                                                                              ("var", "c")])],
                                                                         ["return", [("var", "c"), ("var", "a")]]])]]], False],
                    ["echo", ("call", ("call", ("var", g), self.argl(1)), self.argl(1))]]
        if k == 14:
            t = self.name("q")
            tgt = [("idx", self.tr(("var", t)), self.tr(("lit", s.draw(3)))) for _ in range(s.int(1, 2))]
            if len(tgt) == 2 and tgt[0] == tgt[1]:
                tgt = tgt[:1]
            r = [["let", t, ("list", [("lit", 0)] * 3)]]
            if len(tgt) == 1:
                r.append(["setidx", tgt[0][1], tgt[0][2], self.call(d)])
            else:
                # the order of two assignments isn't defined for one place
                tgt = [("idx", ("var", t), ("lit", i)) for i in s.shuffle(range(3))[:2]]
                r.append(["massign", tgt, self.vals(None, d, s.int(1, 2))])
            r.append(["echo", ("var", t)])
            return r
        return [["assert", ("bin", "||", self.call(d), ("lit", True))]]

    def program(self):
        s = self.s
        out = [["fndecl", "tr", ["n", "v"], [["echo", ("bin", "~", ("lit", "tr "), ("var", "n"))], ["return", [("var", "v")]]],
                False]]
        for _ in range(s.int(1, 4)):
            out += self.fn()
        for _ in range(s.int(2, 7)):
            if s.chance(15):
                out += self.fn()
            if s.chance(10):
                out += self.rec()
            out += self.stmt()
        return out


def wide(s):
    """Calls with many arguments and values."""
    V, L = lambda n: ("var", n), lambda v: ("lit", v)
    m = s.choice([20, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 290])
    k = s.draw(6)
    lst = [["let", "wl", ("list", [])],
           ["cfor", "wi", L(0), ("bin", "<", V("wi"), L(m)), ["aug", "+", V("wi"), L(1)], [["expr", ("mcall", V("wl"), "push", [V("wi")])]]]]
    spread = ("mcall", V("wl"), "spread", [])
    gather = ("mem", V("collections"), "list")
    if k == 0:
        return lst + [["echo", ("un", "len", ("call", gather, [L("a"), spread]))], ["echo", ("call", gather, [spread])]]
    if k == 1:
        return lst + [["echo", ("un", "len", ("call", ("mem", V("collections"), "set"), [L("x"), spread]))]]
    if k == 2:
        # values passed on through functions
        return lst + [["fndecl", "wf", ["wl"], [["return", [L("x"), spread]]], False], ["fndecl", "wg", ["a"], [["return", [("call", V("wf"), [V("a")])]]], False],
                      ["echo", ("call", gather, [("call", V("wg"), [V("wl")]), ("call", V("wg"), [V("wl")])])]]
    n = min(m, 200) - s.draw(3)
    names = ["w%d" % i for i in range(n)]
    some = [V(names[i]) for i in sorted({0, n - 1, n // 2, s.draw(n), 126 % n, 127 % n, 128 % n})]
    shown = ("interp", sum([["", x] for x in some], []) + [""]) if False else ("list", some)
    if k == 3:
        # declared, few or enough of them with a value
        return lst + [["fndecl", "wf", ["wl"], [["mlet", [("let", x) for x in names], [spread if s.chance(60) else ("call", V("wl"), [])]],
                                                ["let", "last", L("last")], ["return", [("list", some + [V("last")])]]], False],
                      ["fndecl", "we", [], [["return", [L(1), L(2)]]], False],
                      ["echo", ("call", V("wf"), [V("wl")])], ["echo", ("call", V("wf"), [V("we")])]]
    if k == 4:
        # parameters, for all, few or more arguments than them
        j = s.draw(3)
        args = [spread] if j == 0 else [L(5), spread] if j == 1 else [L(i) for i in range(s.choice([0, 1, n, 50, 150]))]
        return lst + [["fndecl", "wf", names, [["let", "last", L("last")], ["return", [shown, V("last")]]], False],
                      ["echo", ("call", gather, [("call", V("wf"), args), L(0)])], ["echo", ("call", V("wf"), args[:1])]]
    # assigned
    return lst + [["fndecl", "wf", ["wl"], [["mlet", [("let", x) for x in names[:100]], [L(None)]],
                                            ["massign", [V(x) for x in names[:100]], [L(0), spread]], ["return", [("list", [V(names[0]), V(names[min(99, n - 1)])])]]], False],
                  ["echo", ("call", V("wf"), [V("wl")])]]


class C05(ProgCheck):
    id = "C05"
    technique = "property-based testing: generated call-heavy programs with traced evaluation against a reference interpreter"
    note = ("Random search over programs that nest calls up to 3 deep in every context a call can appear in, with 0-6 "
            "arguments and returned values; trusts the reference interpreter (yv/model.py).")
    rule = ("programs whose functions and operands print when they are evaluated, with calls, multiple returns, method and "
            "builtin calls, recursion, in all contexts; non-trivial: at least 4 calls and something printed")
    quick = 44000
    thorough = 1200000
    kinds = ("call", "mcall")
    least = 4

    def gen(self, s):
        if s.chance(15):
            return progen.ProgGen(s, {"fndecl": 12, "call": 14, "recfn": 4, "pair": 3}, size=30, closures=40).program()
        p = CallGen(s).program()
        if s.chance(4):
            p += wide(s)
        return common.padded(s, p)


check = C05()
