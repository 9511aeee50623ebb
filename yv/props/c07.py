"""C07: lists as sequences, histories against the model."""
from ..hist import HistCheck
from .. import gen, model

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
VARS = ["a", "b", "c", "d"]


class ListGen:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.bulk = [3, 8, 9, 16, 20, 40]       # sizes of bulk operations

    def elem(self, d=1):
        s = self.s
        k = s.draw(20)
        if k < 9:
            return L(s.int(-3, 9))
        if k < 12:
            return L(s.choice(["", "a", "b", "ab", "x,y", "\xe9"]))
        if k < 14:
            return L(s.choice([0.0, 1.0, 1.5, -2.0]))
        if k < 15:
            return L(None)
        if k < 16:
            return L(s.chance(50))
        if k < 18 and d > 0:
            return ("list", [self.elem(d - 1) for _ in range(s.draw(4))])
        if k < 19:
            return V(s.choice(VARS))
        return ("table", [(L("k"), L(s.int(0, 3)))])

    def scal(self):
        e = self.elem(0)
        return e if e[0] == "lit" else L(1)

    def lst(self, d=2):
        s = self.s
        k = s.draw(12)
        if k < 5 or d <= 0:
            return V(s.choice(VARS))
        if k < 7:
            return ("list", [self.elem() for _ in range(s.many(0, 9, 75))])
        if k == 7:
            return ("mcall", self.lst(d - 1), "copy", [])
        if k == 8:
            return ("bin", "+", self.lst(d - 1), self.lst(d - 1))
        if k == 9:
            return ("slice", self.lst(d - 1), self.bound(), self.bound())
        if k == 10:
            return ("call", ("mem", V("collections"), "list"), [self.elem() for _ in range(s.draw(4))])
        return ("mcall", L(s.choice(["a,b,c", "x", ",", "p,,q"])), "split", [L(",")])

    def bound(self):
        s = self.s
        k = s.draw(10)
        if k < 3:
            return None
        if k < 9:
            return self.index()
        return L(s.choice([100, -100, 1 << 40, -(1 << 62), (1 << 63) - 1]))

    def index(self):
        s = self.s
        k = s.draw(10)
        if k < 7:
            return L(s.int(-4, 6) if not s.chance(2) else gen.far(s, s.int(-4, 6)))
        return L(s.choice([0, -1, 7, 8, 9, 15, 16, 17, 31, 32, 33, -8, -9, -17]))

    def inrange(self, x):
        """An index computed from the length: always in range or just outside."""
        s = self.s
        n = ("un", "len", x)
        k = s.draw(8)
        return [("bin", "-", n, L(1)), ("un", "-", n), ("bin", "//", n, L(2)), L(0), L(-1), ("bin", "-", n, L(2)),
                n, ("bin", "-", ("un", "-", n), L(1))][k if s.chance(25) else k % 6]

    def wrong(self):
        s = self.s
        x = V(s.choice(VARS))
        bad = s.choice([L("a"), L(1.0), L(None), L(True), ("list", [])])
        k = s.draw(14)
        return [["echo", ("idx", x, bad)], ["setidx", x, bad, L(1)], ["expr", ("mcall", x, "insert", [bad, L(1)])],
                ["echo", ("bin", "+", x, bad if bad[0] == "lit" else L(1))],
                ["echo", ("slice", x, bad if bad != L(None) else L("b"), None)],
                ["echo", ("slice", x, None, bad if bad != L(None) else L(0.5))],
                ["echo", ("mcall", x, "join", [L(3)])],
                ["expr", ("mcall", ("list", []), "pop", [])],
                ["setidx", x, ("un", "len", x), L(5)],
                ["setidx", x, ("bin", "-", ("un", "-", ("un", "len", x)), L(1)), L(5)],
                ["echo", ("idx", x, ("un", "len", x))],
                ["expr", ("mcall", x, "insert", [("bin", "+", ("un", "len", x), L(1)), L(5)])],
                ["expr", ("mcall", x, "insert", [("bin", "-", ("un", "-", ("un", "len", x)), L(1)), L(5)])],
                ["expr", ("mcall", ("list", [L(1), L("b"), x]), "sort", [])]][k]

    def op(self):
        s = self.s
        n = s.choice(VARS)
        x = V(n)
        k = s.draw(32)
        if k < 4:
            return [["expr", ("mcall", x, "push", [self.elem()])]]
        if k < 6:
            return [["assign", n, self.lst()]]
        if k < 8:
            return [["setidx", x, self.inrange(x) if s.chance(70) else self.index(), self.elem()]]
        if k < 10:
            return [["if", [(("bin", ">", ("un", "len", x), L(0)), [["echo", ("mcall", x, "pop", [])]])], None]]
        if k < 13:
            i = s.choice([L(0), ("un", "len", x), ("bin", "//", ("un", "len", x), L(2)), ("un", "-", ("un", "len", x)), L(-1)]) \
                if s.chance(80) else self.index()
            return [["expr", ("mcall", x, "insert", [i, self.elem()])]]
        if k == 13:
            return [["expr", ("mcall", x, "reverse", [])]]
        if k == 14:
            return [["expr", ("mcall", x, "clear", [])]]
        if k == 15:
            return [["echo", ("mcall", x, "search", [self.scal()])]]
        if k == 16:
            return [["echo", ("mcall", x, "count", [self.scal()])]]
        if k == 17:
            return [["echo", ("mcall", ("mcall", ("list", [L(i) for i in range(s.draw(5))]) if s.chance(30) else x, "copy", []),
                              "join", [L(s.choice(["", ",", "--"]))])]]
        if k == 18:
            return [["echo", ("idx", x, self.inrange(x) if s.chance(70) else self.index())]]
        if k == 19:
            return [["aug", "+", x, self.lst()]]
        if k < 22:
            # grow, past the capacities
            m = s.choice(self.bulk)
            self.n += 1
            i = "i%d" % self.n
            j = s.draw(3)
            body = [["expr", ("mcall", x, "push", [V(i)])]] if j == 0 else \
                [["expr", ("mcall", x, "insert", [L(0), V(i)])]] if j == 1 else \
                [["if", [(("bin", ">", ("un", "len", x), L(0)), [["expr", ("mcall", x, "pop", [])]])], None]]
            return [["cfor", i, L(0), ("bin", "<", V(i), L(m)), ["aug", "+", V(i), L(1)], body]]
        if k == 22:
            self.n += 1
            return [["for", "e%d" % self.n, x, [["echo", V("e%d" % self.n)]]]]
        if k == 23:
            return [["echo", ("bin", s.choice(["==", "!=", "===", "!=="]), self.lst(1), self.lst(1))]]
        if k == 24:
            return [["echo", ("slice", x, self.bound(), self.bound())]]
        if k == 25:
            return [["expr", ("mcall", ("mcall", x, "push", [self.elem()]), "push", [self.elem()])]]
        if k == 26:
            return [["echo", ("call", ("mem", V("collections"), "list"), [("mcall", x, "spread", [])])]]
        if k == 27:
            return [["echo", ("list", [x, ("un", "len", x)])]]
        if k == 28:
            # work on a fresh list, then look at its source
            self.n += 1
            t = "t%d" % self.n
            return [["let", t, self.lst()], ["expr", ("mcall", V(t), "push", [self.elem()])],
                    ["setidx", V(t), L(0), self.elem()], ["expr", ("mcall", V(t), "reverse", [])], ["echo", V(t)]]
        if k == 29:
            e = self.elem()
            return [["aug", s.choice(["??", "~"]), ("idx", x, L(0)), e]]
        if k == 30:
            return [["massign", [V(n), V(s.choice([v for v in VARS if v != n]))], [self.lst(1), self.lst(1)]]]
        return [["echo", ("un", "len", x)]]

    def program(self):
        s = self.s
        if s.chance(2):
            self.bulk = s.choice([[300, 1100], [260, 5000], [70000, 5]])
        first = [["let", v, ("list", [self.elem(0) if v == "a" else L(s.int(0, 9)) for _ in range(s.many(0, 20, 75))])]
                 for v in VARS]
        # elements may be earlier lists only
        first[0][2] = ("list", [e for e in first[0][2][1] if e[0] != "var"])
        parts = [first]
        for _ in range(s.int(1, 5)):
            p = []
            for _ in range(s.int(1, 7)):
                p += self.op()
                if s.chance(50):
                    p += [["echo", V(s.choice(VARS))]]
            parts.append(p)
            if s.chance(35):
                parts.append([self.wrong(), ["echo", L("not reached?")]])
            parts.append([["echo", V(v)] for v in VARS])
        return parts


class C07(HistCheck):
    id = "C07"
    technique = "model-based property testing: generated operation histories on aliased lists against Python sequences"
    note = ("Random histories of up to ~40 operations on four lists and their aliases, sizes up to a few hundred, with "
            "failing operations as inputs of their own; trusts the reference interpreter's lists (Python lists).")
    rule = ("histories of inputs on one state with 2-35 list operations on 4 variables (aliases, copies, slices, nested "
            "lists, growth across capacities), all lists shown after each input; non-trivial: 8 or more statements")
    quick = 64000
    thorough = 1000000

    def gen(self, s):
        return ListGen(s).program()


check = C07()
