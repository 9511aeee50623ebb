"""C06: match, against the model."""
from ..progcheck import ProgCheck, walk
from .. import common, gen, progen, syntax

KEYS = ["a", "b", "c", 0, 1, -1, "", 1.5, True, False]


def rename(p, new, kws):
    """The pattern with its names replaced; those without a new one aren't bound anymore."""
    k = p[0]
    if k == "pbind":
        if p[2] not in new:
            return ("p*",)
        n = new[p[2]]
        return ("pbind", kws.setdefault(n, p[1]), n)
    if k == "palt":
        return ("palt", rename(p[1], new, kws), rename(p[2], new, kws))
    if k == "plist":
        return ("plist", [rename(q, new, kws) for q in p[1]], p[2])
    if k == "ptable":
        return ("ptable", [(key, rename(q, new, kws)) for key, q in p[1]], p[2])
    return p


class MatchGen:
    def __init__(self, s):
        self.s = s
        self.n = 0

    def name(self, p="m"):
        self.n += 1
        return p + str(self.n)

    def scalar(self):
        s = self.s
        k = s.draw(12)
        if k < 4:
            return s.choice([0, 1, 2, -1, 127, 128, -129, 255, 256, 65536, (1 << 31), -(1 << 40), (1 << 63) - 1])
        if k < 6:
            return s.choice([0.0, 1.0, 1.5, -0.5, 2.0, 1e10])
        if k < 9:
            return s.choice(["", "a", "b", "ab", "int", "a\0b", "\xff", "rue", "un"])
        if k < 11:
            return s.chance(50)
        return None

    def value(self, d):
        s = self.s
        k = s.draw(10)
        if d <= 0 or k < 3:
            return ("lit", self.scalar())
        if k < 7:
            return ("list", [self.value(d - 1) for _ in range(s.many(0, 4, 65))])
        if k < 9:
            return ("table", [(("lit", k), self.value(d - 1)) for k in self.keys()])
        return s.choice([("call", ("mem", ("var", "collections"), "set"), [("lit", 1)]), ("var", "somefn"),
                         ("lit", s.int(0, 2)), ("bin", "+", ("lit", 1), ("lit", s.int(0, 2))),
                         ("bin", "~", ("lit", "a"), ("lit", s.choice(["", "b"])))])

    def share(self, v):
        """The same, with strs that aren't the script's own."""
        if v[0] == "lit" and type(v[1]) is str and v[1]:
            return gen.shared_of(self.s, v[1]) or v
        if v[0] == "list":
            return ("list", [self.share(x) for x in v[1]])
        if v[0] == "table":
            return ("table", [(self.share(k), self.share(x)) for k, x in v[1]])
        return v

    def keys(self):
        s = self.s
        return s.shuffle(KEYS)[:s.many(0, 4, 65)]

    # patterns for a value, most of which accept it
    def pattern(self, v, d, binds):
        s = self.s
        if s.chance(10):
            return self.other(d, binds)
        k = s.draw(20)
        if k < 2:
            return ("p*",)
        if k < 5 and binds is not None:
            n = self.name()
            kw = s.choice(["let", "let", "const"])
            binds.append(n)
            return ("pbind", kw, n)
        if k < 8 and d > 0 and binds is not None and s.chance(50):
            return self.both(v, d, binds)
        if k < 8 and d > 0:
            a, b = self.pattern(v, d - 1, None), self.other(d - 1, None)
            if s.chance(50):
                a, b = b, a
            p = ("palt", a, b)
            if s.chance(25):
                p = ("palt", p, self.other(d - 1, None)) if s.chance(50) else ("palt", self.other(d - 1, None), p)
            return p
        if v[0] == "lit":
            t = v[1]
            if s.chance(35):
                n = self.typ(t)
                return ("ptype", n) if n else ("plit", None)
            if type(t) is int and s.chance(10) and abs(t) < 1000:
                return ("plit", float(t))
            if type(t) is float and t == int(t) and s.chance(20):
                return ("plit", int(t))
            return ("plit", t)
        if v[0] == "list":
            if s.chance(10):
                return ("ptype", "list")
            xs = v[1]
            var = s.chance(25)
            if var and xs and s.chance(70):
                xs = xs[:s.draw(len(xs))]
            ps = [self.pattern(x, d - 1, binds) for x in xs]
            if s.chance(6):
                ps.append(("p*",))
            return ("plist", ps, var)
        if v[0] == "table":
            if s.chance(10):
                return ("ptype", "table")
            ps = []
            kv = s.shuffle(v[1])
            var = s.chance(30)
            if var and kv and s.chance(70):
                kv = kv[:s.draw(len(kv))]
            for (_, k), x in kv:
                ps.append((k, self.pattern(x, d - 1, binds)))
            if s.chance(8):
                k = s.choice(KEYS)
                if all(type(k) is not type(q) or k != q for q, _ in ps):
                    ps.append((k, ("p*",)))
            return ("ptable", ps, var)
        return self.other(d, binds)

    def both(self, v, d, binds):
        """Alternatives that bind the same names."""
        s = self.s
        sides = []
        for i in range(s.choice([2, 2, 2, 3])):
            bs = []
            w = v if not i or s.chance(60) else self.value(1)
            sides.append((self.pattern(w, d - 1, bs), bs))
        if s.chance(30):
            sides = sides[1:] + sides[:1]
        n = min(len(bs) for _, bs in sides)
        names = sides[0][1][:n]
        kws = {}
        out = []
        for p, bs in sides:
            new = dict(zip(bs, names if s.chance(60) else s.shuffle(names)))
            out.append(rename(p, new, kws))
        binds += names
        p = out[-1]
        for q in out[-2::-1]:
            p = ("palt", q, p)
        if len(out) == 3 and s.chance(50):
            p = ("palt", ("palt", out[0], out[1]), out[2])
        return p

    def typ(self, t):
        return {bool: "bool", int: "int", float: "float", str: "str"}.get(type(t))

    def other(self, d, binds):
        s = self.s
        k = s.draw(8)
        if k < 3:
            return ("plit", self.scalar())
        if k < 5:
            return ("ptype", s.choice(["int", "str", "bool", "float", "list", "table"]))
        if k == 5:
            return self.pattern(self.value(1), d - 1, binds) if d > 0 else ("plit", 0)
        return s.choice([("plist", [], True), ("plist", [], False), ("ptable", [], False), ("ptable", [], True),
                         ("plist", [("ptype", "int")], True)])

    def arm(self, v, i):
        s = self.s
        binds = []
        p = self.pattern(v, 3, binds)
        guard = None
        if not binds:
            if s.chance(30):
                guard = s.choice([("lit", False), ("lit", True), ("lit", None), ("lit", 0), ("lit", ""),
                                  ("bin", "==", ("var", "gv"), ("lit", s.int(0, 2))),
                                  ("call", ("var", "tr"), [("lit", 50 + i), ("lit", s.chance(50))])])
        elif p[0] == "pbind" and s.chance(40):
            b = ("var", binds[0])
            guard = s.choice([("bin", "==", b, ("lit", self.scalar())), ("bin", "!=", b, ("lit", 1)),
                              ("bin", "==", b, v), ("lit", False)])
        elif s.chance(20):
            # names are bound: the guard holds
            b = ("var", s.choice(binds))
            guard = ("bin", "||", ("bin", "==", b, ("lit", 1)), ("lit", True))
        body = [["echo", ("interp", ["arm%d" % i] + sum([[" ", ("var", b)] for b in binds], []))]]
        if s.chance(25):
            body.insert(0, ["let", self.name("loc"), ("lit", 7)])
        if s.chance(15) and binds:
            # what was bound lives on in a closure
            body.append(["assign", "clo", ("fn", [], [["return", [("var", s.choice(binds))]]])])
        return p, guard, body

    def matchst(self, name, v, loop, fn):
        s = self.s
        arms = [self.arm(v, i) for i in range(s.many(1, 6, 60))]
        for _, _, b in arms:
            if loop and s.chance(12):
                b.append([s.choice(["break", "continue"])])
            elif fn and s.chance(15):
                b.append(["return", [("lit", s.int(0, 9))]])
        last = s.draw(4)
        if last == 3:
            # perhaps none matches
            arms[-1] = (arms[-1][0], None, arms[-1][2])
        elif last == 0:
            arms.append((("p*",), None, [["echo", ("lit", "default")]]))
        else:
            n = self.name()
            arms.append((("pbind", "let", n), None, [["echo", ("bin", "~", ("lit", "rest "), ("var", n))]]))
        e = ("var", name) if s.chance(60) else v
        return ["match", e, arms]

    def unit(self, loop, fn):
        """let x = value; match; what is there afterwards."""
        s = self.s
        v = self.value(3)
        n = self.name("x")
        out = [["let", n, self.share(v)], self.matchst(n, v, loop, fn)]
        if s.chance(30):
            out.append(self.matchst(n, v, loop, fn))
        a = self.name("after")
        out.append(["let", a, ("lit", s.int(0, 9))])
        out.append(["echo", ("interp", ["after ", ("var", a)] + ([" ", ("var", n)] if v != ("var", "somefn") and
                                                                 not self.hasfn(v) else []))])
        return out

    def hasfn(self, v):
        return any(x == ("var", "somefn") for x in walk([v]))

    def program(self):
        s = self.s
        out = [["fndecl", "tr", ["n", "v"], [["echo", ("bin", "~", ("lit", "tr "), ("var", "n"))], ["return", [("var", "v")]]],
                False],
               ["fndecl", "somefn", [], [["return", [("lit", 1)]]], False],
               ["let", "gv", ("lit", s.int(0, 2))],
               ["let", "clo", ("fn", [], [["return", [("lit", "none")]]])]]
        for _ in range(s.int(1, 3)):
            k = s.draw(5)
            if k <= 1:
                out += self.unit(False, False)
            elif k == 2:
                i = self.name("i")
                out.append(["for", i, ("list", [("lit", 0), ("lit", 1), ("lit", 2)][:s.int(1, 3)]), self.unit(True, False)])
            elif k == 3:
                f = self.name("f")
                out.append(["fndecl", f, ["x"], self.unit(False, True) + [["return", [("lit", "end")]]], False])
                out.append(["echo", ("call", ("var", f), [("lit", 1)])])
            else:
                # a function that classifies several values
                f = self.name("f")
                vs = [self.value(2) for _ in range(s.int(2, 4))]
                arms = [self.arm(s.choice(vs), i) for i in range(s.int(1, 5))]
                if s.chance(30):
                    arms[-1] = (arms[-1][0], None, arms[-1][2])
                else:
                    arms.append((("p*",), None, [["echo", ("lit", "default")]]))
                z = self.name("z")
                out.append(["fndecl", f, ["y"], [["match", ("var", "y"), arms], ["let", z, ("lit", "end")], ["return", [("var", z)]]], False])
                for v in vs:
                    out.append(["echo", ("call", ("var", f), [self.share(v)])])
        out.append(["echo", ("bin", "~", ("lit", "clo "), ("call", ("var", "clo"), []))])
        return out


class C06(ProgCheck):
    id = "C06"
    technique = "property-based testing: generated values with patterns derived from them, against a reference matcher"
    note = ("Random search over values and patterns nested up to 3 deep, 1-7 arms, guards, in loops and functions; trusts "
            "the reference matcher. Excluded: the two listed known findings (a failing guard of the last arm followed by "
            "declarations; a failing guard after names were bound inside of a pattern).")
    rule = ("programs of 1-3 match statements (some run on several values) whose patterns were derived from the value with "
            "changes; non-trivial: at least 2 list, table, alternative or binding patterns")
    quick = 80000
    thorough = 1200000
    kinds = ("plist", "ptable", "palt", "pbind")
    least = 2

    def gen(self, s):
        return common.padded(s, MatchGen(s).program(), 5)


check = C06()
