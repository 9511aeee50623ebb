"""C04: scoping, closures and constants, against the model."""
from ..progcheck import ProgCheck, walk
from ..engine import Discard
from .. import client, common, progen, syntax


class C04(ProgCheck):
    id = "C04"
    technique = "property-based testing: generated programs with shadowing and closures against a reference interpreter"
    note = ("Random search over programs of up to ~40 statements with functions nested 3 deep, and over single scoping "
            "mistakes planted anywhere in them; trusts the reference interpreter and the generator's own scope tracking.")
    rule = ("generated programs with shadowing declarations, closures over loop, parameter and outer variables, and (1 in "
            "5) one planted scoping mistake; non-trivial: at least 2 functions or closures and something printed, or a "
            "planted mistake")
    quick = 26000
    thorough = 800000
    kinds = ("fn", "fndecl", "tfndecl")
    weights = {"let": 20, "const": 6, "assign": 14, "aug": 12, "fndecl": 12, "call": 12, "closures": 7, "pair": 5, "fassign": 4,
               "mlet": 4, "massign": 5, "recfn": 2, "tfn": 2, "match": 3, "comp": 3, "listop": 2, "tableop": 1, "echo": 20}
    opts = {"size": 40, "shadow": 45, "closures": 50, "max_depth": 5, "leaf_lit": 15, "host": 20}

    def gen(self, s):
        if not s.chance(20):
            return None, common.padded(s, progen.ProgGen(s, self.weights, **self.opts).program())
        g = Planter(s, self.weights, **self.opts)
        p = g.program()
        if g.planted is None:
            # nowhere yet: at the end
            p += g.mistake() or [["expr", ("var", "nowhere")]]
            g.planted = g.planted or "undeclared"
        return g.planted, p

    def show(self, case):
        return f"# planted: {case[0]}\n" + syntax.source(case[1])[0]

    def test(self, case, env):
        kind, p = case
        if kind is None:
            return super().test(p, env)
        src = syntax.source(p)[0]
        r = env.run(client.EXEC, src)
        labels = ["mistake:" + kind]
        f = common.crashed(r)
        if not f:
            if r.status != 4:
                f = f"accepted: {kind} gives status {r.status}, not a syntax error; output {r.out[:200]!r}"
            elif r.out:
                f = f"ran: a program with a syntax error ({kind}) printed {r.out[:200]!r}"
            elif not r.err:
                f = f"silent: no message for a syntax error ({kind})"
        return f, labels, True


class Planter(progen.ProgGen):
    """Plants one scoping mistake somewhere."""
    planted = None

    def stmt(self):
        if self.planted is None and self.s.chance(12):
            m = self.mistake()
            if m:
                return m
        return super().stmt()

    def mistake(self):
        s = self.s
        k = s.draw(7)
        if k == 6:
            return self.pattern_mistake()
        if k <= 1:
            # assigning to a constant
            vs = [v for v in self.visible() if v.const and v.typ in ("int", "str", "bool", "float", "list", "table")
                  and not v.reserved]
            if not vs:
                return None
            v = s.choice(vs)
            self.planted = "const"
            j = s.draw(5)
            if j == 0:
                self.planted = "const-aug"
                return [["aug", "??", ("var", v.name), ("lit", 1)]]
            if j == 1:
                self.planted = "const-massign"
                return [["let", "tmpq", ("lit", 1)],
                        ["massign", s.shuffle([("var", v.name), ("var", "tmpq")]), [("lit", 1), ("lit", 2)]]]
            if j == 2:
                self.planted = "const-inner"
                return [["expr", ("call", ("fn", [], [["assign", v.name, ("lit", 3)], ["return", [("lit", 1)]]]), [])]]
            return [["assign", v.name, self.gen("int", 1)]]
        if k <= 3:
            # declaring a name again
            here = [v.name for v in self.scopes[-1] if v.plain]
            if not here:
                return None
            n = s.choice(here)
            self.planted = "redeclared"
            j = s.draw(4)
            if j == 0:
                return [["const", n, self.gen("int", 1)]]
            if j == 1:
                return [["fndecl", n, [], [["return", [("lit", 1)]]], False]]
            if j == 2:
                return [["mlet", [("let", "tmpr"), ("let", n)], [("lit", 1), ("lit", 2)]]]
            return [["let", n, self.gen("int", 1)]]
        self.planted = "undeclared"
        n = "zz"
        if k == 4:
            # a name of a scope that has ended
            self.planted = "ended"
            n = "ended%d" % self.fresh_n
            self.fresh_n += 1
            inner = [["let", n, self.gen("int", 1)], ["echo", ("var", n)]]
            j = s.draw(6)
            pre = [["if", [(("lit", True), inner)], None]] if j == 0 else \
                [["for", n, ("list", []), [["echo", ("var", n)]]]] if j == 1 else \
                [["cfor", n, ("lit", 0), ("bin", "<", ("var", n), ("lit", 1)), ["aug", "+", ("var", n), ("lit", 1)], []]] \
                if j == 2 else \
                [["match", ("lit", 1), [(("pbind", "let", n), None, [["echo", ("var", n)]])]]] if j == 3 else \
                [["expr", ("call", ("fn", [n], [["return", [("var", n)]]]), [("lit", 1)])]] if j == 4 else \
                [["expr", ("lcomp", ("var", n), n, ("list", []), None)]]
        else:
            pre = []
        use = s.draw(5)
        if use == 0:
            return pre + [["assign", n, self.gen("int", 1)]]
        if use == 1:
            return pre + [["aug", "+", ("var", n), self.gen("int", 1)]]
        if use == 2:
            return pre + [["echo", ("bin", "+", self.gen("int", 1), ("var", n))]]
        if use == 3:
            return pre + [["let", "tmps", ("fn", [], [["return", [("var", n)]]])]]
        return pre + [["echo", ("var", n)]]

    def pattern_mistake(self):
        """A name that's bound twice, or by some of the alternatives only, or by let and const; a type as a key."""
        s = self.s
        self.planted = "pattern"
        n = "pb%d" % self.fresh_n
        self.fresh_n += 1
        kw = s.choice(["let", "const"])
        b = ("pbind", kw, n)
        inside = lambda p: s.choice([p, ("plist", [p], s.chance(50)), ("plist", [("plit", 1), p], False), ("ptable", [("a", p)], True)])
        other = s.choice([("plit", 1), ("ptype", "int"), ("p*",), ("plist", [("p*",)], False), ("pbind", kw, n + "q")])
        k = s.draw(7)
        if k == 6:
            # a key that isn't a value
            key = ("ptype", s.choice(["int", "str", "table", "list", "undef", "bool", "float", "fn"]))
            ps = [(key, s.choice([other, ("p*",)]))]
            ps.insert(s.draw(2), ("a", ("p*",)))
            p = inside(("ptable", ps, s.chance(50)))
            return [["match", s.choice([self.gen("int", 1), ("table", [(("lit", "a"), ("lit", 1))])]), [(p, None, [["echo", ("lit", 1)]])]]]
        if k == 0:
            p = ("plist", [inside(b), inside(("pbind", s.choice(["let", "const"]), n))], False)
        elif k == 1:
            p = ("palt", inside(b), inside(other))
        elif k == 2:
            p = ("palt", inside(other), inside(b))
        elif k == 3:
            p = ("palt", inside(b), inside(("pbind", "const" if kw == "let" else "let", n)))
        elif k == 4:
            p = ("palt", inside(b), ("palt", inside(b), inside(other)))
        else:
            # a const that's assigned to
            p = ("palt", inside(("pbind", "const", n)), inside(("pbind", "const", n))) if s.chance(50) else inside(("pbind", "const", n))
            return [["match", self.gen("int", 1), [(p, None, [["assign", n, ("lit", 1)]])]]]
        return [["match", self.gen("int", 1), [(inside(p) if s.chance(40) else p, None, [["echo", ("var", n)]])]]]


check = C04()
