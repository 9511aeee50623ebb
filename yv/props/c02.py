"""C02: the same program with literal operands and with variables, parameters and call results in their place."""
from ..engine import Check, Discard
from .. import client, common, gen, model, syntax


class Gen(gen.ExprGen):
    """Literal expressions, nested in containers too."""
    inside = False

    def x(self, typ="any", d=None):
        return self.gen(typ, self.s.int(0, 3) if d is None else d)

    def g_int(self, d):
        s = self.s
        k = s.draw(100)
        if k < 6:
            return ("bin", s.choice(["//", "%"]), self.gen("int", d), self.gen("int", d))
        if k < 10:
            return ("un", "len", self.lst(d))
        return super().g_int(d)

    def g_str(self, d):
        s = self.s
        k = s.draw(10)
        if k == 0 and not self.inside:
            self.inside = True      # they don't nest
            r = ("interp", [self.gen("any", d), "-", self.gen("any", d)])
            self.inside = False
            return r
        if k == 1:
            return ("mcall", self.gen(s.choice(["int", "bool", "float"]), d), "tostr", [])
        return super().g_str(d)

    def lst(self, d):
        return ("list", [self.gen("any", d) for _ in range(self.s.draw(4))])

    def tab(self, d):
        return ("table", [(self.gen(self.s.choice(["int", "str", "any"]), d), self.gen("any", d)) for _ in range(self.s.draw(4))])


class C02(Check):
    id = "C02"
    technique = ("property-based testing (metamorphic): each program with literals is run against the same program with variables, "
                 "parameters and call results in their place, and both against a reference interpreter")
    note = ("Random search over literal expressions of depth up to 4 in every context a statement offers, failing ones included; "
            "output, status and the whole error text must agree.")
    rule = ("programs of 1-6 statements with literal expressions in varied contexts; non-trivial: at least one operator is applied to "
            "literals only and at least one literal is replaced")
    quick = 36000
    thorough = 1500000

    def gen(self, s):
        g = Gen(s, {}, leaf_lit=100, wrong=4)
        self.n = 0
        body = []
        for i in range(s.int(1, 6)):
            body += self.stmt(s, g, 2)
        lits = []
        for x in _lits(body):
            lits.append(x)
        how = [s.draw(6) if s.chance(85) else 0 for _ in lits]
        wrap = s.chance(50) and len(lits) <= 100
        return body, how, wrap

    def stmt(self, s, g, d):
        self.n += 1
        v = "x%d" % self.n
        k = s.draw(24)
        sub = lambda: [y for _ in range(s.int(1, 2)) for y in (self.stmt(s, g, d - 1) if d > 0 else [["echo", g.x()]])]
        if k <= 2:
            return [["echo", g.x(d=s.int(0, 4))]]
        if k == 3:
            return [[s.choice(["let", "const"]), v, g.x()], ["echo", ("var", v)], ["echo", ("bin", "~", ("var", v), g.x())]]
        if k == 4:
            arms = [(g.x(s.choice(["bool", "any"])), sub()) for _ in range(s.int(1, 2))]
            return [["if", arms, sub() if s.chance(60) else None]]
        if k == 5:
            return [["while", g.x("bool"), sub() + [["break"]]]]
        if k == 6:
            return [["cfor", v, g.x("int", 1), ("bin", "&&", g.x("bool"), ("bin", "<", ("var", v), g.x("int", 1))),
                     ["aug", "+", ("var", v), ("lit", 1)], sub() + [["break"]]]]
        if k == 7:
            return [["echo", ("tern", g.x(), g.x(), g.x())]]
        if k == 8:
            return [["echo", ("idx", ("list", [g.x(d=1) for _ in range(s.int(1, 3))]), g.x("int"))]]
        if k == 9:
            return [["let", v, g.tab(2)], ["echo", ("un", "len", ("var", v))], ["echo", ("idx", ("var", v), g.x(s.choice(["int", "str"])))],
                    ["setidx", ("var", v), g.x(), g.x()], ["echo", ("un", "len", ("var", v))]]
        if k == 10:
            f = "f%d" % self.n
            ps = ["pa", "pb"][:s.draw(3)]
            return [["fndecl", f, ps, sub() + [["return", [g.x() for _ in range(s.int(1, 2))]]], False],
                    ["echo", ("call", ("var", f), [g.x(d=2) for _ in range(s.draw(4))])],
                    ["mlet", [("let", v), ("let", v + "b")], [("call", ("var", f), [g.x(d=1)])]],
                    ["echo", ("bin", "~", ("var", v), ("var", v + "b"))]]
        if k == 11:
            g.inside = True
            r = [["echo", ("interp", [g.x(), " ", g.x(), "", g.x()])]]
            g.inside = False
            return r
        if k == 12:
            return [["match", g.x(), [(("ptype", s.choice(["int", "str", "float", "bool"])), g.x("bool") if s.chance(50) else None, sub()),
                                      (("plit", s.choice([0, 1, True, False, None, "", "a"])), None, sub()),
                                      (("p*",), None, sub())]]]
        if k == 13:
            t = s.choice(["int", "float", "str", "bool"])
            return [["let", v, g.x(t)], ["aug", s.choice(["+", "-", "*", "~", "??", "&&", "||", "|", "<<", ">>", "/", "//", "%", "^", "&^"]),
                                         ("var", v), g.x(t)], ["echo", ("var", v)]]
        if k == 14:
            return [["assert", ("bin", "||", g.x("bool"), ("lit", s.chance(90)))]]
        if k == 15:
            return [["echo", ("lcomp", g.x(), v, ("list", [("lit", 1), ("lit", 2)]), g.x("bool") if s.chance(60) else None)]]
        if k == 16:
            b = lambda: g.x("int", 1) if s.chance(70) else None
            return [["echo", ("slice", s.choice([g.x("str", 1), ("list", [g.x("any", 0) for _ in range(4)])]), b(), b())]]
        if k == 17:
            return [["expr", g.x()]]
        if k == 18:
            dead = sub()
            return [["if", [(("bin", "&&", g.x("bool"), ("lit", False)), dead)], None], ["echo", ("bin", "||", ("lit", True), g.x())]]
        if k == 19:
            return [["for", v, s.choice([g.x("str"), ("list", [g.x(d=1) for _ in range(3)])]), [["echo", ("bin", "~", g.x(), ("var", v))]] + sub()]]
        if k == 20:
            return [["echo", g.tab(1) if s.chance(30) else g.lst(2)]]
        if k == 21:
            return [["mlet", [("let", v), ("const", v + "b")], [g.x(), g.x()]], ["echo", ("bin", "~", ("var", v), ("var", v + "b"))]]
        if k == 22:
            return [["echo", ("bin", s.choice(["==", "!=", "<", ">=", "===", "+", "~", "**", "//", "<<"]), g.x("num"), g.x("num"))]]
        return [["echo", ("un", s.choice(["-", "+", "^", "!", "len"]), g.x())]]

    def programs_of(self, case):
        """-> (A, B, replaced)"""
        body, how, wrap = case
        lits = list(_lits(body))
        pre = [["fndecl", "id", ["v"], [["return", [("var", "v")]]], False]]
        params, args, new = [], [], {}
        rep = 0
        for i, (l, h) in enumerate(zip(lits, how)):
            n = "L%d" % i
            if h == 0 or (h == 5 and not wrap):
                continue
            rep += 1
            if h in (1, 3, 4):
                pre.append(["let", n, ("list", [l]) if h == 4 else l])
            if h == 1:
                new[i] = ("var", n)
            elif h == 2:
                new[i] = ("call", ("var", "id"), [l])
            elif h == 3:
                new[i] = ("call", ("var", "id"), [("var", n)])
            elif h == 4:
                new[i] = ("idx", ("var", n), ("lit", 0))
            else:
                params.append(n)
                args.append(l)
                new[i] = ("var", n)
        count = [-1]

        def sub(x):
            if isinstance(x, tuple) and x and x[0] == "lit":
                count[0] += 1
                return new.get(count[0], x)
            if isinstance(x, (list, tuple)):
                return type(x)(sub(y) for y in x)
            return x
        def whole(b):
            if wrap:
                return pre + [["fndecl", "main", params, b + [["return", [("lit", 0)]]], False], ["echo", ("call", ("var", "main"), args)]]
            return pre + b
        return whole(sub_copy(body)), whole(sub(body)), rep

    def show(self, case):
        a, b, _ = self.programs_of(case)
        return syntax.source(a)[0] + "=== and ===\n" + syntax.source(b)[0]

    def test(self, case, env):
        a, b, rep = self.programs_of(case)
        it, st, src = common.model_run(a)
        ra = env.run(client.EXEC, src)
        srcb = syntax.source(b)[0]
        rb = env.run(client.EXEC, srcb)
        labels = ["status%d" % st]
        if b"SyntaxError: Too many variables" in rb.err:
            raise Discard("too many variables without literals")
        f = common.crashed(ra) or common.crashed(rb)
        if not f:
            if ra.status != rb.status or ra.out != rb.out:
                f = f"differ: with literals status {ra.status} {ra.out[-600:]!r} {ra.err[:300]!r}, without {rb.status} {rb.out[-600:]!r} {rb.err[:300]!r}"
            elif ra.err != rb.err:
                f = f"errors differ: {ra.err[:300]!r}, without literals {rb.err[:300]!r}"
            else:
                f = common.verdict(it, st, ra)
        folds = any(_fold(x) for x in _nodes(a))
        return f, labels, folds and rep > 0


def sub_copy(x):
    return type(x)(sub_copy(y) for y in x) if isinstance(x, (list, tuple)) else x


def _nodes(x):
    if isinstance(x, (list, tuple)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from _nodes(y)


def _lits(x):
    if isinstance(x, tuple) and x and x[0] == "lit":
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _lits(y)


def _fold(x):
    return x[0] in ("bin", "un", "tern") and all(not isinstance(y, tuple) or y[0] == "lit" for y in x[1:])


check = C02()
