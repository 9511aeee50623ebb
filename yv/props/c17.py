"""C17: runtime errors: output before them, status, message, line and call trace."""
import re
from ..engine import Check
from .. import client, common, gen, model, progen, syntax
from ..progcheck import walk

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
B = lambda op, a, b: ("bin", op, a, b)


class G(progen.ProgGen):
    def bad(self):
        """An expression that fails (nearly always)."""
        s = self.s
        k = s.draw(34)
        i = lambda: self.gen("int", 1)
        st = lambda: self.gen("str", 1)
        if k == 0:
            return B(s.choice(["+", "-", "*", "/", "//", "%", "<<", "&", "**"]), st(), i())
        if k == 1:
            return B(s.choice(["//", "%"]), i(), B("-", L(3), L(3)))
        if k == 2:
            return ("idx", ("list", [i(), i()]), L(s.choice([2, 5, -3, 1 << 40])))
        if k == 3:
            return ("call", self.gen(s.choice(["int", "str", "bool", "undef"]), 1), [i() for _ in range(s.draw(3))])
        if k == 4:
            return ("un", s.choice(["-", "+", "^"]), self.gen(s.choice(["str", "bool", "undef"]), 1))
        if k == 5:
            return B(s.choice(["<", ">=", ">"]), i(), st())
        if k == 6:
            return ("un", "len", self.gen(s.choice(["int", "bool", "undef"]), 1))
        if k == 7:
            return ("mcall", ("list", []), "pop", [])
        if k == 8:
            return ("mcall", self.gen(s.choice(["int", "str", "list", "table"]), 1), "nosuch", [i()])
        if k == 9:
            return ("mcall", ("list", [i(), L("a")]), "sort", [])
        if k == 10:
            return ("mcall", L("a"), "rep", [L(s.choice([-1, "x"]))])
        if k == 11:
            return ("call", ("mem", V("math"), s.choice(["sqrt", "abs", "exp"])), [st()])
        if k == 12:
            return ("slice", ("list", [i()]), st(), None)
        if k == 13:
            return ("idx", self.gen(s.choice(["int", "bool"]), 1), L("q"))
        if k == 14:
            return ("table", [(("list", []), i())])
        if k == 15:
            return ("mcall", ("list", [i()]), "insert", [L(9), i()])
        if k == 16:
            return B("+", self.bad(), i()) if s.chance(50) else B("+", i(), self.bad())
        if k == 17:
            return ("list", [i(), self.bad(), i()])
        if k == 18:
            return ("tern", self.gen("bool", 1), self.bad(), self.bad())
        if k == 19:
            return B("&&", L(True), self.bad())
        if k == 20:
            return ("interp", ["a", self.flat(self.bad()), "b"])
        if k == 21:
            fs = self.callables("int")
            if fs and self.callok():
                f = s.choice(fs)
                return ("call", V(f.name), [self.bad()] + [self.gen(t, 1) for t in f.typ[1][1:]])
            return self.bad()
        if k == 22:
            return ("call", ("fn", ["x"], [["echo", L("in fn")], ["echo", self.bad()], ["return", [L(1)]]]), [i()])
        if k == 23:
            return ("mcall", self.gen("str", 1), s.choice(["rep", "startswith", "split"]), [L(True)])
        if k == 24:
            return ("mcall", self.gen("list", 1), "join", [L(3)])
        if k == 25:
            return ("lcomp", self.bad(), "jx", ("list", [L(1), L(2)]), None) if False else ("idx", L("str"), L(77))
        if k == 26:
            return ("mcall", ("call", ("mem", V("mt"), "set"), [("table", []), ("table", [(L("m"), ("fn", ["o"], [["return", [self.bad()]]]))])]),
                    "m", [])
        if k == 27:
            return B(s.choice(["+", "<", "*"]), ("call", ("mem", V("mt"), "set"), [("table", []), ("table", [
                (L(x), ("fn", ["o", "p"], [["return", [self.bad()]]])) for x in ("__add", "__lt", "__mul")])]), i())
        if k == 28:
            return ("call", ("call", ("mem", V("mt"), "set"), [("list", []), ("table", [(L("__call"), ("fn", ["o"], [["return", [self.bad()]]]))])]), [i()])
        if k == 29:
            return ("idx", ("call", ("mem", V("mt"), "set"), [("list", []), ("table", [(L("__get"), ("fn", ["o", "i"], [["echo", self.bad()], ["return", [L(1)]]]))])]), i())
        if k == 30:
            return ("interp", ["", ("call", ("mem", V("mt"), "set"), [("list", []), ("table", [(L("tostr"), ("fn", ["o"], [["return", [self.flat(self.bad())]]]))])]), ""])
        if k == 31:
            return ("mcall", ("table", [(L("f"), ("fn", ["o"], [["return", [self.bad()]]]))]), "f", [])
        if k == 32:
            return ("call", ("mem", V("mt"), "set"), [i(), ("table", [])])
        return ("call", L(None), [])

    def flat(self, e):
        """An expression without interpolation, which doesn't nest."""
        return ("un", "-", L("q")) if "('interp'" in repr(e) else e

    def wrap(self, st):
        """The statement somewhere it's reached (perhaps)."""
        s = self.s
        k = s.draw(14)
        self.fresh_n += 1
        n = self.fresh_n
        if k < 4:
            return [st]
        if k == 4:
            return [["if", [(self.gen("bool", 1), [st])], [["echo", L("spared")]]]]
        if k == 5:
            return [["cfor", "i%d" % n, L(0), B("<", V("i%d" % n), L(s.int(1, 4))), ["aug", "+", V("i%d" % n), L(1)],
                     [["echo", V("i%d" % n)], ["if", [(B("==", V("i%d" % n), L(s.draw(4))), [st])], None]]]]
        if k == 6:
            return [["for", "x%d" % n, ("list", [L(1), L(2), L(3)]), [["if", [(B("==", V("x%d" % n), L(s.int(1, 4))), [st])], None], ["echo", V("x%d" % n)]]]]
        if k == 7:
            return [["match", self.gen("int", 1), [(("plit", s.draw(3)), None, [["echo", L("m")]]), (("p*",), None, [st])]]]
        if k < 11:
            f = "ff%d" % n
            body = [["echo", L("enter")]] + self.wrap(st) + [["return", [L(0)]]]
            depth = s.draw(4)
            out = [["fndecl", f, ["a"], body, False]]
            for d in range(depth):
                g = "gg%d_%d" % (n, d)
                c = ("call", V(f), [L(d)])
                how = s.draw(5)
                b = [["expr", c], ["return", [L(1)]]] if how == 0 else [["return", [c]]] if how == 1 else \
                    [["let", "t", ("list", [L(1), c])], ["return", [V("t")]]] if how == 2 else \
                    [["if", [(c, [["echo", L("then")]])], None], ["return", [L(2)]]] if how == 3 else \
                    [["while", c, [["break"]]], ["return", [L(3)]]]
                if s.chance(40):
                    b = [["echo", L("level %d" % d)]] + b
                out.append(["fndecl", g, [], b, False])
                f = g
            return out + [["comment", "call"], ["echo", ("call", V(f), [])]]
        if k == 11 and not self.cyclic:
            return [st]
        if k == 11:
            # recursion
            f = "rr%d" % n
            return [["fndecl", f, ["d"], [["if", [(B(">", V("d"), L(0)), [["return", [("call", V(f), [B("-", V("d"), L(1))])]]])], None], st,
                                          ["return", [L(0)]]], False],
                    ["echo", ("call", V(f), [L(s.draw(30))])]]
        if k == 12:
            return [["expr", ("call", ("fn", ["q"], self.wrap(st) + [["return", [L(0)]]]), [L(1)])]]
        t = "tt%d" % n
        return [["let", t, ("table", [])], ["tfndecl", t, "go", ["x"], [["echo", V("x")]] + [st] + [["return", [L(1)]]]],
                ["echo", ("call", ("mem", V(t), "go"), [L(5)])]]

    def st_fail(self):
        s = self.s
        self.fresh_n += 1
        z = "zz%d" % self.fresh_n
        e = self.bad()
        k = s.draw(16)
        if k >= 14 and "('fn'" in repr(e):
            k = 0  # the parts of these are compiled out of order (see DESIGN.md)
        st = [["echo", e], ["expr", e] if e[0] in ("call", "mcall") else ["echo", e], ["let", z, e], ["const", z, e],
              ["assert", s.choice([L(False), L(None), L(""), e])], ["if", [(e, [["echo", L("t")]])], None],
              ["if", [(L(False), [["echo", L("x")]]), (e, [["echo", L("t")]])], [["echo", L("e")]]],
              ["while", e, [["break"]]], ["for", z, s.choice([L(3), e, L(None)]), [["echo", L("b")]]],
              ["mlet", [("let", z), ("let", z + "b")], [L(1), e]], ["setidx", s.choice([("list", []), L(1), L("s")]), self.gen("int", 1), e],
              ["setidx", ("list", [L(1)]), L(s.choice([5, -2])), L(1)],
              ["match", e, [(("p*",), None, [["echo", L("m")]])]],
              ["match", L(1), [(("p*",), e, [["echo", L("m")]]), (("p*",), None, [["echo", L("n")]])]],
              ["cfor", z, L(0), B("&&", B("<", V(z), L(2)), e if s.chance(30) else L(True)), ["aug", "+", V(z), e if s.chance(50) else L(1)], [["echo", V(z)]]],
              ["echo", ("lcomp", e, z, ("list", [L(1), L(2)]), None)]][k]
        if self.unordered:
            return [["echo", L(1)]]
        return self.wrap(st)

    def block_here(self, n):
        out = super().block_here(n)
        s = self.s
        i = 0
        while i <= len(out) and s.chance(15):
            k = s.draw(6)
            self.fresh_n += 1
            z = "rw%d" % self.fresh_n
            out.insert(s.draw(len(out) + 1) if False else i, [
                ["comment", "line"], ["comment", "\n\n\n# more"], ["comment", "x\n/* a\nb\n\n*/"], ["raw", "let %s = `a\n\nb`" % z],
                ["raw", "let %s = [1,\n2,\n\n3\n]" % z], ["raw", "let %s = {'a': 1,\n\n 'b': (2 +\n 3)\n }" % z]][k])
            i += 1 + s.draw(3)
        return out


ERR = re.compile(r"(\w+)(.*?) \(line (\d+)\)\n((?:In function call on line \d+\n)*)\Z", re.S)


class C17(Check):
    id = "C17"
    technique = "property-based testing: generated programs that fail somewhere, judged by a reference model on output, status, error kind, line and call trace"
    note = ("Random search over whole programs with failing operations planted in every statement position, up to ~35 calls deep; lines are "
            "exact where a statement is on one line, otherwise any line of the statement is accepted; functions run by natives (tostr of an "
            "element, say) are excluded from the trace comparison.")
    rule = ("programs of 3-14 statements with failing operations in conditions, loops, functions, methods, overloads, guards; non-trivial: the "
            "program fails at run time after it printed something or inside a call")
    quick = 50000
    thorough = 900000

    def gen(self, s):
        g = G(s, {"fail": s.choice([0, 8, 20, 40]), "metatable": 0}, size=16, max_depth=3)
        return g.program() + [["echo", L("end")]]

    def show(self, case):
        return syntax.source(case)[0]

    def test(self, case, env):
        it, st, src = common.model_run(case, max_steps=15000)
        r = env.run(client.EXEC, src)
        f = common.verdict(it, st, r)
        labels = ["status%d" % st] + (["depth%d" % min(len(it.trace), 5)] if st > 1 else [])
        if f is None and st > 1:
            m = ERR.match(common.latin(r.err))
            if not m:
                f = f"message: {r.err[:500]!r} isn't one message with a line and a trace"
            else:
                got = int(m.group(3))
                calls = [int(x) for x in re.findall(r"line (\d+)", m.group(4))]
                want = it.trace[::-1]
                lo, hi = it.errline
                if not lo <= got <= hi:
                    f = f"line: the error is on line {lo}-{hi}, reported {got}: {r.err[:400]!r}"
                elif not it.native_calls:
                    if len(calls) != len(want):
                        f = f"trace: calls on lines {want}, reported {calls}"
                    elif any(not a <= c <= b for c, (a, b) in zip(calls, want)):
                        f = f"trace: calls on lines {want}, reported {calls}"
        return f, labels, st > 1 and (len(it.out) > 0 or len(it.trace) > 0)


check = C17()
