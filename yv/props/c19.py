"""C19: memory: no access it shouldn't make, no leak; destructors exactly once."""
from ..engine import Check, Discard
from .. import api, client, common, gen, model, progcheck, progen, syntax, wild
from . import c17

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
B = lambda op, a, b: ("bin", op, a, b)


class G(c17.G):
    """Programs without values that refer to themselves, failing anywhere, with values that own much."""

    def st_own(self):
        """Containers in containers, moved about."""
        s = self.s
        self.fresh_n += 1
        n = "own%d" % self.fresh_n
        out = [["let", n, ("list", [self.rich(2) for _ in range(s.int(0, 3))])]]
        self.declare(n, "own", const=True, reserved=True)
        x = V(n)
        if s.chance(2):
            # many references to a value
            v, m = n + "v", s.choice([130, 260, 300, 70000])
            out += [["let", v, self.rich(2)],
                    ["cfor", n + "i", L(0), B("<", V(n + "i"), L(m)), ["aug", "+", V(n + "i"), L(1)], [["expr", ("mcall", x, "push", [V(v)])]]]]
            self.declare(v, "own", const=True, reserved=True)
            if m > 300:
                return out + [s.choice([["expr", ("mcall", x, "clear", [])], ["echo", ("un", "len", x)],
                                        ["cfor", n + "i", L(0), B("<", V(n + "i"), L(m)), ["aug", "+", V(n + "i"), L(1)],
                                         [["expr", ("mcall", x, "pop", [])]]]]), ["echo", V(v)]]
            if s.chance(50):
                out.append(["expr", ("mcall", x, "clear", [])])
            out.append(["echo", V(v)])
        for _ in range(s.int(1, 5)):
            k = s.draw(13)
            i = L(s.choice([0, 0, 1, -1]))
            if k < 3:
                out.append(["expr", ("mcall", x, "push", [self.rich(2)])])
            elif k == 3:
                out.append(["setidx", x, i, self.rich(2)])
            elif k == 4:
                out.append(["expr", ("mcall", x, s.choice(["pop", "clear", "reverse", "sort"]), [])])
            elif k == 5:
                out.append(["echo", s.choice([x, ("mcall", x, "tostr", []), ("mcall", x, "join", [L(",")]), B("~", x, x), ("idx", x, i)])])
            elif k == 6:
                out.append(["expr", ("mcall", x, "insert", [i, self.rich(1)])])
            elif k == 7:
                out.append(["echo", ("mcall", B("+", x, ("list", [self.rich(1)])), "copy", [])])
            elif k == 8:
                out.append(["for", n + "e", ("mcall", x, "copy", []), [["echo", V(n + "e")]] + self.block_here(s.draw(2))])
            elif k == 9:
                out.append(["echo", ("slice", x, i, None)])
            elif k == 10:
                out.append(["expr", ("mcall", x, s.choice(["search", "count"]), [self.rich(1)])])
            elif k == 11:
                out.append(["echo", ("call", ("fn", ["a", "b"], [["return", [V("b")]]]), [("mcall", x, "spread", [])])])
            else:
                out += self.block_here(1)
        return out

    def rich(self, d):
        s = self.s
        k = s.draw(18)
        if d <= 0 or k < 4:
            return self.gen(s.choice(["int", "str", "float", "undef"]), 1)
        if k < 7:
            return ("list", [self.rich(d - 1) for _ in range(s.draw(4))])
        if k < 10:
            return ("table", [(L(s.choice(["a", "bc", 1, 2.5, True])), self.rich(d - 1)) for _ in range(s.draw(3))])
        if k == 10:
            return ("call", ("mem", V("collections"), "set"), [self.gen(s.choice(["int", "str"]), 1) for _ in range(s.draw(4))])
        if k == 11:
            return self.lambda_(("fn", ("int",) * s.draw(2), "int"))
        if k == 12:
            # an object, whose text may fail
            r = s.choice([L("obj"), L(1), B("+", L("a"), L(1)), ("interp", ["<", L(5), ">"])])
            ms = [(L(m), ("fn", ["self", "x"], [["return", [r]]])) for m in ["tostr", "__add", "__eq"][:s.int(1, 3)]]
            return ("call", ("mem", V("mt"), "set"), [self.rich(d - 1) if s.chance(40) else ("table", []), ("table", ms)])
        if k == 13:
            return B("~", self.gen("str", 1), self.rich(d - 1))
        if k == 14:
            return ("interp", ["a", self.gen(s.choice(["int", "str"]), 0), ""])
        if k == 15:
            return ("slice", B("~", self.gen("str", 1), L("suffix")), L(s.draw(3)), None)
        if k == 16:
            return ("mcall", self.gen("str", 1), s.choice(["split", "toupper", "trim"]), [L("a")][:0])
        return ("mcall", ("table", [(L("k"), self.rich(d - 1)), (L("l"), L(1))]), s.choice(["keys", "values", "copy", "clear"]), [])


MODES = [(56, "exec"), (4, "msan"), (15, "text"), (12, "repl"), (13, "compile")]


class C19(Check):
    id = "C19"
    technique = ("fuzzing under AddressSanitizer, UBSan and MemorySanitizer with counting of all allocations: generated programs that "
                 "succeed and fail anywhere, sessions in which values vanish while in use, and call sequences of the API with userdata")
    rule = ("programs whose values don't refer to themselves (no block may be left), sessions of up to 14 inputs in which overloads and loop "
            "bodies change what is worked on, API sequences whose userdata log their destruction; non-trivial: at least 5 allocating "
            "statements, 3 inputs that ran, or a userdata")
    note = ("Random search. Recursive local functions and closures that capture themselves are values that refer to themselves and aren't "
            "checked for leaks; running out of memory isn't injected (the code doesn't check for it).")
    quick = 40000
    thorough = 1500000
    variants = ("asan", "msan")

    def gen(self, s):
        k = s.draw(100)
        if k < 50:
            g = G(s, {"recfn": 0, "own": 12, "fail": s.choice([0, 4, 15, 40])}, cyclic=False, size=22, max_depth=3)
            return "prog", s.weighted(MODES), g.program() + [["echo", L("end")]]
        if k < 80:
            return "wild", s.chance(6), wild.Wild(s).session()
        g = api.ApiGen(s, nfns=s.int(0, 3))
        g.emit(("libs",))
        for _ in range(s.many(3, 50, 96)):
            if s.chance(12):
                g.emit(("ud", s.choice("AB")))
            g.step()
        return "api", g.finish(), g.api

    def show(self, case):
        if case[0] == "prog":
            return syntax.source(case[2])[0]
        if case[0] == "wild":
            return "---\n".join(case[2])
        return api.show(case[1])

    def test(self, case, env):
        kind = case[0]
        if kind == "api":
            r = env.run(client.API, api.text(case[1]))
            a = case[2]
            f = api.compare(a, r)
            if f is None and not a.cyclic and r.leaked:
                f = f"leak: {r.leaked} blocks"
            return f, ["api"], a.uds > 0
        if kind == "wild":
            r = env.run(client.REPL | client.SHORT, *case[2], variant="msan" if case[1] else "asan")
            if r.crash in ("cpu", "memcap"):
                raise Discard("long")
            return common.crashed(r), ["wild"] + sorted({"wild-status%d" % x for x in r.statuses}), sum(x == 0 for x in r.statuses) >= 3
        mode, stmts = case[1:]
        src = syntax.source(stmts)[0]
        if mode == "repl":
            n = len(stmts) // 2
            parts = [syntax.source(p)[0] for p in (stmts[:n], stmts[n:]) if p]
            r = env.run(client.REPL | client.SHORT, *parts)
        elif mode == "msan":
            r = env.run(client.EXEC | client.SHORT, src, variant="msan")
            r.leaked = 0
        else:
            r = env.run({"exec": client.EXEC, "text": client.TOSTR, "compile": client.COMPILE}[mode] | client.SHORT, src)
        if r.crash in ("cpu", "memcap"):
            raise Discard("long")
        f = common.crashed(r)
        if f is None and r.leaked:
            f = f"leak: {r.leaked} blocks (status {r.status} {r.err[:100]!r})"
        return f, [mode] + (["status%d" % r.status] if not r.crash else []), \
            sum(x[0] in ("list", "table", "fn", "interp") or x[:2] == ("bin", "~") for x in progcheck.walk(stmts)) >= 5


check = C19()
