"""Programs that pull the rug from under the interpreter: values vanish, grow and change while something works on them."""

POOL = ["a", "b", "c", "d", "o", "p", "q", "m", "n", "f", "g", "s", "t"]
LISTS = ["a", "b"]
TABLES = ["c", "d", "m", "n"]
OBJS = ["o", "p"]
METHS = ["tostr", "__eq", "__get", "__set", "__call", "__len", "__add", "__lt", "__neg", "__bor", "__iter", "meth", "__mul", "__le"]
PARAMS = {"tostr": 1, "__len": 1, "__neg": 1, "__set": 3, "__call": 2, "meth": 2}


class Wild:
    def __init__(self, s):
        self.s = s
        self.depth = 0
        self.loops = 0

    # ---- expressions (as text)
    def var(self, kind=None):
        s = self.s
        if s.chance(80):
            if kind == "list":
                return s.choice(LISTS)
            if kind == "table":
                return s.choice(TABLES)
            if kind == "obj":
                return s.choice(OBJS)
            if kind == "fn":
                return s.choice(["f", "g"])
            if kind == "str":
                return s.choice(["s", "t"])
            if kind == "set":
                return "q"
        return s.choice(POOL)

    def key(self):
        return self.s.choice(["0", "1", "-1", "2", "'k'", "'v'", "1.5", "true", "undef", "'meth'", "s"])

    def small(self):
        return self.s.choice(["0", "1", "2", "-1", "3", "5"])

    def expr(self, d=2):
        s = self.s
        k = s.draw(48)
        e = self.expr
        if d <= 0 or k < 8:
            return s.choice([self.var(), self.var(), self.var(), "1", "0", "'x'", "'abc' ~ 'd'", "2.5", "undef", "true", "[]", "{}"])
        x = self.var()
        ls, tb, ob, fn, st = (self.var(kk) for kk in ("list", "table", "obj", "fn", "str"))
        if k == 8:
            return f"[{', '.join(e(d - 1) for _ in range(s.draw(4)))}]"
        if k == 9:
            return f"{{{', '.join(self.key() + ': ' + e(d - 1) for _ in range(s.draw(3)))}}}"
        if k == 10:
            return f"{ls}[{self.small()}]"
        if k == 11:
            return f"{tb}[{self.key()}]"
        if k == 12:
            return f"{s.choice([ls, st, ob])}[{self.small()}:{self.small()}]"
        if k == 13:
            return f"({e(d - 1)} ~ {e(d - 1)})"
        if k in (14, 15):
            return f"({e(d - 1)} {s.choice(['+', '==', '!=', '<', '|', '===', '??', '&&', '||', '*', '&', '<=', '-', '^'])} {e(d - 1)})"
        if k == 16:
            return f"\"<#{{{self.flat(d - 1)}}} #{{{self.flat(d - 1)}}}>\""
        if k == 17:
            return f"{x}->tostr()"
        if k == 18:
            return f"{ls}->join({s.choice(['s', 't', repr(','), repr('')])})"
        if k == 19:
            return f"{ls}->{s.choice(['copy', 'pop', 'reverse', 'spread', 'sort', 'clear'])}()"
        if k == 20:
            return f"{ls}->{s.choice(['search', 'count', 'push'])}({e(d - 1)})"
        if k == 21:
            return f"{tb}->{s.choice(['keys', 'values', 'copy', 'clear'])}()"
        if k == 22:
            return f"{tb}->remove({self.key()})"
        if k == 23:
            return f"{fn}({', '.join(e(d - 1) for _ in range(s.draw(3)))})"
        if k == 24:
            return f"{ob}->meth({e(d - 1)})"
        if k == 25:
            return f"({s.choice(['len ', '-', '!', '+'])}{s.choice([x, ob, ls])})"
        if k == 26:
            return f"collections.{s.choice(['set', 'list'])}({', '.join(e(d - 1) for _ in range(s.draw(4)))})"
        if k == 27:
            return f"q->{s.choice(['add', 'remove'])}({s.choice([st, self.small(), self.key()])})"
        if k == 28:
            return f"{ob}->spread()" if s.chance(20) else f"[{ls}->spread()]"
        if k == 29:
            return f"mt.set({s.choice([ob, ls, tb, '[]', '{}'])}, {s.choice(['m', 'n', 'undef', '{}'])})"
        if k == 30:
            return f"mt.get({x})"
        if k >= 46:
            if self.loops > 2:
                return "[]"
            self.loops += 1
            v = s.choice(["i", "j", "a", "o"])
            r = f"{e(d - 1)}{' : ' + e(d - 1) if k == 47 else ''} for {v} <- {s.choice([ls, ls, tb, st, ob, '[1, 2]', repr('xy')])}{' if ' + e(d - 1) if s.chance(40) else ''}"
            self.loops -= 1
            return "{%s}" % r if k == 47 else f"[{r}]"
        if k == 31:
            return f"{st}->{s.choice(['toupper', 'trim', 'tostr', 'toint'])}()"
        if k == 32:
            return f"{st}->split({s.choice(['', repr(','), repr('b')])})"
        if k == 33:
            return f"{st}->rep({self.small()})"
        if k == 34:
            return f"{st}->replace({s.choice(['s', repr('b'), repr('')])}, {s.choice(['t', repr('zz')])})"
        if k == 35:
            return f"({e(d - 1)} ? {e(d - 1)} : {e(d - 1)})"
        if k == 36:
            return self.fn(d)
        if k == 37:
            return f"[{fn}({e(d - 1)}), {e(d - 1)}]"
        if k == 38:
            return f"{ob}({e(d - 1)})"
        if k == 39:
            return f"{ls}->insert({self.small()}, {e(d - 1)})"
        if k == 40:
            return f"collections.table({', '.join(self.key() + ', ' + e(d - 1) for _ in range(s.draw(3)))})"
        if k == 41:
            return f"{ob}.{s.choice(['v', 'k', 'meth'])}"
        if k == 42:
            return f"{fn}({ls}->spread())"
        if k == 43:
            return f"{tb}->{s.choice(['tostr', 'meth', 'nosuch'])}()"
        if k == 44:
            return f"{st}->{s.choice(['startswith', 'search', 'count', 'endswith'])}({s.choice(['s', 't', repr('b')])})"
        return f"({x})->tostr()"

    def flat(self, d):
        """Without interpolation or a function inside."""
        x = self.expr(d)
        return x if '"' not in x and "{" not in x else self.var()

    def fn(self, d):
        s = self.s
        ps = ["x", "y"][:s.draw(3)]
        self.depth += 1
        b = "; ".join([self.stmt(inline=True) for _ in range(s.int(0, 2))] + ["return " + s.choice(ps + [self.expr(1), "undef"])]) + ";"
        self.depth -= 1
        return f"fn({', '.join(ps)}) {{ {b} }}"

    # ---- statements
    def mutate(self):
        s = self.s
        k = s.draw(17)
        ls, tb, ob = self.var("list"), self.var("table"), self.var("obj")
        x = self.var()
        v = self.expr(1)
        return [f"{ls}->clear()", f"{ls}->push({v})", f"{ls}->pop()", f"{ls}[0] = {v}", f"{x} = undef", f"{tb}->remove({self.key()})",
                f"{tb}.k = {v}", f"{tb}[{self.key()}] = undef", f"{tb}->clear()", f"{x} = {v}", f"{ls} = []", f"{ob} = {x}",
                f"mt.set({ob}, {s.choice(['undef', 'm', 'n', '{}'])})", f"{s.choice(['m', 'n'])}.{s.choice(METHS)} = undef",
                f"{ls}->insert(0, {v})", f"{ls}->{s.choice(['reverse', 'sort'])}()", f"{x} = {self.var()}"][k]

    def stmt(self, inline=False):
        s = self.s
        k = s.draw(20)
        if self.depth > 3 or (inline and k > 6):
            return self.mutate()
        if k < 6:
            return self.mutate()
        if k < 9:
            return "echo " + self.expr(2)
        if k == 9:
            return self.var() + " = " + self.expr(2)
        if k == 10:
            return self.expr(2)
        nl = "\n"
        self.depth += 1
        try:
            body = "".join(self.stmt() + nl for _ in range(s.int(1, 3)))
        finally:
            self.depth -= 1
        if k < 13:
            n = "z%d" % s.draw(1000)
            return (f"let {n} = 0\nfor x{n} <- {s.choice([self.var('list'), self.var('list'), self.var('table'), self.var(), self.expr(1)])} {{\n"
                    f"{n} += 1\nif {n} > 12 {{\nbreak\n}}\n{body}}}")
        if k == 13:
            return f"if {self.expr(1)} {{\n{body}}}"
        if k == 14:
            n = "w%d" % s.draw(1000)
            return f"let {n} = 0\nwhile {n} < {s.int(1, 4)} {{\n{n} += 1\n{body}}}"
        if k == 15:
            return f"{s.choice(['m', 'n'])}.{self.method()}"
        if k == 16:
            pat = s.choice(["[x1, *]", "list", "{ .k: * }", "'x'", "1", "[*, *]", "table", "[ let z1, ... ]", "let z2"])
            pat = s.choice(["list", "table", "str", "[*, ...]", "{ .k: *, ... }", "[let z1, ...]", "[*, let z1]", "1 | 'x'", "int", "{ int: * }", "{ .k: *, str: *, ... }"])
            return f"match {s.choice([self.var('list'), self.var(), self.expr(1)])} {{\n{pat} {{\n{body}}}\n* {{\n}}\n}}"
        if k == 17:
            n = "k%d" % s.draw(1000)
            return f"let {n} = [{self.var()} ~ j for j <- {self.var('list')}{s.choice(['', ' if ' + self.var()])}]\n{self.var()} = {n}"
        if k == 18:
            n = "u%d" % s.draw(1000)
            return f"let {n} = {self.expr(2)}\n{self.mutate()}\necho {n}"
        return f"{self.var('fn')} = {self.fn(2)}"

    def method(self):
        s = self.s
        name = s.choice(METHS)
        ps = ["self", "arg", "val"][:PARAMS.get(name, 2)]
        self.depth += 1
        body = "; ".join(self.stmt(inline=True) for _ in range(s.int(0, 3)))
        self.depth -= 1
        ret = {"tostr": s.choice(["'T'", "s", "'t' ~ 1", "self"] + (["1"] if s.chance(20) else [])),
               "__len": "3", "__eq": s.choice(["true", "false"])}.get(name) or s.choice(ps + ["1", "'r'", self.expr(1)])
        return f"{name} = fn({', '.join(ps)}) {{ {body + '; ' if body else ''}return {ret}; }}"

    def session(self):
        s = self.s
        sc = lambda: s.choice(["1", "'x'", "o", "p", "'abc'", "2.5", "s", "c", "[1, 2]", "f", "m"])
        head = ["let s = 'a,b' ~ 'c'", "let t = s[1:]", "let f = fn(x) { return x; }", "let g = undef", "let m = {}", "let n = {}",
                "let c = {'k': 1, 'v': [1]}", "let d = {}", "let a = []", "let b = []", "let q = collections.set(1, 'x')",
                "let o = {'v': 1}", "let p = [1, 2, 3]"]
        out = ["\n".join(head) + "\n"]
        setup = []
        for _ in range(s.int(1, 4)):
            setup.append(f"{s.choice(['m', 'n'])}.{self.method()}")
        setup.append("mt.set(o, m)")
        if s.chance(70):
            setup.append("mt.set(p, %s)" % s.choice(["n", "m"]))
        for v in "ab":
            for _ in range(s.many(0, 5, 75)):
                setup.append(f"{v}->push({sc()})")
        if s.chance(60):
            setup.append(f"d.k = {sc()}")
        if s.chance(40):
            setup.append(f"g = {self.fn(2)}")
        out.append("\n".join(setup) + "\n")
        for _ in range(s.many(2, 12, 85)):
            out.append("\n".join(self.stmt() for _ in range(s.many(1, 3, 40))) + "\n")
        return out
