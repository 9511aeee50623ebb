"""Generates whole programs: well-typed (almost always), terminating, printing as they go."""
from . import gen
from .gen import ExprGen

STMTS = {"echo": 20, "let": 16, "const": 4, "mlet": 4, "assign": 12, "massign": 4, "aug": 8, "if": 10, "while": 4, "cfor": 5,
         "for": 6, "fndecl": 6, "call": 5, "listop": 6, "tableop": 5, "match": 4, "setop": 1, "assert": 1, "recfn": 1, "brk": 6,
         "comp": 3, "fail": 0, "metatable": 0, "tfn": 1, "fassign": 1, "closures": 1, "pair": 1}

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "n", "p", "q", "r", "u", "w", "x", "y", "z"]


class Var:
    __slots__ = ("name", "typ", "const", "reserved", "fnlevel", "seq", "plain")
    count = 0

    def __init__(self, name, typ, const=False, reserved=False, fnlevel=0):
        Var.count += 1
        self.seq = Var.count
        self.plain = False
        self.name, self.typ, self.const, self.reserved, self.fnlevel = name, typ, const, reserved, fnlevel


HOST = ["io", "require", "__require_c__"]
SCALARS = ["int", "int", "float", "bool", "str", "undef"]


class ProgGen(ExprGen):
    def __init__(self, s, weights=None, size=25, shadow=25, errors=0, closures=30, assign_globals=True, max_depth=4,
                 leaf_lit=30, cyclic=True, wrong=0, host=0):
        super().__init__(s, {}, leaf_lit=leaf_lit, wrong=wrong)
        self.w = dict(STMTS)
        self.w.update(weights or {})
        self.budget = size
        self.shadow, self.errors, self.closures, self.max_depth = shadow, errors, closures, max_depth
        self.scopes = [[]]
        self.host = host
        self.fnlevel = 0
        self.loops = [0]
        self.rettypes = [None]
        self.fresh_n = 0
        self.cyclic = cyclic
        self.depth = 0
        self.compat = True
        self.unordered = 0     # inside a loop over a table: only echo
        self.nfn = 0
        self.infn = []
        self.fnlimit = 1 << 60     # functions declared from here on may not be called (so that calls end)

    # ---- scopes
    def visible(self):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    out.append(v)
        return out

    def vars(self, typ=None):
        return [v for v in self.visible() if (typ is None or v.typ == typ)
                and (not isinstance(v.typ, tuple) or v.seq < self.fnlimit)]

    def newname(self, prefix=None):
        here = {v.name for v in self.scopes[-1]}
        if len(self.scopes) > 1 and self.s.chance(self.shadow):
            cand = [v.name for v in self.visible() if v.name not in here and not v.reserved]
            if cand:
                return self.s.choice(cand)
        self.fresh_n += 1
        n = self.fresh_n
        return NAMES[n % len(NAMES)] + (str(n // len(NAMES)) if n >= len(NAMES) else "")

    def declare(self, name, typ, const=False, reserved=False):
        v = Var(name, typ, const, reserved, self.fnlevel)
        self.scopes[-1].append(v)
        return v

    # ---- expressions
    def leaf(self, typ):
        if isinstance(typ, tuple) or typ in ("list", "table", "set"):
            vs = self.vars(typ)
            if vs and not self.s.chance(15):
                return ("var", self.s.choice(vs).name)
            return self.make(typ, 0)
        vs = self.vars(typ)
        if vs and not self.s.chance(self.leaf_lit):
            return ("var", self.s.choice(vs).name)
        if typ == "int":
            return ("lit", gen.gint(self.s, 5))
        if typ == "float":
            return ("lit", self.s.int(-40, 80) / 8)
        if typ == "str":
            return gen.gstr_lit(self.s, 4, 3)
        return ("lit", gen.scalar(self.s, typ))

    def make(self, typ, d):
        s = self.s
        if typ == "list":
            return ("list", [self.gen("int", max(0, d - 1)) for _ in range(s.many(0, 5, 70))])
        if typ == "table":
            return ("table", [(("lit", s.choice(["a", "b", "c", "k", 0, 1, 2])), self.gen("int", max(0, d - 1)))
                              for _ in range(s.many(0, 4, 65))])
        if typ == "set":
            return ("call", ("mem", ("var", "collections"), "set"), [self.gen("int", 0) for _ in range(s.many(0, 4, 65))])
        if isinstance(typ, tuple):
            return self.lambda_(typ)
        return self.leaf(typ)

    def gen(self, typ, d):
        if isinstance(typ, tuple):
            return self.leaf(typ)
        if typ in ("list", "table", "set"):
            s = self.s
            k = s.draw(100)
            if d <= 0 or k < 50:
                return self.leaf(typ)
            if k < 75:
                return self.make(typ, d)
            if typ == "list":
                if k < 85:
                    return ("bin", "+", self.gen("list", d - 1), self.gen("list", d - 1))
                if k < 93:
                    return ("slice", self.gen("list", d - 1), self.bound(), self.bound())
                return ("mcall", self.gen("list", d - 1), "copy", []) if k < 96 else self.comp("list")
            if typ == "table":
                if k < 88:
                    return ("bin", "|", self.gen("table", d - 1), self.gen("table", d - 1))
                return ("mcall", self.gen("table", d - 1), "copy", []) if k < 95 else self.comp("table")
            return ("bin", s.choice(["|", "&", "^", "&^"]), self.gen("set", d - 1), self.gen("set", d - 1))
        return super().gen(typ, d)

    def bound(self):
        k = self.s.draw(3)
        return None if k == 0 else ("lit", self.s.int(0, 4)) if k == 1 else ("lit", -self.s.int(1, 4))

    def callables(self, ret):
        # not recursive: only functions whose declaration is complete
        return [v for v in self.visible() if isinstance(v.typ, tuple) and v.typ[0] == "fn" and v.typ[2] == ret
                and not v.reserved and v.seq < self.fnlimit]

    def g_int(self, d):
        s = self.s
        k = s.draw(100)
        if k >= 90:
            fs = self.callables("int")
            if fs and self.callok():
                return self.callexpr(s.choice(fs), d)
        elif k >= 80:
            c = s.choice(["list", "table", "str", "set"] if s.chance(20) else ["list", "str"])
            return ("un", "len", self.gen(c, d))
        elif k >= 76:
            return ("mcall", self.gen("list", d), s.choice(["count"]), [self.gen("int", 0)])
        elif k >= 68:
            return ("bin", "??", ("idx", self.gen("table", d), ("lit", s.choice(["a", "b", "c", "k", 0, 1, 2]))),
                    self.gen("int", d))
        return super().g_int(d)

    def g_str(self, d):
        s = self.s
        k = s.draw(100)
        if k >= 92:
            fs = self.callables("str")
            if fs and self.callok():
                return self.callexpr(s.choice(fs), d)
        elif k >= 82:
            parts = []
            for _ in range(s.int(1, 3)):
                parts.append(self.gen(s.choice(["int", "bool", "float"]), min(d, 1)))
                parts.append(s.choice(["", "-", " ", "x="]))
            return ("interp", parts)
        elif k >= 74:
            return ("mcall", self.gen("str", d), s.choice(["toupper", "tolower", "trim", "tostr"]), [])
        elif k >= 70:
            return ("slice", self.gen("str", d), self.bound(), self.bound())
        elif k >= 66:
            return ("mcall", self.gen(s.choice(["list", "int", "bool", "float"]), d), "tostr", [])
        return super().g_str(d)

    def g_bool(self, d):
        s = self.s
        k = s.draw(100)
        if k >= 93:
            fs = self.callables("bool")
            if fs and self.callok():
                return self.callexpr(s.choice(fs), d)
        elif k >= 88:
            t = s.choice(["list", "table", "set"])
            return ("bin", s.choice(["==", "!="]), self.gen(t, d), self.gen(t, d))
        return super().g_bool(d)

    def g_undef(self, d):
        if self.s.chance(30):
            return ("idx", self.gen("table", d), ("lit", "nokey"))
        return ("lit", None)

    def callok(self):
        return self.unordered == 0

    def callexpr(self, v, d, extra=True):
        s = self.s
        args = [self.gen(t, min(d, 2)) for t in v.typ[1]]
        if extra and s.chance(10):
            args.append(self.gen("int", 0))
        return ("call", ("var", v.name), args)

    # ---- functions
    def fntype(self):
        s = self.s
        ret = s.choice(["int", "int", "str", "bool", "list"])
        if s.chance(self.closures) and self.fnlevel < 3:
            ret = ("fn", ("int",) * s.draw(2), "int")
        return ("fn", tuple(s.choice(["int", "int", "str", "bool", "list", "float"]) for _ in range(s.many(0, 3, 60))), ret)

    def enter_fn(self, params, ret):
        self.scopes.append([])
        self.fnlevel += 1
        self.loops.append(0)
        self.rettypes.append(ret)
        for n, t, const in params:
            self.declare(n, t, const=const)

    def leave_fn(self):
        self.scopes.pop()
        self.fnlevel -= 1
        self.loops.pop()
        self.rettypes.pop()

    def params(self, types):
        out, used = [], set()
        for t in types:
            n = self.newname()
            while n in used:
                self.fresh_n += 1
                n = "p%d" % self.fresh_n
            used.add(n)
            out.append((n, t, self.s.chance(15)))
        return out

    def fnbody(self, params, ret, n):
        self.enter_fn(params, ret)
        body = self.block_here(n)
        body.append(["return", [self.gen(ret, 2) if not isinstance(ret, tuple) else self.fnvalue(ret)]])
        self.leave_fn()
        return body

    def fnvalue(self, typ):
        """An expression for a function of the type."""
        vs = self.vars(typ)
        if vs and self.s.chance(50):
            return ("var", self.s.choice(vs).name)
        return self.lambda_(typ)

    def lambda_(self, typ):
        ps = self.params(typ[1])
        u, self.unordered = self.unordered, 0
        n = self.s.draw(3) if self.budget > 3 and self.fnlevel < 3 else 0
        body = self.fnbody(ps, typ[2], n)
        self.unordered = u
        return ("fn", [("const " if c else "") + n for n, _, c in ps], body)

    # ---- statements
    def block(self, n, decl=()):
        self.scopes.append([])
        for name, t, const, reserved in decl:
            self.declare(name, t, const, reserved)
        r = self.block_here(n)
        self.scopes.pop()
        return r

    def block_here(self, n):
        out = []
        self.depth += 1
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out += self.stmt()
        self.depth -= 1
        return out

    def program(self, n=None):
        n = n if n is not None else self.s.int(3, 14)
        out = []
        if self.host and self.s.chance(self.host):
            # globals of the host used as variables
            self.scopes.insert(0, [])
            for name in HOST:
                if self.s.chance(60):
                    t = self.s.choice(SCALARS)
                    out.append(["assign", name, self.gen(t, 2)])
                    self.scopes[0].append(Var(name, t, False, False, 0))
        return out + self.block_here(n)

    def stmt(self):
        s = self.s
        for _ in range(20):
            k = s.weighted([(w, n) for n, w in self.w.items() if w])
            if self.unordered and k not in ("echo", "let", "if", "const"):
                k = "echo"
            r = getattr(self, "st_" + k)()
            if r is not None:
                return r
        return [["echo", ("lit", 0)]]

    def nest(self):
        return self.depth < self.max_depth and self.budget > 0

    def sub(self):
        return self.s.int(1, 4)

    def anytype(self):
        s = self.s
        k = s.draw(100)
        if k < 70:
            return s.choice(SCALARS)
        if k < 84:
            return "list"
        if k < 92:
            return "table"
        if k < 94:
            return "set"
        return ("fn", ("int",) * s.draw(3), "int")

    def st_echo(self):
        t = self.s.weighted([(6, "int"), (3, "str"), (2, "bool"), (2, "float"), (2, "list"), (1, "table"), (1, "undef"),
                             (1, "set")])
        return [["echo", self.gen(t, 2)]]

    def st_let(self, const=False):
        t = self.anytype()
        e = self.gen(t, 2) if not isinstance(t, tuple) else self.fnvalue(t)
        n = self.newname()
        self.declare(n, t, const=const).plain = True
        return [["const" if const else "let", n, e]]

    def st_const(self):
        return self.st_let(True)

    def st_mlet(self):
        s = self.s
        k = s.int(2, 3)
        vals, names, types = [], [], []
        for _ in range(k):
            t = s.choice(SCALARS + ["list"])
            types.append(t)
            vals.append(self.gen(t, 1))
        for t in types:
            n = self.newname()
            while n in names:
                self.fresh_n += 1
                n = "t%d" % self.fresh_n
            names.append(n)
        kws = ["const" if s.chance(20) else "let" for _ in names]
        for n, t, kw in zip(names, types, kws):
            self.declare(n, t, const=kw == "const").plain = True
        return [["mlet", list(zip(kws, names)), vals]]

    def assignable(self, typ=None):
        return [v for v in self.visible() if not v.const and not v.reserved and (typ is None or v.typ == typ)]

    def st_assign(self):
        vs = self.assignable()
        if not vs:
            return None
        v = self.s.choice(vs)
        if isinstance(v.typ, tuple):
            return None
        return [["assign", v.name, self.gen(v.typ, 3)]]

    def st_massign(self):
        s = self.s
        vs = [v for v in self.assignable() if not isinstance(v.typ, tuple)]
        if len(vs) < 2:
            return None
        k = min(len(vs), s.int(2, 3))
        vs = s.shuffle(vs)[:k]
        if s.chance(40):
            # swap of two of the same type
            for a in vs:
                for b in self.assignable(a.typ):
                    if a is not b:
                        return [["massign", [("var", a.name), ("var", b.name)], [("var", b.name), ("var", a.name)]]]
        return [["massign", [("var", v.name) for v in vs], [self.gen(v.typ, 1) for v in vs]]]

    AUG = {"int": ["+", "-", "*", "|", "&", "^", "&^", "<<", ">>", "??"], "str": ["~", "??"], "float": ["+", "-", "*", "/"],
           "bool": ["&&", "||"], "list": ["+"]}

    def st_aug(self):
        s = self.s
        vs = [v for v in self.assignable() if v.typ in self.AUG]
        if not vs:
            return None
        v = s.choice(vs)
        op = s.choice(self.AUG[v.typ])
        if v.typ == "list":
            if self.loops[-1]:
                return None
            return [["aug", op, ("var", v.name), self.gen("list", 1)]]
        e = ("lit", s.int(0, 9)) if op in ("<<", ">>") else self.gen(v.typ, 1)
        return [["aug", op, ("var", v.name), e]]

    def st_if(self):
        if not self.nest():
            return None
        s = self.s
        arms = []
        for _ in range(s.many(1, 3, 30)):
            c = self.gen("any" if s.chance(20) else "bool", 2)
            arms.append((c, self.block(self.sub())))
        els = self.block(self.sub()) if s.chance(50) else None
        return [["if", arms, els]]

    def st_while(self):
        if not self.nest():
            return None
        s = self.s
        self.fresh_n += 1
        n = "i%d" % self.fresh_n
        out = [["let", n, ("lit", 0)]]
        self.declare(n, "int", reserved=True)
        k = s.int(1, 4)
        self.loops[-1] += 1
        inc = ["aug", "+", ("var", n), ("lit", 1)]
        c = ("bin", "<", ("var", n), ("lit", k))
        if s.chance(20):
            c = ("bin", "&&", c, self.gen("bool", 1))
        if s.chance(20):
            # leaves by break
            body = [inc, ["if", [(("bin", ">", ("var", n), ("lit", k)), [["break"]])], None]]
            c = s.choice([("lit", True), ("lit", 1), ("bin", "==", ("lit", 1), ("lit", 1))])
            body = body + self.block(self.sub())
        else:
            body = [inc] + self.block(self.sub())
        self.loops[-1] -= 1
        out.append(["while", c, body])
        return out

    def st_cfor(self):
        if not self.nest():
            return None
        s = self.s
        n = self.newname()
        self.scopes.append([])
        self.declare(n, "int", reserved=True)
        self.loops[-1] += 1
        lo, k, st = s.int(-2, 3), s.int(0, 4), s.int(1, 2)
        body = self.block(self.sub())
        if s.chance(75):
            r = ["cfor", n, ("lit", lo), ("bin", "<", ("var", n), ("lit", lo + k)),
                 ["aug", "+", ("var", n), ("lit", st)], body]
        else:
            r = ["cfor", n, ("lit", lo + k), ("bin", ">", ("var", n), ("lit", lo)),
                 ["assign", n, ("bin", "-", ("var", n), ("lit", st))], body]
        self.loops[-1] -= 1
        self.scopes.pop()
        return [r]

    def st_for(self):
        if not self.nest():
            return None
        s = self.s
        k = s.draw(100)
        if k < 65:
            # a copy, as the body may change lists
            it, t = ("slice", self.gen("list", 1), ("lit", 0), ("lit", 4)), "int"
        elif k < 85:
            it, t = ("slice", self.gen("str", 1), None, ("lit", 4)), "str"
        else:
            it, t = self.gen("table", 1), "key"
        n = self.newname()
        self.loops[-1] += 1
        if t == "key":
            self.unordered += 1
            loops, self.loops[-1] = self.loops[-1], 0
            self.scopes.append([])
            self.declare(n, "key", const=True)
            body = [["echo", ("bin", "~", ("lit", "k "), ("var", n))]] + self.block(s.draw(3))
            self.scopes.pop()
            self.loops[-1] = loops
            self.unordered -= 1
        else:
            body = self.block(self.sub(), [(n, t, False, False)])
        self.loops[-1] -= 1
        return [["for", n, it, body]]

    def st_brk(self):
        s = self.s
        opts = []
        if self.loops[-1]:
            opts += ["break", "continue"]
        if self.fnlevel and self.rettypes[-1] is not None:
            opts.append("return")
        if not opts:
            return None
        k = s.choice(opts)
        if k == "return":
            ret = self.rettypes[-1]
            st = ["return", [self.gen(ret, 2) if not isinstance(ret, tuple) else self.fnvalue(ret)]]
        else:
            st = [k]
        if s.chance(15):
            return [st]
        pre = [self.st_echo()[0]] if s.chance(50) else []
        if s.chance(40):
            # a local that is alive when we leave
            self.fresh_n += 1
            pre.append(["let", "loc%d" % self.fresh_n, ("lit", 7)])
        return [["if", [(self.gen("bool", 2), pre + [st])], None]]

    def st_fndecl(self):
        if not self.nest() or self.fnlevel >= 3:
            return None
        s = self.s
        typ = self.fntype()
        n = self.newname()
        const = s.chance(15)
        v = self.declare(n, typ, const=True, reserved=True)     # not called by itself
        if not self.cyclic:
            v.typ = "hidden"    # not mentioned by itself
        ps = self.params(typ[1])
        body = self.fnbody(ps, typ[2], self.sub())
        v.typ = typ
        v.reserved = False
        return [["fndecl", n, [("const " if c else "") + p for p, _, c in ps], body, const]]

    def st_tfn(self):
        """A function stored in a table."""
        if self.fnlevel >= 3:
            return None
        self.fresh_n += 1
        n = "o%d" % self.fresh_n
        ps = self.params(("int",) * self.s.draw(3))
        out = [["let", n, ("table", [])]]
        body = self.fnbody(ps, "int", self.s.draw(3))
        out.append(["tfndecl", n, "f", [("const " if c else "") + p for p, _, c in ps], body])
        out.append(["echo", ("call", ("mem", ("var", n), "f"), [self.gen("int", 1) for _ in ps])])
        self.declare(n, "table" if self.cyclic else "otable", const=True, reserved=True)
        return out

    def st_fassign(self):
        """Another function for a variable."""
        vs = [v for v in self.assignable() if isinstance(v.typ, tuple) and v.seq < self.fnlimit]
        if not vs or not self.cyclic:
            return None
        v = self.s.choice(vs)
        lim, self.fnlimit = self.fnlimit, v.seq
        e = self.lambda_(v.typ)
        self.fnlimit = lim
        return [["assign", v.name, e]]

    def st_closures(self):
        """A loop that collects closures over its variables, which then are called."""
        if not self.nest() or self.fnlevel >= 3:
            return None
        s = self.s
        self.fresh_n += 1
        fs, i, v = "fs%d" % self.fresh_n, "i%d" % self.fresh_n, "v%d" % self.fresh_n
        out = [["let", fs, ("list", [])]]
        kind = s.draw(3)
        self.scopes.append([])
        self.loops[-1] += 1
        self.declare(i, "int", reserved=True)
        self.scopes.append([])
        body = self.block_here(s.draw(2))
        if kind == 2:
            body.insert(0, ["aug", "+", ("var", i), ("lit", 1)])
        init = self.gen("int", 1)
        cells = [["let", v, init]]
        self.declare(v, "int")
        if s.chance(40):
            w = "w%d" % self.fresh_n
            cells.append(["let", w, ("bin", "*", ("var", i), ("lit", 10)) if s.chance(50) else self.gen("str", 1)])
            self.declare(w, "int" if cells[-1][2][0] == "bin" else "str")
        if s.chance(70):
            cells.append(["aug", "+", ("var", v), ("var", i)])
        body += cells
        for _ in range(s.many(1, 2, 40)):
            self.enter_fn([("xx", "int", False)], "int")
            fb = [["aug", "+", ("var", v), ("var", "xx")]] if s.chance(60) else []
            fb += self.block_here(s.draw(2))
            fb.append(["return", [("bin", "+", ("var", v), self.gen("int", 1)) if s.chance(50) else ("var", v)]])
            self.leave_fn()
            body.append(["expr", ("mcall", ("var", fs), "push", [("fn", ["xx"], fb)])])
        if s.chance(50):
            body += self.block_here(s.int(1, 2))
        if s.chance(30):
            body.append(["aug", "+", ("var", v), ("lit", s.int(1, 99))])
        self.scopes.pop()
        self.loops[-1] -= 1
        self.scopes.pop()
        n = s.int(1, 3)
        if kind == 0:
            out.append(["for", i, ("list", [("lit", s.int(0, 9)) for _ in range(n)]), body])
        elif kind == 1:
            out.append(["cfor", i, ("lit", 0), ("bin", "<", ("var", i), ("lit", n)),
                        ["aug", "+", ("var", i), ("lit", 1)], body])
        else:
            self.declare(i, "int", reserved=True)
            out.append(["let", i, ("lit", 0)])
            out.append(["while", ("bin", "<", ("var", i), ("lit", n)), body])
        self.declare(fs, "fnlist", const=True, reserved=True)
        g = "g%d" % self.fresh_n
        for _ in range(s.int(1, 2)):
            out.append(["for", g, ("var", fs), [["echo", ("call", ("var", g), [("lit", s.int(0, 5))])]]])
            out += self.block_here(s.draw(2))
        return out

    def st_pair(self):
        """Two closures over one variable."""
        if not self.nest() or self.fnlevel >= 2:
            return None
        s = self.s
        self.fresh_n += 1
        mk, g, f, v = ("%s%d" % (x, self.fresh_n) for x in ("mk", "get", "put", "cell"))
        mid = self.fnlevel < 2 and s.chance(50)
        self.enter_fn([(v, "int", False)], None)
        inner = []
        if s.chance(60):
            inner = self.block_here(s.draw(2))
            # no return from here
        if s.chance(50):
            inner.append(["let", v + "b", ("bin", "+", ("var", v), ("lit", s.int(1, 9)))])
            cv = v + "b"
        else:
            cv = v
        get = ("fn", [], [["return", [("var", cv)]]])
        put = ("fn", ["xx"], [["assign", cv, ("bin", s.choice(["+", "-", "^"]), ("var", cv), ("var", "xx"))],
                             ["return", [("var", "xx")]]])
        if mid:
            get = ("fn", [], [["let", "hh", get], ["return", [("call", ("var", "hh"), [])]]])
        inner.append(["return", [get, put]])
        self.leave_fn()
        out = [["fndecl", mk, [v], inner, False],
               ["mlet", [("let", g), ("let", f)], [("call", ("var", mk), [self.gen("int", 1)])]]]
        self.declare(mk, "fn", const=True, reserved=True)
        self.declare(g, "fn", const=True, reserved=True)
        self.declare(f, "fn", const=True, reserved=True)
        calls = [["echo", ("call", ("var", g), [])], ["expr", ("call", ("var", f), [("lit", s.int(1, 9))])]]
        if s.chance(50):
            g2, f2 = g + "b", f + "b"
            out.append(["mlet", [("let", g2), ("let", f2)], [("call", ("var", mk), [self.gen("int", 1)])]])
            calls += [["echo", ("call", ("var", g2), [])], ["echo", ("call", ("var", f2), [("lit", s.int(1, 9))])]]
        for _ in range(s.int(2, 5)):
            out.append(s.choice(calls))
        return out

    def st_recfn(self):
        """A function that calls itself a bounded number of times."""
        if self.fnlevel and not self.cyclic:
            return None
        s = self.s
        self.fresh_n += 1
        n, p = "rec%d" % self.fresh_n, "n%d" % self.fresh_n
        self.declare(n, "recfn", const=True, reserved=True)
        self.enter_fn([(p, "int", False)], "int")
        self.scopes[-1][-1].reserved = True
        base = self.gen("int", 1)
        pre = self.block_here(s.draw(2))
        rec = ("call", ("var", n), [("bin", "-", ("var", p), ("lit", 1))])
        body = [["if", [(("bin", "<=", ("var", p), ("lit", 0)), [["return", [base]]])], None]] + pre
        mode = s.draw(3)
        if mode == 0:
            body.append(["return", [("bin", s.choice(["+", "-", "^"]), rec, self.gen("int", 1))]])
        elif mode == 1:
            body.append(["return", [("bin", s.choice(["+", "-", "^"]), self.gen("int", 1), rec)]])
        else:
            body.append(["return", [rec]])
        self.leave_fn()
        return [["fndecl", n, [p], body, False], ["echo", ("call", ("var", n), [("lit", s.int(0, 6))])]]

    def st_call(self):
        fs = [v for v in self.visible() if isinstance(v.typ, tuple) and not v.reserved and v.seq < self.fnlimit]
        if not fs:
            return None
        v = self.s.choice(fs)
        e = self.callexpr(v, 2)
        ret = v.typ[2]
        if isinstance(ret, tuple):
            if self.s.chance(50):
                n = self.newname()
                self.declare(n, ret)
                return [["let", n, e]]
            return [["echo", ("call", e, [self.gen(t, 1) for t in ret[1]])]]
        if self.s.chance(50):
            return [["expr", e]]
        return [["echo", e]]

    def st_listop(self):
        s = self.s
        vs = self.vars("list")
        if not vs:
            return None
        x = ("var", s.choice(vs).name)
        k = s.draw(7)
        if k <= 1:
            return [["expr", ("mcall", x, "push", [self.gen("int", 1)])]]
        if k == 2:
            return [["if", [(("bin", ">", ("un", "len", x), ("lit", 0)), [["echo", ("mcall", x, "pop", [])]])], None]]
        if k == 3:
            i = s.int(0, 2)
            return [["if", [(("bin", ">", ("un", "len", x), ("lit", i)),
                             [["setidx", x, ("lit", i), self.gen("int", 1)]])], None]]
        if k == 4:
            return [["expr", ("mcall", x, s.choice(["reverse", "sort", "clear"]), [])]]
        if k == 5:
            return [["expr", ("mcall", x, "insert", [("lit", 0), self.gen("int", 1)])]]
        return [["echo", ("mcall", x, "search", [self.gen("int", 1)])]]

    def st_tableop(self):
        s = self.s
        vs = [v for v in self.vars("table") if not v.reserved]
        if not vs:
            return None
        x = ("var", s.choice(vs).name)
        key = ("lit", s.choice(["a", "b", "c", "k", 0, 1, 2]))
        k = s.draw(5)
        if k <= 1:
            return [["setidx", x, key, self.gen("int", 1)]]
        if k == 2:
            return [["expr", ("mcall", x, "remove", [key])]]
        if k == 3:
            return [["echo", ("idx", x, key)]]
        if isinstance(key[1], str):
            return [["setmem", x, key[1], self.gen("int", 1)]]
        return [["echo", ("un", "len", x)]]

    def st_setop(self):
        vs = self.vars("set")
        if not vs:
            return None
        x = ("var", self.s.choice(vs).name)
        return [["expr", ("mcall", x, self.s.choice(["add", "remove"]), [self.gen("int", 1)])]]

    def st_match(self):
        if not self.nest():
            return None
        s = self.s
        e = self.gen(s.choice(["int", "str", "list", "any", "table"]), 2)
        arms = []
        for _ in range(s.many(0, 3, 65)):
            p, binds = self.pattern(2)
            guard = None
            if s.chance(25) and not binds:
                guard = self.gen("bool", 1)
            arms.append((p, guard, self.block(self.sub(), [(n, "any", kw == "const", True) for kw, n in binds])))
        if arms and s.chance(25):
            # perhaps none matches (the last of them without a guard: a known finding of C06)
            arms[-1] = (arms[-1][0], None, arms[-1][2])
        elif s.chance(30):
            n = self.newname()
            arms.append((("pbind", "let", n), None,
                         [["echo", ("bin", "~", ("lit", "got "), ("var", n))]]
                         + self.block(s.draw(2), [(n, "any", False, True)])))
        else:
            arms.append((("p*",), None, self.block(s.draw(3))))
        return [["match", e, arms]]

    def pattern(self, d):
        s = self.s
        k = s.draw(100)
        if k < 15:
            return ("ptype", s.choice(["int", "str", "bool", "float", "list", "table"])), []
        if k < 40:
            return ("plit", s.choice([0, 1, 2, -1, "a", "", True, False, None, 1.5])), []
        if k < 50:
            return ("p*",), []
        if k < 60 and d > 0:
            a, ba = self.pattern(d - 1)
            b, bb = self.pattern(d - 1)
            if ba or bb:
                return ("ptype", "int"), []
            return ("palt", a, b), []
        if k < 85 and d > 0:
            ps, binds = [], []
            for _ in range(s.many(0, 3, 60)):
                if s.chance(30):
                    self.fresh_n += 1
                    n = "m%d" % self.fresh_n
                    binds.append(("let", n))
                    ps.append(("pbind", "let", n))
                else:
                    p, b = self.pattern(d - 1)
                    ps.append(p)
                    binds += b
            return ("plist", ps, s.chance(40)), binds
        if d > 0:
            ps, binds, used = [], [], set()
            for _ in range(s.many(0, 2, 60)):
                key = s.choice(["a", "b", "c", 0, 1])
                if key in used:
                    continue
                used.add(key)
                p, b = self.pattern(d - 1)
                ps.append((key, p))
                binds += b
            return ("ptable", ps, s.chance(50)), binds
        return ("p*",), []

    def st_assert(self):
        return [["assert", ("bin", "||", self.gen("bool", 1), ("lit", True))]]

    def comp(self, t):
        s = self.s
        v = "j%d" % self.fresh_n
        self.fresh_n += 1
        it = self.gen("list", 1)
        self.scopes.append([])
        self.declare(v, "int", reserved=True)
        x = self.gen("int", 2)
        cond = self.gen("bool", 1) if s.chance(50) else None
        self.scopes.pop()
        return ("lcomp", x, v, it, cond) if t == "list" else ("tcomp", ("var", v), x, v, it, cond)

    def st_comp(self):
        s = self.s
        t = "list" if s.chance(70) else "table"
        e = self.comp(t)
        if s.chance(40):
            return [["echo", e]]
        n = self.newname()
        self.declare(n, t)
        return [["let", n, e]]

    def st_fail(self):
        """Something that fails at run time."""
        s = self.s
        k = s.draw(8)
        bad = [("bin", "+", ("lit", "a"), self.gen("int", 1)), ("bin", "//", self.gen("int", 1), ("lit", 0)),
               ("idx", ("list", []), self.gen("int", 1)), ("call", self.gen("int", 1), []),
               ("un", "-", self.gen("str", 1)), ("bin", "<", self.gen("int", 1), self.gen("str", 1)),
               ("un", "len", self.gen("int", 1)), ("mcall", ("list", []), "pop", [])][k]
        st = s.choice([["echo", bad], ["expr", bad], ["assert", ("lit", False)], ["let", "zz%d" % self.fresh_n, bad]])
        self.fresh_n += 1
        if s.chance(60):
            return [["if", [(self.gen("bool", 1), [st])], None]]
        return [st]
