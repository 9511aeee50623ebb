"""C25: require runs a module in a scope of its own and yields what it exports."""
import os
from ..engine import Check
from ..hist import FNTEXT
from .. import client, common, gen, model, progen, syntax
from . import c21

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
C = lambda f, *a: ("call", f, list(a))
REQ = V("require")


def path(i):
    return "@DIR@/m%s.yasl" % i


class Interp(model.Interp):
    """Knows require. (The modules' lines aren't looked at.)"""
    nested = 0

    def module(self, a):
        p = a[0]
        if type(p) is not str:
            raise model.YErr(model.TYPE, "require")
        m = self.modules.get(p)
        if m is None:
            raise model.YErr(2, "no module")
        self.nested += 1
        if self.nested > 12:
            raise model.Discard("modules")
        self.stats["require"] = self.stats.get("require", 0) + 1
        self.stats["deep"] = max(self.stats.get("deep", 0), self.nested)
        if type(m) is str:
            raise model.YErr(2, "syntax")
        depth, trace, native, end = self.depth, list(self.trace), self.in_native, self.end_env
        st = self.run(m, env_of(self))
        self.end_env = end
        self.nested -= 1
        if st != model.MODULE:
            raise model.YErr(2, "failed")
        self.depth, self.trace, self.in_native = depth, trace, native
        v, self.exported = self.exported, None
        return [v]


def env_of(it):
    if getattr(it, "libs", None) is None:
        it.libs = ("require", [model.Native("require", 1, Interp.module)], model.base_env(it))
    return it.libs


# Modules that don't work: (text, status a program of their own would have)
BROKEN = ["let x = (\n", "", "let q = 1\n", "export\n", "fn f() {\n export 1\n}\n", "if true {\n export 1\n}\n", "let a = 1\nlet a = 2\nexport a\n",
          "export undeclared\n", "a += 1\nexport a\n", "echo b\nexport 1\n", "export fn() {\n return c;\n}\n", "for x <- [1] {\n export x\n}\n", "export 1 2\n", "const c = 1\nc = 2\nexport c\n",
          "export k\n", "k = 3\nexport 1\n", "\x00", "export 'a\n", "break\nexport 1\n", "math.pi2 = fn() { return 'two ' ~ 'pies'; }\n)\n"]


class Gen(progen.ProgGen):
    """Generates a module or the program; `mods` are the modules that it may require."""

    def __init__(self, s, mods, size, **kw):
        super().__init__(s, {"require": 14 if mods else 0, "fndecl": 8, "call": 8, "echo": 14, "libuse": 2}, size=size, **kw)
        self.mods = mods

    def reqexpr(self, i):
        s = self.s
        p = path(i)
        k = s.draw(10)
        if k == 0:
            e = ("bin", "~", L(p[:9]), L(p[9:]))
        elif k == 1:
            e = ("interp", [p[:7], L(i), p[8:]]) if p[7] == str(i) else L(p)
        elif k == 2:
            return C(REQ, L(p), self.gen("int", 0))
        else:
            e = L(p)
        return C(REQ, e)

    def st_libuse(self):
        s = self.s
        if s.chance(50):
            return [["setmem", V("math"), "sq%d" % s.draw(3), ("fn", ["x"], [["return", [("bin", "+", V("x"), self.gen("int", 1))]]])]] if not self.scopes[1:] else None
        return [["echo", ("un", "!", ("bin", "==", ("mem", V("math"), "sq%d" % s.draw(3)), ("lit", None)))]] if s.chance(30) else [["echo", ("mem", V("math"), "pi")]]

    def st_require(self):
        s = self.s
        if self.unordered or not self.budget:
            return None
        i = s.draw(len(self.mods))
        kind, typ = self.mods[i]
        self.budget -= 1
        e = self.reqexpr(i)
        k = s.draw(10)
        if k == 0:
            return [["expr", e]]
        if kind == "value":
            if k == 1 and typ in ("int", "str", "bool", "list", "table", "float", "undef"):
                return [["echo", e]]
            if k == 2 and typ == "int":
                return [["echo", ("bin", "+", self.gen("int", 1), e)]]
            if k == 3 and isinstance(typ, tuple):
                r = C(e, *[self.gen(t, 1) for t in typ[1]])
                return [["echo", r]] if typ[2] in ("int", "str", "bool", "list") else [["expr", r]]
            n = self.newname()
            const = s.chance(50)
            self.declare(n, typ, const=const).plain = True
            return [["const" if const else "let", n, e]]
        self.fresh_n += 1
        v = "v%d" % self.fresh_n
        out = [["const", v, e]]
        if kind == "obj":
            for f, t in typ:
                if s.chance(70):
                    n = self.newname()
                    out.append(["let", n, ("mem", V(v), f)])
                    self.declare(n, t)
                    if isinstance(t, tuple):
                        out.append(["echo", C(V(n), *[self.gen(x, 1) for x in t[1]])])
                elif isinstance(t, tuple):
                    out.append(["echo", C(("mem", V(v), f), *[self.gen(x, 1) for x in t[1]])])
        elif kind == "fns":
            self.fresh_n += 1
            out.append(["for", "f%d" % self.fresh_n, V(v), [["echo", C(V("f%d" % self.fresh_n), self.gen("int", 1))]]])
        elif kind == "class":
            n = s.int(1, 3)
            for j in range(n):
                self.fresh_n += 1
                o = "o%d" % self.fresh_n
                out.append(["let", o, C(V(v), self.gen("int", 1))])
                for _ in range(s.int(1, 3)):
                    m = s.choice(["area", "area", "add", "more", "x"])
                    if m == "area":
                        out.append(["echo", ("mcall", V(o), "area", [self.gen("int", 1)])])
                    elif m == "add":
                        out.append(["echo", ("mem", ("bin", "+", V(o), self.gen("int", 1)), "x")])
                    elif m == "more":
                        out.append(["echo", ("mcall", ("mcall", V(o), "more", []), "area", [L(1)])])
                    else:
                        out.append(["echo", ("mem", V(o), "x")])
        return out


def counter(g):
    """Statements, [(field, type)] and the table of a counter."""
    s = g.s
    n = s.choice(["n", "a", "cnt", "x1"])
    c = s.choice(["c", "b", "step"])
    intfn = lambda k: ("fn", ("int",) * k, "int")
    st = [["let", n, g.gen("int", 1)], ["const", c, g.gen("int", 1)],
          ["fndecl", "inc", [], [["aug", "+", V(n), V(c)], ["return", [V(n)]]], False]]
    fields = [("inc", intfn(0)), ("get", intfn(0)), ("add", intfn(1)), ("tag", "str"), ("over", ("fn", (), "str"))]
    g.scopes.append([])
    body = g.gen("str", 1)
    g.scopes.pop()
    tab = [(L("inc"), V("inc")), (L("get"), ("fn", [], [["return", [V(n)]]])),
           (L("add"), ("fn", ["k"], [["aug", "+", V(n), V("k")], ["return", [C(V("inc"))]]])),
           (L("tag"), L(gen.gstr(s, 4, 6))), (L("over"), ("fn", [], [["return", [("bin", "~", body, V(n))]]]))]
    return st, fields, ("table", tab)


def klass(g):
    s = g.s
    self_x = ("mem", V("self"), "x")
    base = "base"
    st = [["let", base, g.gen("int", 1)], ["let", "T", ("table", [])], ["let", "make", L(0)],
          ["assign", "make", ("fn", ["x"], [["return", [C(("mem", V("mt"), "set"), ("table", [(L("x"), V("x"))]), V("T"))]]])],
          ["tfndecl", "T", "area", ["self", "k"], [["return", [("bin", "+", ("bin", "*", self_x, V("k")), V(base))]]]],
          ["tfndecl", "T", "__add", ["self", "k"], [["return", [C(V("make"), ("bin", "+", self_x, V("k")))]]]],
          ["tfndecl", "T", "more", ["self"], [["aug", "+", V(base), L(s.int(1, 1000))], ["return", [V("self")]]]]]
    return st, V("make")


def module(s, mods):
    """-> (kind, type), statements"""
    g = Gen(s, mods, s.choice([0, 2, 5, 9]), max_depth=3)
    st = g.program(s.int(0, 6))
    k = s.draw(20)
    if k < 6:
        t = g.anytype()
        e = g.gen(t, 2) if not isinstance(t, tuple) else g.fnvalue(t)
        r = ("value", t)
    elif k < 10:
        t = g.fntype()
        if isinstance(t[2], tuple):
            t = (t[0], t[1], "int")
        e = g.fnvalue(t)
        r = ("value", t)
    elif k < 14:
        g.scopes = [[]]
        more, fields, e = counter(g)
        if st:
            st = [["if", [(L(True), st)], None]] + more if s.chance(50) else more + [["expr", C(("fn", [], st))]]
        else:
            st = more
        r = ("obj", fields)
    elif k < 16 and [m for m in mods if m[0] == "value"]:
        i = s.choice([i for i, m in enumerate(mods) if m[0] == "value"])
        t = mods[i][1]
        e = ("fn", [], [["const", "zz", g.reqexpr(i)], ["return", [V("zz")]]])
        r = ("value", ("fn", (), t)) if not isinstance(t, tuple) and t not in ("undef", "set", "table", "float") else ("any", None)
    elif k < 18:
        fs = []
        for j in range(s.int(1, 4)):
            fs.append(g.lambda_(("fn", ("int",), s.choice(["int", "str"]))))
        e = ("list", fs)
        r = ("fns", None)
    else:
        g.scopes = [[]]
        more, e = klass(g)
        st = [["expr", C(("fn", [], st))]] + more
        r = ("class", None)
    st = st + [["export", e]]
    if s.chance(15):
        st += [["echo", L("not reached")], ["let", "later", L(1)]]
    return r, st


def failing(s, mods):
    """Statements of a module that fails as it runs."""
    g = Gen(s, mods, s.choice([2, 5]), max_depth=2)
    st = g.program(s.int(0, 4))
    bad = s.choice([("bin", "+", L(1), ("lit", None)), ("bin", "//", L(1), L(0)), ("idx", ("list", []), L(3)), C(V("collections")), C(REQ, L(path(99))), C(REQ, L(5))])
    body = [["echo", bad]]
    if s.chance(15):
        return st + [["echo", L(1)]]
    if s.chance(30):
        body = [["fndecl", "g9", ["x"], [["return", [bad]]], False], ["echo", C(V("g9"), L(1))]]
    if s.chance(30):
        st = [["setmem", V("math"), "left%d" % s.draw(3), ("fn", [], [["return", [("bin", "~", L("left "), L(gen.gstr(s, 4, 6)))]]])]] + st
    if s.chance(30):
        body = [["for", "x9", ("list", [L(1), L(2)]), body]]
    return st + body + ([["export", L(1)]] if s.chance(50) else [])


def nodes(x, kinds):
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, (list, tuple)):
            if n and n[0] in kinds:
                yield n
            stack.extend(n)


class C25(Check):
    id = "C25"
    programs = ("runner", "cli")
    technique = "property-based testing: generated trees of modules against a reference interpreter"
    rule = ("up to 5 modules (well-typed programs that export any value: functions, closures over their variables, objects with methods, functions that require "
            "other modules) and a program or session that requires them anywhere, uses the same names, and modules that are missing, invalid or fail; "
            "non-trivial: at least 2 modules were run and something printed")
    note = ("Random search. Modules are named by absolute paths, and by relative ones with the command line tool. Not decided: what's said on stdout for an invalid module "
            "(that line is ignored), __require_c__, modules that require each other in a circle (1 in 300 cases: an error is expected).")
    quick = 22000
    thorough = 500000

    def gen(self, s):
        if s.chance(1, 300):
            n = s.int(1, 3)
            return {"kind": "circle", "mods": ["let a = require('@DIR@/m%d.yasl')\nexport a\n" % ((i + 1) % n) for i in range(n)], "n": 0, "main": []}
        mods, texts = [], []
        for _ in range(s.int(1, 5)):
            r, st = module(s, [m for m in mods])
            mods.append(r)
            texts.append(st)
        n = len(mods)
        kind = s.choice(["exec", "repl", "repl", "cli"])
        g = Gen(s, mods, s.int(6, 20), max_depth=3)
        parts = []
        broken = []

        def bad():
            k = s.draw(10)
            if k < 4:
                broken.append(s.choice(BROKEN))
                a = L(path(n + len(broken) - 1))
            elif k < 7:
                broken.append(failing(s, mods))
                a = L(path(n + len(broken) - 1))
            elif k < 9:
                a = L(s.choice(["@DIR@/none.yasl", "@DIR@/m99", "", "@DIR@/" + "n" * 300, "@DIR@/none/m0.yasl"]))
            else:
                a = s.choice([L(5), L(True), ("lit", None), ("list", []), L(1.5)])
            e = C(REQ, a)
            k = s.draw(4)
            if k == 0:
                return [["expr", e]]
            if k == 1:
                return [["let", "z99_%d" % len(parts), e]]
            if k == 2:
                return [["for", "i", ("list", [L(1), L(2)]), [["echo", e]]]]
            return [["echo", C(("fn", ["p"], [["const", "q", L("x")], ["return", [("bin", "+", V("p"), e)]]]), L(3))]]
        for _ in range(s.int(2, 6) if kind == "repl" else 1):
            if kind == "repl" and s.chance(20):
                parts.append(bad())
                continue
            st = g.st_require() or []
            if s.chance(50):
                parts.append(st + g.block_here(s.int(2, 6)))
            else:
                parts.append(g.block_here(s.int(2, 6)) + (g.st_require() or []))
                if st:
                    parts[-1] = st + parts[-1]
            if kind == "repl":
                # uses what was declared before
                parts[-1].insert(0, ["comment", "goes on"])
            g.budget = max(g.budget, 5)
        if kind == "repl":
            for j in range(3):
                if s.chance(30):
                    parts.append([["if", [(("bin", "!=", ("mem", V("math"), "left%d" % j), ("lit", None)), [["echo", C(("mem", V("math"), "left%d" % j))]])], None]])
        elif s.chance(20):
            parts[-1] += bad()
        if n + len(broken) > 10:
            parts = parts[:1]
        return {"kind": kind, "mods": texts + broken, "n": n, "main": parts}

    def sources(self, case):
        mods = [m if type(m) is str else syntax.source(m)[0] for m in case["mods"]]
        return mods, [syntax.source(p) for p in case["main"]]

    def show(self, case):
        mods, main = self.sources(case)
        return "\n".join("--- m%d.yasl\n%s" % (i, m) for i, m in enumerate(mods)) + "\n" + "\n".join("--- %s\n%s" % (case["kind"], p[0]) for p in main)

    def test(self, case, env):
        kind = case["kind"]
        mods, main = self.sources(case)
        it = Interp(max_steps=30000, fntext=True, modules={path(i): m for i, m in enumerate(case["mods"])})
        e = env_of(it)
        res, ran, failed = [], [], False
        if kind == "circle":
            main = [("let a = require('@DIR@/m0.yasl')\n", {}), ("echo 'after'\n", {})]
            res = [(None, ""), (0, "after\n")]
        for i, p in enumerate(case["main"]):
            it.line, it.out, it.nested, it.depth, it.trace = {}, [], 0, 0, []
            if failed and p[0][0] == "comment" and p[0][1] == "goes on":
                continue
            ran.append(i)
            if kind == "repl" and p and p[-1][0] == "expr":
                p = p[:-1] + [["echo", p[-1][1]]]
            try:
                st = it.run(p, e)
            except RecursionError:
                raise model.Discard("model recursion")
            e = it.end_env
            failed |= st > 1
            res.append((st, model.cat(*it.out) if it.out else ""))
        if case["main"]:
            main = [main[i] for i in ran]
        d = env.clean_tmp()
        rel = kind == "cli"

        def put(t):
            if not rel:
                return t.replace("@DIR@", d)
            # relative ones: with and without what the search path adds
            i = 0
            while "@DIR@/" in t:
                a, b = t.split("@DIR@/", 1)
                if b[:2].startswith("m") and b[2:7] == ".yasl" and i % 2:
                    b = b[:2] + b[7:]
                t = a + ("./" if i % 3 == 0 else "") + b
                i += 1
            return t
        for i, m in enumerate(mods):
            with open(os.path.join(d, "m%d.yasl" % i), "wb") as f:
                f.write(put(m).encode("latin-1"))
            # what the name without the extension finds is the same file: the
            # search path comes before the name as it is
            if rel and i % 3 == 0:
                os.mkdir(os.path.join(d, "m%d" % i))
            elif rel and i % 3 == 1:
                with open(os.path.join(d, "m%d" % i), "wb") as f:
                    f.write(b"export 'not this file';\n")
        nreq = it.stats.get("require", 0)
        labels = [kind, "deep%d" % it.stats.get("deep", 0)] + ["status%s" % st for st, _ in res]
        nt = nreq >= 2 and any(t != "" for _, t in res)
        if rel:
            with open(os.path.join(d, "main.yasl"), "wb") as f:
                f.write(put(main[0][0]).encode("latin-1"))
            st, out, err = c21.CLI.run(["main.yasl"], d, b"")
            if st < 0 or st > 127:
                return "crash: exit status %d %r" % (st, err[:300]), labels, nt
            outs, sts, errs = [out], [st], [err]
        else:
            r = env.run(client.REPL if kind != "exec" else client.EXEC, *[put(p[0]) for p in main])
            c = common.crashed(r)
            if c:
                return c, labels, nt
            outs, sts, errs = (r.outs(), r.statuses, r.errs()) if kind != "exec" else ([r.out], [r.status], [r.err])
        if len(outs) != len(res):
            return "steps: %d of %d inputs ran" % (len(outs), len(res)), labels, nt
        for i, (st, text) in enumerate(res):
            got = FNTEXT.sub("<fn: ?>", common.latin(outs[i]).replace("Not a valid module\n", ""))
            if st is None:
                if not sts[i] or not errs[i]:
                    return f"status: input {i}: expected an error, got status {sts[i]}, {errs[i][-300:]!r}", labels, nt
                continue
            if not model.matches(text, got):
                return f"output: input {i}: expected {model.show_text(text)[-1500:]!r} (status {st}), got {got[-1500:]!r} (status {sts[i]}, {errs[i][-300:]!r})", labels, nt
            if sts[i] != st:
                return f"status: input {i}: expected {st}, got {sts[i]} ({errs[i][-300:]!r})", labels, nt
            if st != 2 and (st > 1) != bool(errs[i]):
                return f"stderr: input {i}: status {st}, {errs[i][-300:]!r}", labels, nt
        return None, labels, nt


check = C25()
