"""C12: ==, ===, orderings and key lookup agree, however the operands were computed."""
from ..engine import Check
from .. import client, common, gen, model, syntax

V = lambda n: ("var", n)
L = lambda v: ("lit", v)


def call(f, *a):
    return ("call", V(f), list(a))


HELP = [["fndecl", "id", ["v"], [["return", [V("v")]]], False],
        ["fndecl", "without", ["t", "k"], [["setidx", V("t"), V("k"), L(1)], ["expr", ("mcall", V("t"), "remove", [V("k")])],
                                           ["return", [V("t")]]], False],
        ["fndecl", "pushed", ["l", "v"], [["expr", ("mcall", V("l"), "push", [V("v")])], ["return", [V("l")]]], False],
        ["fndecl", "popped", ["l"], [["expr", ("mcall", V("l"), "pop", [])], ["return", [V("l")]]], False]]


class G:
    def __init__(self, s):
        self.s = s

    # values: scalars, ("list", [..]), ("table", [(k, v)..]), ("set", [..])
    def scalar(self):
        s = self.s
        k = s.draw(10)
        if k <= 2:
            return gen.gint(s)
        if k <= 4:
            v = gen.gfloat(s)
            return 0.0 if s.chance(5) else -0.0 if s.chance(5) else v
        if k == 5:
            return s.chance(50)
        if k == 6:
            return None
        v = gen.gstr(s, 5, 25)
        if s.chance(25):
            v = gen.shared(s)[1]
        if s.chance(3):
            # of about the length of a buffer or a counter
            n = s.choice([127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 5000]) + s.int(-3, 3)
            v = ((v or "a") * n)[:n - 1] + chr(s.draw(256))
        return v

    def key(self):
        while True:
            v = self.scalar()
            if v is not None and v == v:
                return v

    def value(self, d):
        s = self.s
        k = s.draw(10)
        if d <= 0 or k < 5:
            return self.scalar()
        if k < 7:
            return ("list", [self.value(d - 1) for _ in range(s.draw(4))])
        if k < 9:
            return ("table", self.pairs(d))
        return ("set", [self.key() for _ in range(s.draw(4))])

    def pairs(self, d):
        out = {}
        for _ in range(self.s.draw(4)):
            k = self.key()
            v = self.value(d - 1)
            if v is not None:
                out[(type(k), k)] = (k, v)
        return list(out.values())

    def near(self, v, d=2):
        """A value like v, but perhaps not equal."""
        s = self.s
        if isinstance(v, tuple):
            kind, xs = v
            xs = list(xs)
            k = s.draw(4)
            if k == 0 and xs:
                xs.pop(s.draw(len(xs)))
            elif k == 1 and xs:
                i = s.draw(len(xs))
                xs[i] = (xs[i][0], self.near(xs[i][1])) if kind == "table" else \
                    (self.near(xs[i]) if kind == "list" else self.key())
                if kind == "table" and xs[i][1] is None:
                    xs.pop(i)
            elif k == 2:
                if kind == "table":
                    xs += [p for p in self.pairs(1) if not any(type(p[0]) is type(q[0]) and p[0] == q[0] for q in xs)]
                else:
                    xs.append(self.key())
            elif kind != "table":
                if kind == "list":
                    return ("set", [x for x in xs if x is not None and not isinstance(x, tuple) and x == x])
                return ("list", xs)
            return (kind, xs)
        if type(v) is int:
            k = s.draw(3)
            if k == 0 and abs(v) < 1 << 53:
                return float(v)
            return min(max(v + s.choice([1, -1]), -(1 << 63)), (1 << 63) - 1) if k == 1 else str(v)
        if type(v) is float:
            if v != v:
                return s.choice([v, 0.0, None, "nan"])
            if v == 0 and s.chance(50):
                return -v
            if v == int(v) if abs(v) < 1e15 else False:
                return int(v)
            return v + s.choice([0.5, 1e-9])
        if type(v) is str:
            k = s.draw(5)
            if k == 0:
                return v + chr(s.draw(256))
            if k == 1:
                return v[:-1]
            if k == 2 and v:
                i = s.draw(len(v))
                return v[:i] + chr((ord(v[i]) + s.choice([1, 128, 255])) % 256) + v[i + 1:]
            if k == 3:
                return v + "\0"
            return v.upper() if v.isascii() else v
        return s.choice([None, False, True, 0, 0.0, "", "false", ("list", [])])

    # ways to compute a value
    def spell(self, v):
        s = self.s
        if isinstance(v, tuple):
            kind, xs = v
            k = s.draw(6)
            if kind == "list":
                es = [self.spell(x) for x in xs]
                if k == 1:
                    i = s.draw(len(es) + 1)
                    return ("bin", "+", ("list", es[:i]), ("list", es[i:]))
                if k == 2:
                    return ("slice", ("list", [L(0)] + es + [L(1)]), L(1), L(-1))
                if k == 3 and es:
                    return call("pushed", ("list", es[:-1]), es[-1])
                if k == 4:
                    return call("popped", ("list", es + [L(0)]))
                if k == 5:
                    return ("mcall", ("list", es), "copy", [])
                return ("list", es)
            if kind == "table":
                ps = [(self.spell(a), self.spell(b)) for a, b in s.shuffle(xs)]
                if k == 1:
                    i = s.draw(len(ps) + 1)
                    return ("bin", "|", ("table", ps[:i]), ("table", ps[i:]))
                if k == 2:
                    return call("without", ("table", ps), L("\x01extra"))
                if k == 3:
                    return ("mcall", ("table", ps), "copy", [])
                return ("table", ps)
            es = [self.spell(x) for x in s.shuffle(xs)]
            mk = lambda a: ("call", ("mem", V("collections"), "set"), a)
            if k == 1:
                i = s.draw(len(es) + 1)
                return ("bin", "|", mk(es[:i]), mk(es[i:]))
            if k == 2 and es:
                return mk(es + [es[0]])
            return mk(es)
        k = s.draw(8)
        if k == 0:
            return L(v)
        if k == 1:
            return call("id", L(v))
        if type(v) is bool:
            return ("un", "!", L(not v))
        if v is None:
            return ("bin", "&&", L(None), L(1))
        if type(v) is int:
            w = s.int(-5, 5)
            if k <= 3 and abs(v) < 1 << 62:
                return ("bin", "+", call("id", L(v - w)), L(w))
            if k == 4 and abs(v) < 1 << 50:
                return ("bin", "//", L(v * 3), call("id", L(3)))
            if k == 5 and v > -(1 << 63):
                return ("mcall", L(str(v)), "toint", [])
            if k == 6 and 0 <= v < 20:
                return ("un", "len", ("mcall", L("z"), "rep", [L(v)]))
            return L(v)
        if type(v) is float:
            if k <= 3 and abs(v) < 1e300 and v * 2 / 2 == v and v:
                return ("bin", "/", call("id", L(v * 2)), L(2))
            if k <= 5 and v == v and abs(v) < 1e15 and v == int(v) and v:
                return ("bin", "+", call("id", L(int(v))), L(0.0))
            return L(v)
        if k >= 2 and gen.shared_of(s, v) and s.chance(75):
            return gen.shared_of(s, v)
        if k == 2:
            i = s.draw(len(v) + 1)
            return ("bin", "~", call("id", L(v[:i])), L(v[i:]))
        if k == 3:
            a, b = gen.gstr(s, 3), gen.gstr(s, 3)
            return ("slice", L(a + v + b), L(len(a)), L(len(a) + len(v)))
        if k == 4:
            i = s.draw(len(v) + 1)
            return ("slice", ("bin", "~", L(v[:i]), ("bin", "~", call("id", L(v[i:])), L("q"))), None, L(-1))
        if k == 5:
            return ("mcall", ("list", [L(c) for c in (v if len(v) < 200 else [v[:99], v[99:]])]), "join", [L("")]) if v else L(v)
        if k == 6:
            return ("interp", [v[:1], call("id", L(v[1:])), ""])
        return L(v)


class C12(Check):
    id = "C12"
    technique = "property-based testing: values computed in several ways, all comparisons and key lookups against a reference model"
    note = ("Random search over pools of scalars and nested lists, tables and sets with near-equal variants, each value built in two ways; "
            "identity (===) is judged for undef, bools and numbers only.")
    rule = ("pools of 2-6 values, each computed in some way, all pairs compared with every applicable operator, and used as keys; "
            "non-trivial: some pair of differently built values is equal and some pair is not")
    quick = 30000
    thorough = 900000

    def gen(self, s):
        g = G(s)
        vals = [g.value(s.draw(3))]
        for _ in range(s.int(1, 5)):
            k = s.draw(10)
            b = s.choice(vals)
            vals.append(b if k < 4 else g.near(b) if k < 8 else g.value(s.draw(3)))
        es = [g.spell(v) for v in vals]
        for i in range(1, len(vals)):  # the same object
            if s.chance(10):
                j = s.draw(i)
                vals[i], es[i] = vals[j], V("v%d" % j)
        keys = [v for v in vals if not isinstance(v, tuple) and v is not None]
        more = []
        for _ in range(s.draw(4)):
            keys.append(g.near(s.choice(keys)) if keys and s.chance(60) else g.key())
        keys = [k for k in keys if not isinstance(k, tuple) and k is not None and k == k]
        pre = gen.CLUSTERS[s.draw(len(gen.CLUSTERS))] if s.chance(30) else []
        body = [["let", "v%d" % i, e] for i, e in enumerate(es)]
        n = len(vals)
        for i in range(n):
            for j in range(n):
                a, b = V("v%d" % i), V("v%d" % j)
                parts = []
                ops = ["==", "!="]
                x, y = vals[i], vals[j]
                num = lambda t: type(t) in (int, float)
                if (num(x) and num(y)) or (type(x) is str and type(y) is str):
                    ops += ["<", "<=", ">", ">="]
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "set":
                    ops += ["<", "<=", ">", ">="]
                nan = x is not None and not isinstance(x, (tuple, str)) and x != x and type(y) is float and y != y
                if not isinstance(x, tuple) and type(x) is not str and not isinstance(y, tuple) and type(y) is not str and not nan:
                    ops += ["===", "!=="]
                for op in ops:
                    parts += [("bin", op, a, b), " "]
                body.append(["echo", ("interp", ["%d %d: " % (i, j)] + parts)])
        if keys:
            body.append(["let", "t", ("table", [])])
            body.append(["let", "z", ("call", ("mem", V("collections"), "set"), [])])
            for k in pre:
                body.append(["setidx", V("t"), L(k), L("p")])
                body.append(["expr", ("mcall", V("z"), "add", [L(k)])])
            for i, k in enumerate(keys):
                if s.chance(75):
                    body.append(["setidx", V("t"), g.spell(k), L(i)])
                    body.append(["expr", ("mcall", V("z"), "add", [g.spell(k)])])
                    if s.chance(20):
                        body.append(["expr", ("mcall", V("t"), "remove", [g.spell(s.choice(keys))])])
            for i, k in enumerate(keys):
                body.append(["echo", ("interp", ["key %d: " % i, ("idx", V("t"), g.spell(k)), " ", ("idx", V("z"), g.spell(k))])])
            body.append(["echo", ("interp", ["", ("un", "len", V("t")), " ", ("un", "len", V("z"))])])
        return HELP + body, n

    def show(self, case):
        return syntax.source(case[0])[0]

    def test(self, case, env):
        stmts, n = case
        f, it, st = common.judge(stmts, env)
        lines = model.show_text(it.expected).split("\n")
        eq = [l for l in lines if ": true" in l and l.split(":")[0].split() != l.split(":")[0].split()[:1] * 2]
        ne = [l for l in lines if ": false" in l]
        return f, ["status%d" % st] + (["equal"] if eq else []) + (["unequal"] if ne else []), bool(eq) and bool(ne)


check = C12()
