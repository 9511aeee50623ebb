"""C16: metatables: overloads of every operation, against the model."""
from ..hist import HistCheck, judge
from .. import gen, model, progcheck

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
B = lambda op, a, b: ("bin", op, a, b)
BIN = {"**": "__pow", "*": "__mul", "//": "__idiv", "/": "__div", "%": "__mod", "+": "__add", "-": "__sub",
       "<<": "__bshl", ">>": "__bshr", "&": "__band", "&^": "__bandnot", "^": "__bxor", "|": "__bor",
       "<": "__lt", ">": "__gt", "<=": "__le", ">=": "__ge"}
UN = {"-": "__neg", "+": "__pos", "^": "__bnot", "len": "__len"}
SPECIAL = ["__eq", "__get", "__set", "__call", "tostr", "meth", "other"]
ALL = list(BIN.values()) + list(UN.values()) + SPECIAL
SPECIAL_ARITY = {"__eq": 2, "__get": 2, "__set": 3, "__call": 2, "tostr": 1, "meth": 2, "other": 1}
KEYS = ["a", "v", "meth", "zz", 0, 1, 2, -1, 1.5, True, None]


class G:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.objs = []      # names of variables holding values with metatables (or not)
        self.mts = []

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def const(self):
        s = self.s
        k = s.draw(9)
        if k < 3:
            return L(s.int(0, 5))
        if k == 3:
            return L(s.choice(["", "s", "key", "v"]))
        if k == 4:
            return L(s.choice([0.5, True, False, None]))
        if k == 5:
            return ("list", [L(s.int(0, 3)) for _ in range(s.draw(3))])
        if k == 6:
            return ("table", [(L("v"), L(s.int(0, 3)))])
        return L(s.int(0, 5))

    def overload(self, name, objs):
        """A function for a metatable."""
        s = self.s
        ar = SPECIAL_ARITY.get(name, 1 if name in UN.values() else 2)
        ps = ["self", "arg", "val"][:ar]
        if s.chance(10):
            ps = ps[:-1] if s.chance(50) else ps + ["extra"]
        body = []
        if s.chance(70):
            parts = [name]
            if len(ps) > 1 and s.chance(30) and name != "tostr":
                # the operands, but not by their own tostr
                parts += [" ", ("tern", B("===", V(ps[1]), L(None)), L("none"), L("some")), ""]
            if s.chance(40) and objs and name != "__eq":
                o = V(s.choice(objs))
                parts += [" ", B("===", V("self") if ps else L(1), o), ""]
            if len(parts) > 1 and len(parts) % 2 == 0:
                parts.append("")
            body.append(["echo", ("interp", parts) if len(parts) > 1 else L(name)])
        if name == "__eq" and s.chance(80):
            body.append(["return", [s.choice([L(True), L(False), B("===", V("self"), V("self")), L(None), L(1)])]])
            return ps, body
        if name == "__len" and s.chance(60):
            body.append(["return", [s.choice([L(7), L(0), L("x"), L(-1)])]])
            return ps, body
        if name == "tostr":
            k = s.draw(10)
            if k < 7:
                body.append(["return", [s.choice([L("<obj>"), L(""), B("~", L("o"), L(s.int(0, 9))), ("interp", ["", L(1), "!"])])]])
            elif k == 7:
                body.append(["return", [s.choice([L(1), L(None), ("list", [])])]])
            elif k == 8 and objs:
                body.append(["return", [("mcall", V(s.choice(objs)), "tostr", [])]])
            else:
                body.append(["return", [L("t"), L("u")]])
            return ps, body
        if name == "__set" and "val" in ps and s.chance(50):
            body.append(["assign", "stored", V("val")])
            return ps, body
        k = s.draw(16)
        if k < 3:
            body.append(["return", [self.const()]])
        elif k < 5 and ps:
            body.append(["return", [V(s.choice(ps))]])
        elif k < 7 and len(ps) > 1:
            body.append(["return", [("list", [V(p) for p in ps[1:]] + [L(1)])]])
        elif k == 7:
            body.append(["return", [L(1), L(2)]])
        elif k == 8:
            pass
        elif k < 11 and objs:
            # other operators at work (they can't come back here: objs are older)
            o = V(s.choice(objs))
            body.append(["let", "r", s.choice([B(s.choice(list(BIN)), o, L(2)), ("un", s.choice(list(UN)), o), ("idx", o, L("zz")),
                                               ("mcall", o, "meth", [L(5)]), B("==", o, o), ("call", o, [L(3)])])])
            body.append(["return", [("list", [V("r"), L(0)])]])
        elif k == 11:
            body.append(s.choice([["assert", L(False)], ["echo", B("//", L(1), L(0))], ["echo", ("un", "-", L("x"))]]))
            body.append(["return", [L(1)]])
        elif k == 12:
            body.append(["aug", "+", V("counter"), L(1)])
            body.append(["return", [V("counter")]])
        elif k == 13 and objs:
            body.append(["return", [V(s.choice(objs))]])
        elif k == 14:
            body.append(["return", [("fn", ["q"], [["return", [("list", [V("q"), L("in fn")])]]])]])
        else:
            body.append(["return", [L("r" + name)]])
        return ps, body

    def metatable(self):
        s = self.s
        n = self.fresh("m")
        k = s.draw(5)
        names = s.shuffle(SPECIAL + ALL)[:s.int(1, 4)] if k < 2 else s.shuffle(ALL)[:s.int(5, 20)] if k < 4 else list(ALL)
        names = list(dict.fromkeys(names))
        out = []
        pairs = []
        style = s.draw(3)
        for x in names:
            ps, body = self.overload(x, self.objs)
            if style == 0:
                pairs.append((L(x), ("fn", ps, body or [["return", [L(None)]]])))
            else:
                out.append(["tfndecl", n, x, ps, body] if style == 1 and not x.startswith("zz") else
                           ["setidx", V(n), L(x), ("fn", ps, body or [["return", [L(None)]]])])
        if s.chance(25):
            pairs.append((L(s.choice(["a", "zz", 0, 1.5, "field"])), self.const()))
        if s.chance(6):
            pairs.append((L(s.choice(["__add", "__get", "tostr", "__call", "__set", "__eq"])) if style else L("field2"), L(3)))
        seen, ps2 = set(), []
        for a, b in pairs:
            if (type(a[1]), a[1]) not in seen:
                seen.add((type(a[1]), a[1]))
                ps2.append((a, b))
        self.mts.append(n)
        return [["let", n, ("table", ps2)]] + out

    def object(self):
        s = self.s
        n = self.fresh("o")
        k = s.draw(8)
        e = ("list", [L(i) for i in range(s.draw(4))]) if k < 3 else \
            ("call", ("mem", V("collections"), "set"), [L(1), L("a")]) if k == 3 else \
            ("table", [(L(x), L(s.int(0, 9))) for x in s.shuffle(["a", "v", 0, 1])[:s.draw(4)]])
        out = [["let", n, e]]
        if self.mts and s.chance(85):
            st = ("call", ("mem", V("mt"), "set"), [V(n), V(s.choice(self.mts))])
            out = [["let", n, ("call", ("mem", V("mt"), "set"), [e, V(s.choice(self.mts))])]] if s.chance(50) else out + [["expr", st]]
        self.objs.append(n)
        return out

    def operand(self):
        s = self.s
        if self.objs and not s.chance(30):
            return V(s.choice(self.objs))
        return self.const()

    def operation(self):
        s = self.s
        o = V(s.choice(self.objs)) if self.objs else self.const()
        k = s.draw(24)
        if k < 6:
            op = s.choice(list(BIN))
            return B(op, o, self.operand()) if s.chance(75) else B(op, self.operand(), o)
        if k < 8:
            return ("un", s.choice(list(UN)), o)
        if k < 10:
            return B(s.choice(["==", "==", "!="]), o, self.operand())
        if k < 12:
            return ("idx", o, L(s.choice(KEYS)))
        if k == 12:
            return ("mem", o, s.choice(["a", "v", "meth", "zz", "field", "__add"])) if s.chance(50) else ("mcall", o, "meth", [self.operand()])
        if k == 13:
            return ("mcall", o, s.choice(["meth", "zz", "other", "push", "keys", "copy", "tostr", "__add", "__len"]),
                    [self.operand() for _ in range(s.draw(3))])
        if k == 14:
            return ("call", o, [self.operand() for _ in range(s.draw(3))])
        if k == 15:
            return B("~", self.operand(), self.operand())
        if k == 16:
            return ("interp", ["<", o, ">"])
        if k == 17:
            return ("mcall", o, "tostr", [])
        if k == 18:
            return ("mcall", ("list", [self.operand(), self.operand()]), s.choice(["join"]), [L(",")])
        if k == 19:
            return ("slice", o, L(0), L(1))
        if k == 20:
            return ("tern", o, L("yes"), L("no"))
        if k == 21:
            return B(s.choice(["+", "*", "|"]), B(s.choice(["+", "-", "<<"]), o, L(1)), self.operand())
        if k == 22:
            return ("call", ("fn", ["q", "w"], [["return", [B(s.choice(list(BIN)), V("q"), V("w"))]]]), [o, self.operand()])
        return o

    def step(self):
        s = self.s
        k = s.draw(20)
        if k < 12:
            return [["echo", self.operation()]]
        o = V(s.choice(self.objs)) if self.objs else V("plain")
        if k < 14:
            return [["setidx", o, L(s.choice(KEYS)), self.operand()], ["echo", V("stored")]]
        if k == 14:
            if s.chance(50):
                return [["setmem", o, s.choice(["a", "v", "zz"]), self.operand()]]
            return [["aug", s.choice(["+", "~", "??"]), ("idx", o, L(s.choice(["a", "zz", 0, 1]))), self.operand()]]
        if k == 15:
            x = s.choice(self.objs) if self.objs else "plain"
            self.n += 1
            y = "y%d" % self.n
            return [["let", y, V(x)], ["aug", s.choice(list(BIN)[:13]), V(y), self.operand()], ["echo", V(y)]]
        if k == 16 and self.mts:
            m = s.choice(self.mts)
            if s.chance(40):
                return [["expr", ("mcall", V(m), "remove", [L(s.choice(ALL))])]]
            if s.chance(30):
                return [["echo", B("===", ("call", ("mem", V("mt"), "get"), [o]), V(m))]] if False else \
                    [["expr", ("call", ("mem", V("mt"), "set"), [o, V(m)])]]
            x = s.choice(ALL)
            ps, body = self.overload(x, [])
            return [["setidx", V(m), L(x), ("fn", ps, body or [["return", [L(None)]]])]]
        if k == 17:
            return [["echo", s.choice([B("+", ("list", [L(1)]), ("list", [L(2)])), B("|", V("plain"), ("table", [])), ("un", "len", V("plist")),
                                       B("==", V("plain"), V("plain")), V("plain"), V("plist"), ("idx", V("plist"), L(0)), B("+", L(1), L(2)),
                                       ("mcall", V("plist"), "count", [L(1)])])]]
        if k == 18:
            return [["echo", ("list", [self.operand(), self.operand()])]]
        return [["if", [(self.operation(), [["echo", L("then")]])], [["echo", L("else")]]]]

    def program(self):
        s = self.s
        parts = [[["let", "stored", L(0)], ["let", "counter", L(0)], ["let", "plain", ("table", [(L("a"), L(1))])],
                  ["let", "plist", ("list", [L(1), L(2)])]]]
        for _ in range(s.int(1, 3)):
            p = self.metatable()
            for _ in range(s.int(1, 2)):
                p += self.object()
            parts.append(p)
        if s.chance(30):
            parts.append(self.object())
        for _ in range(s.int(2, 14)):
            parts.append(self.step())
        if s.chance(30):
            # in a function, with locals around
            body = [["let", "x1", L(1)]]
            for _ in range(s.int(1, 3)):
                body.append(["echo", self.operation()])
            parts.append([["fndecl", "inside", ["p"], body + [["return", [L("end")]]], False], ["echo", ("call", V("inside"), [L(0)])]])
        return parts


class C16(HistCheck):
    id = "C16"
    technique = "model-based property testing: generated metatables with traced overloads, and every operation, against a reference model"
    note = ("Random search: up to 3 metatables with any subset of the 27 overloadable operations, shared by up to 7 tables, lists and sets, "
            "changed while in use; functions of a metatable use only objects that exist before it.")
    rule = ("sessions of 5-20 inputs: metatables, objects, then operations of every kind on them, mixed with plain values; non-trivial: "
            "an overload was run or an unsupported operation reported")
    quick = 36000
    thorough = 1000000

    def gen(self, s):
        return G(s).program()

    def test(self, case, env):
        f, res = judge(case, env, max_steps=60000, fntext=True)
        labels = ["status%d" % st for st, _ in res]
        text = "".join(model.show_text(t) for _, t in res)
        ran = [x for x in ALL if x in text]
        return f, sorted(set(labels)) + ["ran:" + x for x in ran], bool(ran) or any(st > 1 for st, _ in res)


check = C16()
