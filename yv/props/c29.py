"""C29: host and scripts exchange values and calls faithfully."""
from ..engine import Check, Discard
from .. import api, client, gen, model, progen

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
F1 = ("fn", ("int",), "int")
# what a host function does with its arguments: nargs, type, ops
TYPED = [
    (1, F1, [("ret", 1)]),
    (2, ("fn", ("int", "int"), "int"), [("ret", 1)]),
    (2, ("fn", ("int", "str"), "int"), [("nlook", 0), ("nlook", 1), ("pop",), ("ret", 1)]),
    (3, ("fn", ("int", "int", "int"), "int"), [("nlook", 2), ("nlook", 0), ("ret", 1)]),
    (1, ("fn", ("str",), "str"), [("show",), ("ret", 1)]),
    (2, ("fn", ("str", "list"), "str"), [("show",), ("pop",), ("look",), ("ret", 1)]),
    (1, ("fn", ("list",), "list"), [("show",), ("int", 7), ("lpush",), ("ret", 1)]),
    (1, ("fn", ("float",), "float"), [("show",), ("dup",), ("popfloat",), ("ret", 1)]),
    (1, ("fn", ("bool",), "bool"), [("dup",), ("popbool",), ("ret", 1)]),
    (2, ("fn", (F1, "int"), "int"), [("look",), ("call", 1), ("look",), ("ret", 1)]),
    (2, ("fn", (F1, "int"), "int"), [("call", 1), ("setg", "acc"), ("loadg", "acc"), ("ret", 1)]),
    (1, ("fn", (F1,), "list"), [("setg", "cb"), ("list",), ("loadg", "cb"), ("int", 3), ("call", 1), ("lpush",), ("loadg", "cb"),
                                ("int", -4), ("call", 1), ("lpush",), ("ret", 1)]),
    (0, ("fn", (), "int"), [("loadg", "acc"), ("look",), ("ret", 1)]),
    (0, ("fn", (), "list"), [("list",), ("int", 1), ("lpush",), ("loadg", "acc"), ("lpush",), ("ret", 1)]),
    (-1, ("fn", ("int", "int"), "int"), [("vargs",), ("ret", 1)]),
    (-1, ("fn", (), "int"), [("vargs",), ("ret", 1)]),
    (-2, ("fn", ("str", "int", "int"), "int"), [("vargs",), ("nlook", 0), ("nlook", 1), ("ret", 1)]),
    (-3, ("fn", ("int",), "int"), [("vargs",), ("nlook", 0), ("nlook", 1), ("nlook", 2), ("pop",), ("int", 9), ("ret", 1)]),
]


class Script(progen.ProgGen):
    def st_fail(self):
        if self.unordered:
            return None
        return super().st_fail()


class G(api.ApiGen):
    def __init__(self, s):
        super().__init__(s, nfns=s.draw(3), fnsize=6)
        self.emit(("libs",))
        self.typed = []
        self.decl = [("acc", "int"), ]
        self.emit(("int", s.int(-3, 3)))
        self.emit(("initg", "acc"))
        self.emit(("decl", "cb"))
        k = len(self.fns)
        for i in range(s.int(1, 4)):
            n, t, ops = s.choice(TYPED)
            k += 1
            ops = [("log", "typed%d" % k)] + list(ops)
            if s.chance(10):
                ops[1:1] = [("err", "Host says no"), ("throw", s.choice([2, 5, 7, 42]))]
            self.blocks[k] = ops
            name = "host%d" % k
            self.emit(("cfn", k, n))
            self.emit(("initg", name))
            self.typed.append((name, t))
        for i in range(s.int(1, 4)):
            t = s.choice(["int", "str", "float", "bool", "list", "table"])
            name = "v_%s%d" % (t, i)
            self.value(t)
            self.emit(("initg", name))
            self.decl.append((name, t))
        for i in range(s.draw(3)):
            self.decl.append(("cb%d" % i, ("fn", ("int",) * s.draw(3), s.choice(["int", "str", "list"]))))

    def value(self, t):
        """Pushes one."""
        s = self.s
        if t == "int":
            self.emit(("int", gen.gint(s)))
        elif t == "float":
            self.emit(("float", s.int(-4000, 4000) / 16))
        elif t == "bool":
            self.emit(("bool", s.chance(50)))
        elif t == "str":
            self.emit((s.choice(["lstr", "zstr"]), api.gstr(s)) if s.chance(80) else ("lit", s.draw(len(api.LITS))))
        elif t == "list":
            self.emit(("list",))
            for _ in range(s.many(0, 6, 75)):
                self.emit(("int", gen.gint(s)))
                self.emit(("lpush",))
        elif t == "table":
            self.emit(("table",))
            for _ in range(s.many(0, 4, 65)):
                k = s.choice(["a", "b", "c", "k", 0, 1, 2])
                self.emit(("lstr", k) if type(k) is str else ("int", k))
                self.emit(("int", gen.gint(s)))
                self.emit(("tset",))
        elif isinstance(t, tuple):
            # a function: one of ours
            have = [n for n, x in self.typed if x == t]
            if not have:
                raise Discard("no such function")
            self.emit(("loadg", s.choice(have)))

    def program(self):
        s = self.s
        first = {n: t for n, t in self.decl if isinstance(t, tuple)}
        missing = [n for n in first if n not in self.api.globals]
        for n in missing:
            self.emit(("decl", n))
        w = {"fail": s.choice([0, 0, 0, 6]), "assign": 20, "fassign": 12, "call": 16, "listop": 8, "closures": 2}
        p = Script(s, w, size=14, max_depth=3)
        for n, t in self.typed + self.decl:
            if n not in missing:
                p.declare(n, t, const=n in dict(self.typed))
        out = []
        for n in missing:
            # a callback, which may keep some of our variables
            out += p.block_here(s.draw(3))
            p.declare(n, first[n])
            v = p.scopes[-1][-1]
            p.fnlimit, lim = v.seq, p.fnlimit
            f = p.lambda_(first[n])
            p.fnlimit = lim
            out.append(["assign", n, f])
        out += p.program(s.int(1, 7))
        return out

    def look_globals(self):
        s = self.s
        for n, t in s.shuffle(self.decl)[:s.int(1, 4)]:
            if n not in self.api.globals or self.api.globals[n][0] is None:
                continue
            self.emit(("loadg", n))
            if not isinstance(t, tuple):
                self.emit(("show",) if self.showable() else ("look",))
                if s.chance(30):
                    self.change(n, t)
                self.emit(("pop",))
            else:
                before = len(self.st)
                self.emit(("look",))
                m = len(t[1]) + s.choice([0, 0, 0, 1, -1])
                for i in range(max(0, m)):
                    self.value(t[1][i] if i < len(t[1]) else "str")
                self.emit(("call", max(0, m)))
                while len(self.st) >= before:
                    self.emit(("show",) if self.showable() else ("look",))
                    self.emit(("pop",))

    def change(self, n, t):
        """By the host: the value itself, or another for the global."""
        s = self.s
        if t == "list" and type(self.st[-1]) is model.YList and s.chance(60):
            self.emit(("int", s.int(-9, 9)))
            self.emit(("lpush",))
        elif t == "table" and type(self.st[-1]) is model.YTable and s.chance(60):
            self.emit(("lit", s.choice([1, 2])))
            self.emit(("int", s.int(-9, 9)))
            self.emit(("tset",))
        else:
            self.value(t)
            self.emit(("setg", n))

    def session(self):
        s = self.s
        for _ in range(s.int(1, 4)):
            k = s.draw(10)
            if k < 8:
                self.run(self.program())
            else:
                self.run(self.script())
            if s.chance(80):
                self.look_globals()
        if s.chance(30):
            self.emit(("dtors",))
        return self.finish(), self.api

    def run(self, prog):
        self.emit(("src", prog))
        self.emit(("exec",))


class C29(Check):
    id = "C29"
    technique = ("stateful model-based testing: generated programs that share globals with a generated host, call its functions and have "
                 "theirs called by it, against a model of both")
    rule = ("up to 4 programs of ~10 statements run on one state with up to 6 host functions of fixed and variable numbers of arguments "
            "(returning their arguments, calling scripts back, raising errors), globals of every type read and changed on both sides "
            "between runs; non-trivial: at least 2 calls of host functions by scripts, or a script function called by the host, and a value "
            "looked at by the host")
    note = ("Random search. Calls that would raise an error while no program runs aren't made: the API doesn't define them.")
    quick = 24000
    thorough = 800000

    def gen(self, s):
        g = G(s)
        try:
            return g.session()
        except model.YErr:
            raise Discard("error outside of a run")

    def show(self, case):
        return api.show(case[0])

    def test(self, case, env):
        blocks, a = case
        r = env.run(client.API, api.text(blocks))
        f = api.compare(a, r)
        host = [o[0] for o in blocks[0]]
        labels = ["exec%d" % x for x in a.statuses] + (["hostcalls"] if "call" in host else []) + (["scriptcalls"] if a.calls else [])
        return f, labels, (a.calls >= 2 or "call" in host) and ("show" in host or "look" in host)


check = C29()
