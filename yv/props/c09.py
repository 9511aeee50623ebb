"""C09: sets, histories against the model."""
from ..hist import HistCheck
from .. import gen, model

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
VARS = ["a", "b", "c"]
NEWSET = ("mem", V("collections"), "set")


class SetGen:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.bulk = [4, 12, 13, 24, 25, 49, 60, 100]       # sizes of bulk operations
        pool = [0, 1, 2, 3, -1, 1.0, 2.0, 0.5, True, False, "a", "b", "ab", "", "1", "true", "a\0", 0.0]
        stride = s.choice([1, 2, 8, 16, 31, 32, 53, 61, 64, 97, 127, 1 << 32])
        pool += [i * stride for i in range(1, s.choice([3, 8, 20]))]
        pool += ["k%d" % i for i in range(s.choice([2, 6, 20]))]
        if s.chance(40):
            # strs that share memory with others
            pool += ["true", "rue", "tr", "false", "als", "se", "e", "f", "undef", "def", "un"]
        self.pool = s.shuffle(pool)[:s.choice([4, 8, 16, 40])]
        if s.chance(35):
            self.pool = s.shuffle(s.choice(gen.CLUSTERS))[:s.choice([3, 5, 9])] + self.pool[:s.choice([0, 0, 3])]

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def elem(self):
        s = self.s
        v = s.choice(self.pool)
        j = s.draw(10)
        if j < 3 and type(v) is str and gen.shared_of(s, v):
            return gen.shared_of(s, v)
        if j == 0 and type(v) is str and len(v) > 1:
            return ("bin", "~", L(v[:1]), L(v[1:]))
        if j == 1 and type(v) is str and v:
            return ("slice", L("zz" + v + "y"), L(2), L(2 + len(v)))
        if j == 2 and type(v) is int and abs(v) < 1 << 60:
            return ("bin", "-", L(v + 5), L(5))
        if j == 3 and type(v) is float:
            return ("bin", "/", L(v * 2), L(2))
        return L(v)

    def mutable(self):
        return self.s.choice([("list", []), ("table", []), V(self.s.choice(VARS)), ("list", [L(1)])])

    def set(self, d=2):
        s = self.s
        k = s.draw(12)
        if k < 4 or d <= 0:
            return V(s.choice(VARS))
        if k < 6:
            es = [self.elem() for _ in range(s.many(0, 9, 75))]
            return ("call", NEWSET, es)
        if k == 6:
            return ("call", NEWSET, [("list", [self.elem() for _ in range(s.many(0, 9, 75))])])
        if k == 7:
            return ("mcall", self.set(d - 1), "copy", [])
        return ("bin", s.choice(["|", "&", "^", "&^"]), self.set(d - 1), self.set(d - 1))

    def wrong(self):
        s = self.s
        x = V(s.choice(VARS))
        k = s.draw(7)
        return [["expr", ("mcall", x, "add", [self.mutable()])],
                ["echo", ("call", NEWSET, [L(1), self.mutable()])],
                ["echo", ("call", NEWSET, [("list", [L(1), self.mutable()])])],
                ["echo", ("bin", s.choice(["|", "&", "^", "&^", "<", "<=", ">", ">="]), x,
                          s.choice([L(1), L("a"), ("list", []), ("table", []), L(None)]))],
                ["echo", ("bin", "+", x, x)], ["expr", ("mcall", x, "nosuch", [])],
                ["setidx", x, L(1), L(True)]][k]

    def op(self):
        s = self.s
        n = s.choice(VARS)
        x = V(n)
        k = s.draw(24)
        if k < 5:
            return [["expr", ("mcall", x, "add", [self.elem()])]]
        if k < 8:
            st = ("mcall", x, "remove", [self.elem()])
            return [["echo", st] if s.chance(50) else ["expr", st]]
        if k < 10:
            return [["echo", ("idx", x, self.elem())]]
        if k == 10:
            return [["expr", ("mcall", x, "clear", [])]]
        if k < 13:
            return [["assign", n, self.set()]]
        if k == 13:
            return [["aug", s.choice(["|", "&", "^", "&^"]), x, self.set()]]
        if k < 16:
            i = self.name("i")
            m = s.choice(self.bulk)
            st = s.choice([1, 1, 2, 3, 16, 31, 32, 64, -1])
            key = s.choice([("bin", "*", V(i), L(st)), ("bin", "+", V(i), L(s.int(-20, 50))), ("bin", "~", L("k"), V(i)),
                            ("bin", "/", V(i), L(2)), ("bin", "~", V(i), L(""))])
            body = ["expr", ("mcall", x, s.choice(["add", "add", "remove"]), [key])]
            return [["cfor", i, L(0), ("bin", "<", V(i), L(m)), ["aug", "+", V(i), L(1)], [body]], ["echo", ("un", "len", x)]]
        if k == 16:
            e = self.name("e")
            return [["for", e, ("mcall", x, "tolist", []), [["echo", ("interp", [V(e), " ", ("idx", x, V(e))])]]]]
        if k == 17:
            return [["echo", ("mcall", x, "tolist", [])], ["echo", ("un", "len", ("mcall", x, "tolist", []))]]
        if k < 20:
            return [["echo", ("bin", s.choice(["==", "!=", "<", "<=", ">", ">=", "===", "!=="]), self.set(1), self.set(1))]]
        if k == 20:
            t = self.name("t")
            return [["let", t, self.set()], ["expr", ("mcall", V(t), "add", [self.elem()])],
                    ["expr", ("mcall", V(t), "remove", [self.elem()])], ["echo", V(t)], ["echo", ("bin", "==", V(t), x)]]
        if k == 21:
            # subsets and supersets made on purpose
            u = ("bin", "|", x, ("call", NEWSET, [self.elem()]))
            return [["echo", ("bin", s.choice(["<", "<=", ">", ">=", "=="]), *s.shuffle([x, u]))]]
        if k == 22:
            return [["echo", ("idx", x, self.mutable())]] if s.chance(50) else \
                [["expr", ("mcall", ("mcall", x, "add", [self.elem()]), "add", [self.elem()])]]
        return [["echo", ("un", "len", x)]]

    def probe(self):
        x = V(self.s.choice(VARS))
        return [["echo", ("list", [("idx", x, L(k)) for k in self.pool])]]

    def program(self):
        s = self.s
        if s.chance(2):
            self.bulk = s.weighted([(3, [300, 700]), (3, [270, 2500]), (1, [70000, 5])])
        parts = [[["let", v, ("call", NEWSET, [] if s.chance(40) else [L(k) for k in s.shuffle(self.pool)[:s.int(1, 30)]])]
                  for v in VARS]]
        for _ in range(s.int(1, 5)):
            p = []
            for _ in range(s.int(1, 8)):
                p += self.op()
                if s.chance(40):
                    p += [["echo", V(s.choice(VARS))]]
            parts.append(p)
            if s.chance(25):
                parts.append([self.wrong(), ["echo", L("not reached?")]])
            parts.append([["echo", V(v)] for v in VARS] + [["echo", ("un", "len", V(v))] for v in VARS] + self.probe())
        return parts


class C09(HistCheck):
    id = "C09"
    technique = "model-based property testing: generated operation histories on sets against Python's sets"
    note = ("Random histories of up to ~40 operations on three sets and their aliases, up to a few hundred elements that "
            "collide by stride, equal number or equal bytes; undef as an element is excluded (unspecified).")
    rule = ("histories of inputs on one state with 2-40 set operations (single and bulk additions and removals, algebra, "
            "comparisons, membership of all elements); non-trivial: 8 or more statements")
    quick = 26000
    thorough = 700000

    def gen(self, s):
        return SetGen(s).program()


check = C09()
