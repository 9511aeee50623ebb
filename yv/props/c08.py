"""C08: tables as maps, histories against the model."""
from ..hist import HistCheck
from .. import gen, model

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
VARS = ["a", "b", "c"]


class TableGen:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.bulk = [4, 12, 13, 24, 25, 49, 60, 100]       # sizes of bulk operations
        # one history uses few keys, so that they meet again
        pool = [0, 1, 2, 3, -1, 1.0, 2.0, 0.5, True, False, "a", "b", "ab", "ba", "", "1", "true", "a\0", "key", 0.0]
        stride = s.choice([1, 2, 8, 16, 31, 32, 53, 64, 97, 128, 1 << 32])
        pool += [i * stride for i in range(1, s.choice([3, 8, 20]))]
        pool += ["k%d" % i for i in range(s.choice([2, 6, 20]))]
        pool += s.choice([[], [(1 << 63) - 1, -(1 << 63) + 1, 1 << 53, float(1 << 53)], ["x" * i for i in range(1, 12)]])
        if s.chance(40):
            # strs that share memory with others
            pool += ["true", "rue", "tr", "false", "als", "se", "e", "f", "undef", "def", "un"]
        self.pool = s.shuffle(pool)[:s.choice([4, 8, 16, 40])]
        if s.chance(35):
            # keys that collide
            self.pool = s.shuffle(s.choice(gen.CLUSTERS))[:s.choice([3, 5, 9])] + self.pool[:s.choice([0, 0, 3])]

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def key(self):
        s = self.s
        k = L(s.choice(self.pool))
        v = k[1]
        j = s.draw(10)
        # the same key, computed
        if j < 3 and type(v) is str and gen.shared_of(s, v):
            return gen.shared_of(s, v)
        if j == 0 and type(v) is str and len(v) > 1:
            return ("bin", "~", L(v[:1]), L(v[1:]))
        if j == 1 and type(v) is str:
            return ("slice", L("zz" + v + "y"), L(2), L(2 + len(v))) if v else ("slice", L("q"), L(1), None)
        if j == 2 and type(v) is int and abs(v) < 1 << 60:
            return ("bin", "-", L(v + 5), L(5))
        if j == 3 and type(v) is float:
            return ("bin", "/", L(v * 2), L(2))
        if j == 4 and type(v) is bool:
            return ("un", "!", L(not v))
        if j == 5 and type(v) is str and v:
            return ("interp", [v[:1], L(v[1:])])
        return k

    def val(self, d=1):
        s = self.s
        k = s.draw(20)
        if k < 12:
            return L(s.int(0, 9))
        if k < 15:
            return L(s.choice(["", "v", "w"]))
        if k < 16:
            return L(s.choice([0.5, True, False]))
        if k < 18 and d > 0:
            return ("list", [L(s.int(0, 3)) for _ in range(s.draw(3))])
        if k == 18:
            return V(s.choice(VARS))
        return ("table", [(self.key(), L(1))])

    def mutable(self):
        return self.s.choice([("list", []), ("table", []), V(self.s.choice(VARS)), ("list", [L(1)])])

    def table(self, d=2):
        s = self.s
        k = s.draw(10)
        if k < 4 or d <= 0:
            return V(s.choice(VARS))
        if k < 6:
            # no duplicate keys: which one counts isn't specified
            seen, kv = set(), []
            for _ in range(s.many(0, 9, 75)):
                v = s.choice(self.pool)
                if model.kkey(v) in seen:
                    continue
                seen.add(model.kkey(v))
                kv.append((L(v), self.val()))
            return ("table", kv)
        if k == 6:
            return ("mcall", self.table(d - 1), "copy", [])
        if k < 9:
            return ("bin", "|", self.table(d - 1), self.table(d - 1))
        i = self.name("j")
        m = s.choice([3, 10, 30])
        return ("call", ("mem", V("collections"), "table"), sum([[L(i), L(i * 2)] for i in range(m // 3)], []))

    def wrong(self):
        s = self.s
        x = V(s.choice(VARS))
        k = s.draw(7)
        return [["setidx", x, self.mutable(), L(1)], ["echo", ("table", [(self.mutable(), L(1))])],
                ["echo", ("bin", "|", x, s.choice([L(1), L("a"), ("list", []), L(None)]))],
                ["echo", ("bin", "+", x, x)], ["echo", ("bin", "<", x, x)], ["expr", ("mcall", x, "nosuch", [])],
                ["echo", ("slice", x, L(0), L(1))]][k]

    def op(self):
        s = self.s
        n = s.choice(VARS)
        x = V(n)
        k = s.draw(30)
        if k < 6:
            key = self.key()
            if key[0] == "lit" and key[1] in ("a", "b", "ab", "ba", "key", "k1", "k2") and s.chance(40):
                return [["setmem", x, key[1], self.val()]]
            return [["setidx", x, key, self.val()]]
        if k < 9:
            return [["expr", ("mcall", x, "remove", [self.key()])]]
        if k < 11:
            return [["setidx", x, self.key(), L(None)]]
        if k < 13:
            return [["echo", ("idx", x, self.key())]]
        if k == 13:
            return [["expr", ("mcall", x, "clear", [])]]
        if k < 16:
            return [["assign", n, self.table()]]
        if k == 16:
            return [["aug", "|", x, self.table()]]
        if k < 20:
            # many insertions or removals of computed keys
            i = self.name("i")
            m = s.choice(self.bulk)
            st = s.choice([1, 1, 2, 3, 16, 32, 64, -1])
            key = s.choice([("bin", "*", V(i), L(st)), ("bin", "+", V(i), L(s.int(-20, 50))), ("bin", "~", L("k"), V(i)),
                            ("bin", "/", V(i), L(2)), ("bin", "~", V(i), L("")), ("bin", "*", V(i), L(1 << 32))])
            j = s.draw(4)
            body = ["setidx", x, key, V(i)] if j < 2 else ["expr", ("mcall", x, "remove", [key])] if j == 2 else \
                ["setidx", x, key, ("tern", ("bin", "==", ("bin", "%", V(i), L(s.int(2, 3))), L(0)), V(i), L(None))]
            return [["cfor", i, L(0), ("bin", "<", V(i), L(m)), ["aug", "+", V(i), L(1)], [body]], ["echo", ("un", "len", x)]]
        if k == 20:
            e = self.name("e")
            return [["for", e, x, [["echo", ("bin", "~", V(e), L(" is ")) if False else
                                    ("interp", [V(e), " = ", ("idx", x, V(e))])]]]]
        if k == 21:
            return [["echo", ("mcall", x, s.choice(["keys", "values"]), [])]]
        if k == 22:
            return [["echo", ("un", "len", ("mcall", x, s.choice(["keys", "values"]), []))]]
        if k == 23:
            return [["echo", ("bin", s.choice(["==", "!=", "===", "!=="]), self.table(1), self.table(1))]]
        if k == 24:
            t = self.name("t")
            return [["let", t, self.table()], ["setidx", V(t), self.key(), self.val()],
                    ["expr", ("mcall", V(t), "remove", [self.key()])], ["echo", V(t)]]
        if k == 25:
            # every present key is found by a copy, and no other
            e = self.name("e")
            return [["for", e, x, [["echo", ("bin", "==", ("idx", ("mcall", x, "copy", []), V(e)), ("idx", x, V(e)))]]]]
        if k == 26:
            return [["aug", s.choice(["??", "~"]), ("idx", x, self.key()), L(s.int(0, 9))]]
        if k == 27:
            return [["echo", ("idx", x, self.mutable())]]
        if k == 28:
            return [["expr", ("mcall", x, "remove", [self.mutable()])]]
        return [["echo", ("un", "len", x)]]

    def probe(self):
        """Looks every key of the pool up."""
        x = V(self.s.choice(VARS))
        return [["echo", ("list", [("idx", x, L(k)) for k in self.pool])]]

    def program(self):
        s = self.s
        if s.chance(1):
            self.bulk = s.weighted([(6, [300, 700]), (6, [270, 2500]), (1, [70000, 5])])
        parts = [[["let", v, ("table", []) if s.chance(40) else
                   ("table", [(L(k), L(s.int(0, 9))) for k in s.shuffle(self.pool)[:s.int(1, 30)]])] for v in VARS]]
        for _ in range(s.int(1, 5)):
            p = []
            for _ in range(s.int(1, 8)):
                p += self.op()
                if s.chance(40):
                    p += [["echo", V(s.choice(VARS))]]
            parts.append(p)
            if s.chance(25):
                parts.append([self.wrong(), ["echo", L("not reached?")]])
            parts.append([["echo", V(v)] for v in VARS] + [["echo", ("un", "len", V(v))] for v in VARS] + self.probe())
        return parts


class C08(HistCheck):
    id = "C08"
    technique = "model-based property testing: generated operation histories on tables against Python dicts"
    note = ("Random histories of up to ~40 operations on three tables and their aliases, up to a few hundred keys that "
            "collide by stride, equal number or equal bytes; trusts the reference interpreter's tables (Python dicts keyed by "
            "type and value).")
    rule = ("histories of inputs on one state with 2-40 table operations (insertions and removals in bulk and singly, "
            "computed keys, copies, unions, lookups of all keys); non-trivial: 8 or more statements")
    quick = 26000
    thorough = 700000

    def gen(self, s):
        return TableGen(s).program()


check = C08()
