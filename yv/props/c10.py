"""C10: strs as byte sequences, histories against the model."""
from ..engine import Check, Discard
from .. import client, common, gen, model, syntax

SHOW = '''fn show(v, w) {
  match v {
    str {
      echo 'str ' ~ len v ~ ' ' ~ (v == w) ~ ' ' ~ v
    }
    list {
      echo 'list ' ~ len v ~ ' ' ~ (v == w)
      for let i = 0; i < len v; i += 1 {
        show(v[i], w[i])
      }
    }
    int {
      echo 'int ' ~ v
    }
    bool {
      echo 'bool ' ~ v
    }
    undef {
      echo 'undef'
    }
    * {
      echo 'other'
    }
  }
}
'''


def shown(v):
    t = type(v)
    if t is str:
        return f"str {len(v)} true {v}\n".replace("\0", "")
    if t is model.YList:
        return f"list {len(v.items)} true\n" + "".join(shown(x) for x in v.items)
    if v is None:
        return "undef\n"
    return model.typename(v) + " " + ("true" if v is True else "false" if v is False else str(v)) + "\n"


def lit(v):
    return ("list", [lit(x) for x in v.items]) if type(v) is model.YList else ("lit", v)


class StrGen:
    def __init__(self, s):
        self.s = s
        self.reps = [0, 1, 2, 3, 7]
        self.far = [100, -100, 1 << 40, -(1 << 63) + 1, gen.far(s, s.int(-2, 3))]
        if s.chance(3):
            # long strs
            m = s.choice([40, 64, 127, 128, 255, 256, 1000, 1022, 1023, 1024, 1025, 9000])
            self.reps = [2, 3, 7, m, m]
            self.far += [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, m, m - 1, -m, 32768, 65536]
        self.names = []
        k = s.draw(6)
        self.alpha = ["ab", "abc ", "aA0 z_Z9\t\n", "\0a\0b", "".join(map(chr, range(256))), ", \v\r\fx"][k]
        self.pool = [self.fresh() for _ in range(4)]

    def fresh(self):
        s = self.s
        n = s.weighted([(2, 0), (3, 1), (8, s.int(2, 9)), (2, s.int(10, 40))])
        return "".join(s.choice(self.alpha) for _ in range(n))

    def lit(self):
        s = self.s
        k = s.draw(10)
        if k < 6:
            v = s.choice(self.pool)
            if s.chance(40) and v:
                i = s.draw(len(v))
                v = v[i:i + s.int(1, 3)]
            return ("lit", v)
        if k < 9:
            return ("lit", self.fresh())
        return ("lit", s.choice(["", "a", " ", ",", "\0", "aa", "ab", "\n", "abab"]))

    def str(self, d=2):
        s = self.s
        k = s.draw(20)
        if k < 7 or d <= 0:
            return ("var", s.choice(self.names)) if self.names and not s.chance(15) else self.lit()
        if k < 8:
            return gen.shared(s)[0] if s.chance(50) else self.lit()
        if k < 11:
            return ("slice", self.str(d - 1), self.bound(), self.bound())
        if k < 13:
            return ("bin", "~", self.str(d - 1), self.str(d - 1))
        if k == 13:
            if s.chance(3):
                return ("mcall", s.choice([("lit", ""), self.str(0)]), "rep", [("lit", gen.far(s, s.int(0, 3)))])
            return ("mcall", self.str(d - 1), "rep", [("lit", s.choice(self.reps))])
        if k == 14:
            return ("mcall", self.str(d - 1), s.choice(["toupper", "tolower", "tostr"]), [])
        if k == 15:
            return ("mcall", self.str(d - 1), s.choice(["trim", "ltrim", "rtrim"]), [self.sub()] if s.chance(60) else [])
        if k == 16:
            a = [self.sub(), self.str(0)]
            if s.chance(40):
                a.append(("lit", s.int(-1, 3) if not s.chance(10) else gen.far(s, s.int(-1, 3))))
            return ("mcall", self.str(d - 1), "replace", a)
        if k == 17:
            return ("mcall", self.lst(d - 1), "join", [self.str(0)])
        if k == 18:
            return ("interp", [self.lit()[1], self.str(0), s.choice(["", "-", "#", "\0"])])
        x = self.str(d - 1)
        return ("idx", ("bin", "~", x, ("lit", "!")), ("lit", s.choice([0, -1])))

    def lst(self, d):
        s = self.s
        k = s.draw(4)
        if k == 0:
            return ("list", [self.str(0) for _ in range(s.draw(5))])
        if k == 1:
            return ("mcall", self.str(d), "split", [self.lit()])
        return ("mcall", self.str(d), "split", [] if k == 2 else [self.sub()])

    def sub(self):
        """A needle, which sometimes is there."""
        s = self.s
        e = self.str(0)
        if s.chance(50):
            return e
        if s.chance(8):
            return gen.shared(s)[0]
        return ("lit", s.choice(["a", "b", "ab", "aa", " ", "\0", ",", s.choice(self.alpha), s.choice(self.alpha) * 2]))

    def bound(self):
        s = self.s
        k = s.draw(10)
        if k < 3:
            return None
        return ("lit", s.int(-5, 8) if k < 9 else s.choice(self.far))

    def op(self):
        """An expression, of any type, that may fail."""
        s = self.s
        x = self.str(1)
        k = s.draw(30)
        if k < 10:
            return self.str(3)
        if k == 10:
            return ("un", "len", x)
        if k < 13:
            i = s.choice([("lit", s.int(-3, 4) if not s.chance(10) else gen.far(s, s.int(-3, 4))), ("un", "len", x), ("bin", "-", ("un", "len", x), ("lit", 1)), ("un", "-", ("un", "len", x)),
                          ("bin", "-", ("un", "-", ("un", "len", x)), ("lit", 1))])
            return ("idx", x, i)
        if k < 15:
            return ("mcall", x, s.choice(["startswith", "endswith"]), [self.sub()])
        if k == 15:
            y = self.str(0)
            return ("mcall", ("bin", "~", x, y) if s.chance(50) else ("bin", "~", y, x), s.choice(["startswith", "endswith"]), [y])
        if k < 18:
            return ("mcall", x, s.choice(["search", "count"]), [self.sub()])
        if k == 18:
            return ("mcall", ("bin", "~", ("bin", "~", x, ("lit", "b")), self.str(0)), s.choice(["search", "count"]), [self.sub()])
        if k < 21:
            return ("mcall", x, s.choice(["isalnum", "isal", "isnum", "isspace"]), [])
        if k < 24:
            y = ("bin", "~", x, self.lit()) if s.chance(30) else self.str(1)
            return ("bin", s.choice(["<", "<=", ">", ">=", "==", "!="]), *s.shuffle([x, y]))
        if k < 27:
            return self.lst(1)
        # arguments outside of the domain
        bad = ("lit", s.choice([None, 1, 1.5, True]))
        nb = ("lit", s.choice([1, 1.5, True]))
        j = s.draw(16)
        E = ("lit", "")
        return [("mcall", x, "split", [E]), ("mcall", x, "replace", [E, self.lit()]), ("mcall", x, "count", [E]),
                ("mcall", x, "search", [bad]), ("mcall", x, "startswith", [bad]), ("mcall", x, "endswith", [bad]),
                ("mcall", x, "rep", [("lit", -s.int(1, 3) if not s.chance(20) else -abs(gen.far(s, s.int(-3, 3))))]), ("mcall", x, "rep", [("lit", s.choice(["a", 1.0, None]))]),
                ("mcall", x, s.choice(["trim", "ltrim", "rtrim"]), [E]),
                ("mcall", x, s.choice(["trim", "ltrim", "rtrim"]), [nb]),
                ("mcall", x, "replace", [bad, x]), ("mcall", x, "replace", [self.lit(), bad]),
                ("mcall", x, "split", [nb]), ("idx", x, ("lit", s.choice([1.0, True, "nope"]))),
                ("slice", x, ("lit", s.choice(["a", 1.0])), None), ("setidx!", x, ("lit", 0), ("lit", "x"))][j]

    def program(self):
        s = self.s
        decls = []
        for i in range(s.int(1, 3)):
            decls.append(("v%d" % i, self.lit()))
            self.names.append("v%d" % i)
        ops = []
        for i in range(s.int(1, 9)):
            if s.chance(6):
                ops.append(("l%d" % i, True, ("lcomp", ("var", "c"), "c", self.str(1), None)))
                continue
            o = self.op()
            keep = o[0] == "slice" or (o[0] in ("bin", "mcall", "interp") and o[1] == "~")
            if keep and s.chance(70):
                n = s.choice(self.names) if s.chance(30) else "w%d" % i
                ops.append((n, n not in self.names, o))
                if n not in self.names:
                    self.names.append(n)
            else:
                ops.append((None, False, o))
        return decls, ops


class C10(Check):
    id = "C10"
    technique = "model-based property testing: generated str operations against Python byte-sequence semantics"
    note = ("Random histories of up to 9 (nested) operations on up to 10 strs over six alphabets (all bytes, NULs, "
            "whitespace, few letters), lengths 0-300, in some up to 65536; trusts the reference interpreter's str operations.")
    rule = ("inputs on one state, each showing a str expression's value by type, length, bytes and equality with the "
            "expected bytes, then all variables again; non-trivial: 3 or more operations")
    quick = 100000
    thorough = 1200000

    def gen(self, s):
        return StrGen(s).program()

    def build(self, case):
        decls, ops = case
        it = model.Interp()
        env = model.base_env(it)
        parts, want = [], []
        first = [SHOW]
        cells = {}
        for n, e in decls:
            env = (n, [it.ev(e, env)], env)
            cells[n] = env[1]
            first.append(f"let {n} = {syntax.expr(e)}\n")
        parts.append("".join(first))
        want.append((0, ""))
        for n, new, e in ops:
            it.depth = 0
            if any(x not in cells for x in self.names(e)):
                continue            # of an operation that failed
            try:
                if e[0] == "setidx!":
                    it.setidx(it.ev(e[1], env), 0, "x")
                v = it.ev(e, env)
                st = 0
            except model.YErr as x:
                st = x.status
            if not st and type(v) is model.YList and len(v.items) > 200:
                raise Discard("a long list literal")
            if e[0] == "setidx!":
                src = syntax.source([["setidx", e[1], e[2], e[3]]])[0]
            else:
                src = syntax.expr(e)
            if st:
                parts.append(src + "\n" if e[0] == "setidx!" else f"echo {src}\n")
                want.append((st, ""))
            elif n is None:
                parts.append(f"show({src}, {syntax.expr(lit(v))});0;\n")
                want.append((0, shown(v)))
            else:
                if n not in cells:
                    cells[n] = [v]
                    env = (n, cells[n], env)
                    parts.append(f"let {n} = {src}\nshow({n}, {syntax.expr(lit(v))});0;\n")
                else:
                    cells[n][0] = v
                    parts.append(f"{n} = {src}\nshow({n}, {syntax.expr(lit(v))});0;\n")
                want.append((0, shown(v)))
            if want[-1][0] == 0:
                parts[-1] = parts[-1].replace(";0;\n", "\n")
                # what a REPL shows for the last expression: the value of show
                want[-1] = (0, want[-1][1] + "undef\n")
        allv = "".join(f"show({n}, {syntax.expr(lit(c[0]))})\n" for n, c in cells.items())
        parts.append(allv)
        want.append((0, "".join(shown(c[0]) for c in cells.values()) + "undef\n"))
        return parts, want

    def names(self, e):
        if isinstance(e, tuple) and e and e[0] == "var":
            return [e[1]] if e[1] != "c" else []
        r = []
        for x in e:
            if isinstance(x, (tuple, list)):
                r += self.names(x)
        return r

    def show(self, case):
        return "\n---\n".join(self.build(case)[0])

    def test(self, case, env):
        parts, want = self.build(case)
        r = env.run(client.REPL, *parts)
        labels = ["status%d" % st for st, _ in want]
        nt = len(case[1]) >= 3
        c = common.crashed(r)
        if c:
            return c, labels, nt
        outs = r.outs()
        for i, (st, text) in enumerate(want):
            got = common.latin(outs[i]) if i < len(outs) else "(not run)"
            if got != text:
                return f"output: {parts[i]!r}: expected {text!r}, got {got!r} ({r.statuses[i:i + 1]} {r.err[-200:]!r})", labels, nt
            if r.statuses[i] != st:
                return f"status: {parts[i]!r}: expected {st}, got {r.statuses[i]} ({r.err[-200:]!r})", labels, nt
        return None, labels, nt


check = C10()
