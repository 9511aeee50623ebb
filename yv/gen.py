"""Generators of values and expressions."""
import math, struct

B63 = 1 << 63
INT_EDGES = [0, 1, -1, 2, -2, 3, 7, 10, 63, 64, 65, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, (1 << 31) - 1, 1 << 31,
             -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1,
             B63 - 1, B63 - 2, -B63, -B63 + 1]
FLOAT_EDGES = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 10.0, 1.5, 0.1, -0.0, 3.25, 1e-7, 1e15, 1e16, -1e16, 9007199254740993.0,
               9.223372036854775e18, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, math.inf, -math.inf, math.nan]


def gint(s, edge=40):
    k = s.draw(100)
    if k < 45:
        return s.int(0, 9) if not s.chance(30) else -s.int(1, 9)
    if k < 45 + edge:
        return s.choice(INT_EDGES)
    if k < 95:
        v = s.int(0, 1 << s.int(1, 62))
        return -v if s.chance(30) else v
    return s.draw(1 << 64) - B63


def far(s, v):
    """An int that's v if it's made to fit into fewer bits."""
    b = s.choice([32, 32, 32, 31, 16, 8, 33, 48, 63])
    return max(-B63, min(B63 - 1, v + s.choice([1, 1, -1, 2, 255]) * (1 << b)))


def gfloat(s, special=True):
    k = s.draw(100)
    if k < 50:
        v = s.int(0, 400) / 8
        return -v if s.chance(30) else v
    if k < 80:
        v = s.choice(FLOAT_EDGES)
        if not special and (v != v or v in (math.inf, -math.inf)):
            return 2.5
        return v
    if k < 95:
        v = s.int(0, 1000000) / 1000
        return -v if s.chance(30) else v
    v = struct.unpack("<d", struct.pack("<Q", s.draw(1 << 64)))[0]
    return v if math.isfinite(v) else 4.75


ALPHA = "abcxyzABC019 _-.,"


def gstr(s, hi=6, wild=15):
    n = s.many(0, hi, 70)
    out = []
    for _ in range(n):
        if s.chance(wild):
            out.append(chr(s.draw(256)))
        else:
            out.append(s.choice(ALPHA))
    return "".join(out)


SHARED = {"true": True, "false": False, "undef": None}


def shared(s):
    """(an expression for a part of a str that isn't the script's own but the program's, its value)"""
    w = s.choice(list(SHARED))
    i = s.int(0, len(w) - 1)
    j = s.int(i + 1, len(w))
    return shared_of(s, w[i:j], [w]), w[i:j]


def shared_of(s, v, words=tuple(SHARED)):
    """Such an expression for v, or None."""
    at = [(w, i) for w in words for i in range(len(w)) if w.startswith(v, i) and v]
    if not at:
        return None
    w, i = s.choice(at)
    e = ("mcall", ("lit", SHARED[w]), "tostr", [])
    if i == 0 and v == w:
        return e
    j = ("lit", i + len(v)) if i + len(v) < len(w) or s.chance(30) else None
    return ("slice", e, ("lit", i) if i or s.chance(30) else None, j)


def gstr_lit(s, hi=6, wild=15):
    """An expression for some str."""
    if s.chance(6):
        return shared(s)[0]
    return ("lit", gstr(s, hi, wild))


def scalar(s, typ):
    if typ == "int":
        return gint(s)
    if typ == "float":
        return gfloat(s)
    if typ == "bool":
        return s.chance(50)
    if typ == "str":
        return gstr(s)
    return None


TYPES = ["int", "float", "bool", "str", "undef"]


class ExprGen:
    """Expressions over scalars, of a wanted type (usually)."""

    def __init__(self, s, scope, leaf_lit=50, wrong=2, pure=True):
        self.s, self.scope, self.leaf_lit, self.wrong = s, scope, leaf_lit, wrong
        # scope: {type: [names]}

    def leaf(self, typ):
        names = self.scope.get(typ, [])
        if names and not self.s.chance(self.leaf_lit):
            return ("var", self.s.choice(names))
        if typ == "float" and self.s.chance(12):
            # NaN and the infinities as operators make them (and constant folding sees them)
            return ("bin", "/", ("lit", self.s.choice([0.0, 0.0, 0, 1.0, -1.0, 1])), ("lit", self.s.choice([0.0, 0.0, 0, -0.0])))
        if typ == "str":
            return gstr_lit(self.s)
        return ("lit", scalar(self.s, typ))

    def gen(self, typ, d):
        s = self.s
        if s.chance(self.wrong):
            typ = s.choice(TYPES)
        if typ == "any":
            typ = s.weighted([(4, "int"), (3, "float"), (3, "bool"), (3, "str"), (1, "undef")])
        if typ == "num":
            typ = s.choice(["int", "float"])
        if d <= 0 or s.chance(15):
            return self.leaf(typ)
        k = s.draw(100)
        if k >= 92:
            return ("tern", self.gen("any", d - 1), self.gen(typ, d - 1), self.gen(typ, d - 1))
        if k >= 84:
            op = s.choice(["&&", "||", "??"])
            if op == "??":
                return ("bin", op, self.gen(s.choice(["undef", typ]), d - 1), self.gen(typ, d - 1))
            return ("bin", op, self.gen(s.choice([typ, "any"]), d - 1), self.gen(typ, d - 1))
        return getattr(self, "g_" + typ)(d - 1)

    def g_int(self, d):
        s = self.s
        k = s.draw(100)
        if k < 12:
            return ("un", s.choice(["-", "+", "^"]), self.gen("int", d))
        if k < 16:
            return ("un", "len", self.gen("str", d))
        if k < 24:
            return ("bin", "**", self.gen("int", d) if s.chance(30) else ("lit", s.int(-9, 9)), ("lit", s.int(0, 9) if s.chance(60) else s.int(0, 66)))
        if k < 40:
            b = self.gen("int", d)
            if b == ("lit", 0):
                b = ("lit", 3)
            return ("bin", s.choice(["//", "%"]), self.gen("int", d), b)
        op = s.choice(["+", "-", "*", "<<", ">>", "&", "|", "^", "&^"])
        if op in ("<<", ">>") and not s.chance(30):
            return ("bin", op, self.gen("int", d), ("lit", s.int(0, 70)))
        return ("bin", op, self.gen("int", d), self.gen("int", d))

    def g_float(self, d):
        s = self.s
        k = s.draw(100)
        if k < 10:
            return ("un", s.choice(["-", "+"]), self.gen("float", d))
        if k < 35:
            return ("bin", "/", self.gen("num", d), self.gen("num", d))
        if k < 42:
            return ("bin", "**", self.gen("float", d), self.gen("num", d))
        if k < 46:
            return ("bin", "**", self.gen("int", d), ("lit", -s.int(1, 5)))
        op = s.choice(["+", "-", "*"])
        a, b = ("float", "num") if s.chance(50) else ("num", "float")
        return ("bin", op, self.gen(a, d), self.gen(b, d))

    def g_bool(self, d):
        s = self.s
        k = s.draw(100)
        if k < 20:
            return ("un", "!", self.gen("any", d))
        if k < 70:
            t = s.choice(["num", "num", "str"])
            op = s.choice(["<", ">", "<=", ">=", "==", "!="])
            a = self.gen(t, d)
            if s.chance(15):
                return ("bin", op, a, a)
            return ("bin", op, a, self.gen(t, d))
        if k < 90:
            return ("bin", s.choice(["==", "!="]), self.gen("any", d), self.gen("any", d))
        t = s.choice(["int", "bool", "undef", "float"])
        return ("bin", s.choice(["===", "!=="]), self.gen(t, d), self.gen(s.choice([t, "int"]), d))

    def g_str(self, d):
        s = self.s
        return ("bin", "~", self.gen("any" if s.chance(40) else "str", d), self.gen("any" if s.chance(40) else "str", d))

    def g_undef(self, d):
        return ("lit", None)


def _inthash(k, a, m):
    k &= (1 << 64) - 1
    parts = [(k >> (16 * i)) & 0xFFFF for i in range(4)]
    M = (1 << 64) - 1
    h = (a * parts[0] ** 4) ^ (a * a * parts[1] ** 3) ^ (a ** 3 * parts[2] ** 2) ^ (a ** 4 * parts[3])
    return (h & M) % m


def _strhash(s, a, m):
    h = 0
    for c in s:
        h = ((h * a) ^ ord(c)) % m
    return h


def _clusters():
    """Keys that fall together in the smallest hash tables (by today's hash function: only a heuristic)."""
    out = []
    for m in (31, 61, 127):
        by = {}
        for k in range(-40, 2500):
            by.setdefault((_inthash(k, 37, m), _inthash(k, 67, m) if k % 2 else -1), []).append(k)
        for i in range(26):
            for j in range(26):
                w = chr(97 + i) + chr(97 + j)
                by.setdefault((_strhash(w, 37, m), -1), []).append(w)
        out += [v[:24] for _, v in sorted(by.items()) if len(v) >= 8]
    return out


CLUSTERS = _clusters()
