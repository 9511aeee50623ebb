"""C26: the size of a program doesn't change its meaning."""
from ..engine import Check, Discard
from ..model import ftext
from ..syntax import floatlit, strlit
from .. import client, common, model, progen, syntax

EDGES = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 131, 191, 200, 254, 255, 256, 257, 258, 300, 382, 383, 384, 385, 511, 512, 513]
BIG = [600, 700, 767, 768, 769, 990, 999, 1000, 1001, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1100, 2047, 2048, 4096, 5000, 9000, 10000, 12000]
HUGE = [16383, 16384, 16385, 20000, 32767, 32768, 65535, 65536, 65537, 100000]
LIMIT = {4, 8, 11}


def size(s, big=25, huge=0, lo=0):
    k = s.draw(100)
    if k < huge:
        n = s.choice(HUGE)
    elif k < huge + big:
        n = s.choice(BIG) if s.chance(80) else s.int(514, 3000)
    else:
        n = s.choice(EDGES) if s.chance(80) else s.int(0, 520)
    return max(lo, n)


def pick(s, n, k=3):
    """Some indices below n: the ends, the edges of encodings, and others."""
    c = [0, n - 1, n // 2, 127, 128, 129, 255, 256, s.draw(max(1, n)), s.draw(max(1, n))]
    c = [i for i in c if 0 <= i < n]
    return [s.choice(c) for _ in range(k)] if c else []


class Const:
    """Distinct constants of all kinds."""

    def __init__(self, s):
        self.s = s
        self.kind = s.draw(6)
        self.base = s.choice([0, -130, 100, 1000, -70000, 1 << 31, 1 << 40, -(1 << 62)])

    def int(self, i):
        k = self.kind
        if k == 0:
            return i
        if k == 1:
            return -i
        if k == 2:
            return self.base + i
        if k == 3:
            return (i * 2654435761) % (1 << 40) - (1 << 39)
        if k == 4:
            return i % 300 - 150
        return self.base - 3 * i

    def lit(self, i):
        v = self.int(i)
        return "%d" % v if v >= 0 else "(%d)" % v

    def mixed(self, i):
        """-> (literal, text)"""
        m = i % 4 if self.kind < 4 else 1
        if m == 0:
            return self.lit(i), str(self.int(i))
        if m == 1:
            v = "s%d" % self.int(i) * (1 + i % 3)
            return strlit(v), v
        if m == 2:
            v = self.int(i) % (1 << 30) + 0.5
            return floatlit(v), ftext(v)
        v = "abcdefgh"[:i % 8] + str(i)
        return strlit(v), v


# Each template: (s, p: prefix for names, ov: variables there are already) -> source, [line], whether it's within the limits
def t_locals(s, p, ov):
    n = min(size(s, 5, lo=1), 1100)
    c = Const(s)
    how = s.draw(4)
    src = "fn %sf() {\n" % p
    ws = 0
    if how == 0:
        src += "".join(" let %sv%d = %s\n" % (p, i, c.lit(i)) for i in range(n))
    elif how == 1:
        k = s.choice([1, 2, 7, 50])
        for i in range(0, n, k):
            m = range(i, min(n, i + k))
            src += " " + ", ".join("%s %sv%d" % (s.choice(["let", "let", "const"]) if k > 1 else "let", p, j) for j in m) + " = " + ", ".join(c.lit(j) for j in m) + "\n"
    elif how == 2:
        src += "".join(" const %sv%d = %s\n" % (p, i, c.lit(i)) for i in range(n))
    else:
        # in nested scopes
        k = s.choice([1, 3, 10, 60])
        for i in range(n):
            if i % k == k - 1 and ws < 100:
                src += " if true {\n"
                ws += 1
            src += " let %sv%d = %s\n" % (p, i, c.lit(i))
    vals = [c.int(i) for i in range(n)]
    out = []
    if how in (0, 3):
        for i in pick(s, n, 2):
            src += " %sv%d = %s\n" % (p, i, c.lit(i + 5))
            vals[i] = c.int(i + 5)
    for i in pick(s, n, 4):
        src += " echo %sv%d\n" % (p, i)
        out.append(str(vals[i]))
    extra = s.draw(6)
    need = n
    if extra == 0:
        src += " for %sx <- [1, 2] {\n  echo %sx + %sv%d\n }\n" % (p, p, p, n - 1)
        out += [str(model.wrap(vals[n - 1] + 1)), str(model.wrap(vals[n - 1] + 2))]
        need += 1
    elif extra == 1:
        src += " match 5 {\n  let %sx {\n   echo %sx ~ %sv0\n  }\n }\n" % (p, p, p)
        out.append("5%d" % vals[0])
        need += 1
    elif extra == 2:
        src += " echo (fn(a) {\n  return a + 1\n })(%sv%d)\n" % (p, n - 1)
        out.append(str(model.wrap(vals[n - 1] + 1)))
    elif extra == 3:
        src += " match [7, 8] {\n  [let %sx, let %sy] if %sx == 7 {\n   echo %sy\n  }\n  * {\n   echo 'no'\n  }\n }\n" % (p, p, p, p)
        out.append("8")
        need += 2
    src += " }\n" * ws
    if s.chance(70):
        i = s.draw(n)
        if ws:
            i = min(i, max(0, (s.choice([1]) - 1)))
            i = None
        src += " return %s\n" % ("%sv%d" % (p, i) if i is not None else "9")
        ret = str(vals[i]) if i is not None else "9"
    else:
        ret = "undef"
    src += "}\necho %sf()\n" % p
    return src, out + [ret], need <= 255


def t_scope(s, p, ov):
    """The same in a block of what's around."""
    n = size(s, 3, lo=1)
    c = Const(s)
    src = "if true {\n" + "".join(" let %sv%d = %s\n" % (p, i, c.lit(i)) for i in range(n))
    out = []
    for i in pick(s, n, 4):
        src += " echo %sv%d\n" % (p, i)
        out.append(str(c.int(i)))
    return src + "}\n", out, n + ov <= 255


def t_params(s, p, ov):
    n = size(s, 3, lo=1)
    m = max(0, n + s.choice([0, 0, 0, -1, 1, -5, 5]))
    c = Const(s)
    ix = pick(s, n, 4)
    src = "fn %sf(%s) {\n" % (p, ", ".join("%sp%d" % (p, i) for i in range(n)))
    src += "".join(" echo %sp%d\n" % (p, i) for i in ix)
    src += " return %sp%d\n}\necho %sf(%s)\n" % (p, n - 1, p, ", ".join(c.lit(i) for i in range(m)))
    val = lambda i: str(c.int(i)) if i < m else "undef"
    return src, [val(i) for i in ix] + [val(n - 1)], n <= 255


def t_targets(s, p, ov):
    n = size(s, 3, lo=2)
    m = max(1, n + s.choice([0, 0, -1, 1, -3, 20]))
    c = Const(s)
    pre = s.draw(3)
    ix = pick(s, n, 4)
    call = s.chance(60)
    vals = ", ".join(c.lit(i) for i in range(m if call else min(m, n)))
    src = "fn %sg() {\n return %s\n}\n" % (p, vals) if call else ""
    src += "fn %sf() {\n let %sq = 77\n" % (p, p)
    rhs = ", ".join(["%d" % (900 + i) for i in range(pre)] + ["%sg()" % p]) if call else vals
    val = lambda i: i < pre and 900 + i or (c.int(i - pre) if i - pre < m else None) if call else (c.int(i) if i < m else None)
    kind = s.draw(3)
    if call and pre >= n:
        pre = 0
        rhs = "%sg()" % p
    if kind == 0:
        src += " " + ", ".join("let %sv%d" % (p, i) for i in range(n)) + " = " + rhs + "\n"
        lim = n + 1 <= 255
    elif kind == 1:
        src += " let %st = []\n for let %si = 0; %si < %d; %si += 1 {\n  %st->push(0)\n }\n" % (p, p, p, n, p, p)
        src += " " + ", ".join("%st[%d]" % (p, i) for i in range(n)) + " = " + rhs + "\n"
        lim = n <= 400
    else:
        src += " let %sz = 0; let %sy = 0\n " % (p, p) + ", ".join("%s%s" % (p, "y" if i in ix else "z") for i in range(n)) + " = " + rhs + "\n"
        lim = n <= 700
    if call:
        lim = lim and n - pre < 255 and m <= 700
    tx = lambda v: "undef" if v is None else str(v)
    out = []
    if kind == 2:
        # assigned from the first to the last
        src += " echo %sy\n" % p
        out = [tx(val(max(ix)))]
    else:
        for i in ix:
            src += " echo " + ("%sv%d" % (p, i) if kind == 0 else "%st[%d]" % (p, i)) + "\n"
            out.append(tx(val(i)))
    src += " echo %sq\n}\n%sf()\n" % (p, p)
    return src, out + ["77"], lim


def t_upvals(s, p, ov):
    n = size(s, 2, lo=1)
    c = Const(s)
    deep = s.chance(40)
    k = n if s.chance(60) else min(n, s.choice([1, 2, 100, 127, 128, 129]))
    used = list(range(n))[:k] if s.chance(50) else list(range(n))[n - k:]
    src = "fn %sf() {\n" % p + "".join(" let %sv%d = %s\n" % (p, i, c.lit(i)) for i in range(n))
    total = 0
    ix = [i for i in pick(s, n, 6) if i in used] or used[:1]
    body = " return [%s]\n" % ", ".join("%sv%d" % (p, i) for i in used)
    if s.chance(50):
        body = " %sv%d += 1\n" % (p, ix[0]) + body
        plus = ix[0]
    else:
        plus = None
    src += " return fn() {\n" + (" return fn() {\n" + body + " }\n" if deep else body) + " }\n}\n"
    src += "const %sr = %sf()()%s\necho len %sr\n" % (p, p, "()" if deep else "", p)
    out = [str(k)]
    for i in ix:
        src += "echo %sr[%d]\n" % (p, used.index(i))
        out.append(str(c.int(i) + (i == plus)))
    return src, out, n <= 255 and k <= 128 and max(used) <= 127 and min(used) <= 127


def t_upvals2(s, p, ov):
    """A function that uses variables of the functions around it, which are variables of several functions."""
    c = Const(s)
    around = s.choice([1, 2, 2, 3])
    ns = [s.choice([1, 2, 60, 63, 64, 65, 90, 100, 127, 128, 129]) for _ in range(around)]
    k = sum(ns)
    names = [(j, i) for j in range(around) for i in range(ns[j])]
    at = s.shuffle(names) if s.chance(50) else names
    src, val = "", {}
    for j in range(around):
        src += "%s fn%s {\n" % ("return" if j else "const %sf =" % p, "()")
        for i in range(ns[j]):
            val[j, i] = c.int(len(val))
            src += " let %sv%d_%d = %s\n" % (p, j, i, c.lit(len(val) - 1))
    deep = s.chance(40)
    body = " return [%s]\n" % ", ".join("%sv%d_%d" % (p, j, i) for j, i in at)
    plus = at[s.draw(k)] if s.chance(60) else None
    if plus:
        body = " %sv%d_%d += 1\n" % ((p,) + plus) + body
    src += " return fn() {\n" + ("  return fn() {\n" + body + "  }\n" if deep else body) + " }\n" + "}\n" * around
    src += "const %sr = %sf%s\necho len %sr\n" % (p, p, "()" * (around + 1 + deep), p)
    out = [str(k)]
    for x in {0, k - 1, k // 2, min(k - 1, 127), min(k - 1, 128), s.draw(k)} | ({at.index(plus)} if plus else set()):
        src += "echo %sr[%d]\n" % (p, x)
        out.append(str(val[at[x]] + (at[x] == plus)))
    return src, out, k <= 128 and max(ns) <= 128


def t_elements(s, p, ov):
    n = size(s, 15)
    c = Const(s)
    kind = s.draw(4)
    ix = pick(s, n, 4)
    if kind == 0:
        src = "let %sa = [%s]\n" % (p, ", ".join(c.mixed(i)[0] for i in range(n)))
        lim = n <= 700
        get = lambda i: "%sa[%d]" % (p, i)
        out = [c.mixed(i)[1] for i in ix]
    elif kind == 1:
        src = "let %sa = {%s}\n" % (p, ", ".join("%s: %s" % (strlit("k%d" % i), c.mixed(i)[0]) for i in range(n)))
        lim = n <= 350
        get = lambda i: ("%sa.k%d" if i % 2 else "%sa['k%d']") % (p, i)
        out = [c.mixed(i)[1] for i in ix]
    elif kind == 2:
        src = "let %sa = collections.list(%s)\n" % (p, ", ".join(c.mixed(i)[0] for i in range(n)))
        lim = n <= 700
        get = lambda i: "%sa[%d]" % (p, i)
        out = [c.mixed(i)[1] for i in ix]
    else:
        src = "fn %sg() {\n return %s\n}\nlet %sa = collections.list(%sg())\n" % (p, ", ".join(c.mixed(i)[0] for i in range(max(1, n))), p, p)
        n = max(1, n)
        lim = n <= 450
        get = lambda i: "%sa[%d]" % (p, i)
        out = [c.mixed(i)[1] for i in ix]
    return src + "echo len %sa\n" % p + "".join("echo %s\n" % get(i) for i in ix), [str(n)] + out, lim


def t_consts(s, p, ov):
    n = min(size(s, 20), 5000)
    c = Const(s)
    if s.chance(60):
        src = "let %sx = 0\n" % p + "".join("%sx += %s\n" % (p, c.lit(i)) for i in range(n)) + "echo %sx\n" % p
        return src, [str(model.wrap(sum(c.int(i) for i in range(n))))], n < 40000
    n = min(n, 3000)
    src = "let %sx = ''\n" % p + "".join("%sx ~= %s\n" % (p, c.mixed(i)[0]) for i in range(n)) + "echo %sx\n" % p
    return src, ["".join(c.mixed(i)[1] for i in range(n))], True


def t_depth(s, p, ov):
    n = size(s, 30)
    k = s.draw(24)
    E = lambda e, v, lim: ("echo %s\n" % e, [v], lim)
    if k == 0:
        return E("(" * n + "1" + ")" * n, "1", n <= 900)
    if k == 1:
        return E("1 + (" * n + "1" + ")" * n, str(n + 1), n <= 700)
    if k == 2:
        return E("1" + " + 1" * n, str(n + 1), n <= 9000)
    if k == 3:
        c = "".join("abcxyz"[i % 6] for i in range(n + 1))
        return E(" ~ ".join("'%s'" % x for x in c), c, n <= 700)
    if k == 4:
        return E("-" * n + "1" if n % 2 == 0 else "-" * n + "1", "1" if n % 2 == 0 else "-1", n <= 900)
    if k == 5:
        return "if true {\n" * n + "echo %d\n" % n + "}\n" * n, [str(n)], n <= 900
    if k == 6:
        return "(fn() {\n" * n + "echo %d\n" % n + "})()\n" * n, [str(n)], n <= 200
    if k == 7:
        n = max(1, n)
        return E("len " + "[" * n + "]" * n + "[0]" * max(0, n - 1), "0", n <= 450)
    if k == 8:
        n = max(1, n)
        return E("[" * n + "]" * n, "[" * n + "]" * n, n <= 400)
    if k == 9:
        return "fn %sf(x) {\n return x + 1\n}\necho %s0%s\n" % (p, ("%sf(" % p) * n, ")" * n), [str(n)], n <= 450
    if k == 10:
        return E("false ? 1 : " * n + "2", "2", n <= 9000)
    if k == 11:
        return E("undef ?? " * n + "2", "2", n <= 9000)
    if k == 12:
        return E("true && " * n + "5", "5", n <= 9000)
    if k == 13:
        return "while true {\n" * n + "echo %d\n" % n + "break\n}\n" * n, [str(n)], n <= 900
    if k == 14:
        src = "".join("for %sx%d <- [%d] {\n" % (p, i, i) for i in range(n)) + "echo %d\n" % n + ("echo %sx%d\n" % (p, n - 1) if n else "") + "}\n" * n
        return src, [str(n)] + [str(n - 1)] * (n > 0), n + ov <= 240
    if k == 15:
        return E("'a'" + "->toupper()" * n, "A" if n else "a", n <= 9000)
    if k == 16:
        return "let %sa = []\n%sa->push(%sa)\necho len %sa%s\n" % (p, p, p, p, "[0]" * n), ["1"], n <= 9000
    if k == 17:
        return "let %sa = {.y: 3}\n%sa.x = %sa\necho %sa%s.y\n" % (p, p, p, p, ".x" * n), ["3"], n <= 9000
    if k == 18:
        return "match 1 {\n" + "[" * n + "*" + "]" * n + " {\necho 'a'\n}\n* {\necho 'b'\n}\n}\n", ["b" if n else "a"], n <= 900
    if k == 19:
        return "let %sa = 0\nfor let %si = 0; %si < %d; %si += 1 {\n%sa = [%sa]\n}\necho %sa->tostr()\n" % (p, p, p, n, p, p, p, p), ["[" * n + "0" + "]" * n], 0 < n <= 250
    if k == 20:
        return E("(fn(x) {\n return x + " * n + "2" + "\n})(1)" * n, str(n + 2), n <= 200)
    if k == 21:
        return E("{1: " * n + "6" + "}" * n + "[1]" * n, "6", n <= 300)
    if k == 22:
        return "let %sa = 1\necho len \"%s\"\n" % (p, "#{%sa}" % p * n), [str(n)], n <= 5000
    return E("1 ?? 2" + " ?? 3" * n + " ?? (1 // 0)", "1", n <= 5000)


def t_arms(s, p, ov):
    n = size(s, 25, lo=1)
    c = Const(s)
    c.kind = s.choice([0, 1, 2, 5])
    if c.kind == 2 and c.base == -(1 << 62):
        c.base = 5
    j = s.choice(pick(s, n, 1) + [n])
    if s.chance(50):
        c.kind = 0
    k = s.draw(5)
    if k == 0:
        n = min(n, 9000)
        src = "let %sx = %s\nif %sx == %s {\n echo 'c0'\n}" % (p, c.lit(j), p, c.lit(0))
        src += "".join(" elseif %sx == %s {\n echo 'c%d'\n}" % (p, c.lit(i), i) for i in range(1, n)) + " else {\n echo 'none'\n}\n"
        lim = n <= 5000
    elif k == 1:
        src = "match %s {\n" % c.lit(j) + "".join(" %d {\n  echo 'c%d'\n }\n" % (c.int(i), i) for i in range(n)) + " * {\n  echo 'none'\n }\n}\n"
        lim = n <= 5000
    elif k == 2:
        src = "match %s {\n" % strlit("s%d" % j) + "".join(" %s {\n  echo 'c%d'\n }\n" % (strlit("s%d" % i), i) for i in range(n)) + " * {\n  echo 'none'\n }\n}\n"
        lim = n <= 5000
    elif k == 3:
        src = "match %s {\n " % c.lit(j) + " | ".join("%d" % c.int(i) for i in range(n)) + " {\n  echo 'c%d'\n }\n * {\n  echo 'none'\n }\n}\n" % j
        lim = n <= 4000
    else:
        src = "match %s {\n" % c.lit(j) + "".join(" let %sx if %sx == %s {\n  echo 'c' ~ (%sx == %s ? %d : 0)\n }\n" % (p, p, c.lit(i), p, c.lit(i), i) for i in range(n if n < 2 else 1)) + " * {\n  echo 'none'\n }\n}\n"
        n = min(n, 1)
        lim = n < 1 or j < n
        if not lim:
            # a guard with bindings that fails is a known finding of C06
            return t_arms(s, p, ov)
    return src, ["c%d" % j if j < n else "none"], lim


def t_jumps(s, p, ov):
    """Loops, conditions and functions around many statements."""
    n = min(size(s, 20), 4100)
    fill = s.choice(["%sx += 1\n" % p, "%sx = %sx + 1; " % (p, p), "%sx += 1 ?? 2\n" % p, "%sx += true ? 1 : 0\n" % p, "if true {\n%sx += 1\n}\n" % p])
    body = fill * n
    if body and not body.endswith("\n"):
        body += "\n"
    k = s.draw(8)
    src = "let %sx = 0\n" % p
    lim = n <= 12000
    if k == 0:
        src += "for let %si = 0; %si < 3; %si += 1 {\n%s}\n" % (p, p, p, body)
        v = 3 * n
    elif k == 1:
        src += "let %si = 0\nwhile %si < 3 {\n%si += 1\n if %si == 2 {\n continue\n}\n%s}\n" % (p, p, p, p, body)
        v = 2 * n
    elif k == 2:
        src += "for %si <- [1, 2, 3] {\n%s if %si == 2 {\n break\n}\n}\n" % (p, body, p)
        v = 2 * n
    elif k == 3:
        src += "if false {\n%s} else {\n%s}\n" % (body, "%sx = 5\n" % p)
        v = 5
    elif k == 4:
        src += "if %sx == 0 {\n%s} else {\n%s}\n" % (p, body, body)
        v = n
    elif k == 5:
        src += "while true {\n%s break\n%s}\n" % (body, body)
        v = n
    elif k == 6:
        src += "let %sf = fn() {\n%s return 3\n%s}\n%sx = %sf() + %sx\n" % (p, body, body, p, p, p)
        v = n + 3
    else:
        src += "for %si <- {1: 1, 2: 2} {\n if %sx > 0 {\n continue\n}\n%s%sx += 1\n}\n" % (p, p, body, p)
        v = n + 1
    return src + "echo %sx\n" % p, [str(v)], lim


def t_texts(s, p, ov):
    n = size(s, 30, 30, lo=1)
    k = s.draw(6)
    if k == 0:
        a = "a" * n
        return "let %s%s = 1\n%s%s += 1\necho %s%s\n" % (p, a, p, a, p, a), ["2"], True
    if k == 1:
        v = "".join("abcdefghij"[i % 10] for i in range(n))
        i = s.draw(n)
        return "let %ss = %s\necho len %ss\necho %ss[%d]\necho %ss[%d:]\n" % (p, strlit(v), p, p, i, p, max(0, n - 5)), [str(n), v[i], v[-5:]], True
    if k == 2:
        f = "f" * n
        return "let %st = {.%s: 1}\n%st.%s += 4\necho %st['%s']\n" % (p, f, p, f, p, f), ["5"], True
    if k == 3:
        f = "m" * n
        return "let %st = {}\nfn %st.%s(x) {\n return x * 2\n}\necho %st.%s(21)\n" % (p, p, f, p, f), ["42"], True
    if k == 4:
        return "echo %s7\n" % ("0" * n if n < 300 else ""), ["7"], n < 300 and False
    return "#" + "c" * n + "\n/*" + "d" * n + "*/\necho 1 /* x */ + 1\n", ["2"], True


def t_calls(s, p, ov):
    n = size(s, 20)
    k = s.draw(6)
    if k == 0:
        return "fn %sr(n) {\n if n <= 0 {\n  return 0\n }\n return %sr(n - 1)\n}\necho %sr(%d)\n" % (p, p, p, n), ["0"], n <= 300
    if k == 1:
        return "fn %sr(n) {\n if n <= 0 {\n  return 0\n }\n return 1 + %sr(n - 1)\n}\necho %sr(%d)\n" % (p, p, p, n), [str(n)], n <= 200
    if k == 2:
        return "fn %sr(n, a, b) {\n let c = a + b\n if n <= 0 {\n  return c\n }\n return %sr(n - 1, b, 1)\n}\necho %sr(%d, 3, 4)\n" % (p, p, p, n), [str(7 if n == 0 else 5 if n == 1 else 2)], n <= 140
    if k == 3:
        src = "fn %sr(n) {\n for x <- [n] {\n  if x <= 0 {\n   return 0\n  }\n  return %sr(x - 1)\n }\n}\necho %sr(%d)\n" % (p, p, p, n)
        return src, ["0"], n <= 180
    if k == 4:
        src = "let %sT = {}\nfn %sT.__add(a, b) {\n return b <= 0 ? 0 : a + (b - 1)\n}\nlet %so = mt.set({}, %sT)\necho %so + %d\n" % (p, p, p, p, p, n)
        return src, ["0"], n <= 100
    n = min(n, 3000)
    return "fn %sf() {\n return 1\n}\nlet %sx = 0\n" % (p, p) + "%sx += %sf()\n" % (p, p) * n + "echo %sx\n" % p, [str(n)], True


def t_data(s, p, ov):
    """Collections that grow as the program runs."""
    n = size(s, 30, 10)
    loop = "for let %si = 0; %si < %d; %si += 1 {\n" % (p, p, n, p)
    k = s.draw(7)
    if k == 0:
        return "let %sa = []\n%s %sa->push(%si)\n}\necho len %sa\nlet %st = 0\nfor x <- %sa {\n %st += x\n}\necho %st\n" % (p, loop, p, p, p, p, p, p, p), [str(n), str(n * (n - 1) // 2)], True
    if k == 1:
        return "let %sa = {}\n%s %sa[%si * 7] = %si\n}\necho len %sa\nlet %st = 0\nfor x <- %sa {\n %st += %sa[x]\n}\necho %st\n" % (p, loop, p, p, p, p, p, p, p, p, p), \
            [str(n), str(n * (n - 1) // 2)], True
    if k == 2:
        n = min(n, 5000)
        loop = loop.replace("< %d;" % n, "< %d;" % n)
        return "let %sa = ''\nfor let %si = 0; %si < %d; %si += 1 {\n %sa ~= 'xy'\n}\necho len %sa\n" % (p, p, p, n, p, p, p), [str(2 * n)], True
    if k == 3:
        return "echo len 'abc'->rep(%d)\n" % n, [str(3 * n)], True
    if k == 4:
        return "let %sa = collections.set()\n%s %sa->add(%si %% 1000)\n}\necho len %sa\n" % (p, loop, p, p, p), [str(min(n, 1000))], True
    if k == 5:
        n = min(n, 9000)
        return "let %sa = 'a,'->rep(%d)->split(',')\necho len %sa\necho len %sa->join('')\n" % (p, n, p, p), [str(n + 1), str(n)], True
    return ("let @a = []\n" + loop + " @a->push((@i * 7919) % 10007)\n}\n@a->sort()\nlet @ok = true\nfor let @j = 1; @j < len @a; @j += 1 {\n @ok = @ok && @a[@j - 1] <= @a[@j]\n}\necho @ok\n").replace("@", p), \
        ["true"], n <= 40000


def t_fns(s, p, ov):
    """Many functions."""
    n = size(s, 10, lo=1)
    c = Const(s)
    if s.chance(50):
        src = "let %sfs = []\n" % p + "".join("%sfs->push(fn(x) {\n return x ~ %s\n})\n" % (p, c.mixed(i)[0]) for i in range(n))
        ix = pick(s, n, 3)
        return src + "".join("echo %sfs[%d]('a')\n" % (p, i) for i in ix), ["a" + c.mixed(i)[1] for i in ix], True
    src = "let %st = {}\n" % p + "".join("fn %st.f%d() {\n return %s\n}\n" % (p, i, c.mixed(i)[0]) for i in range(n))
    ix = pick(s, n, 3)
    return src + "".join("echo %st.f%d()\n" % (p, i) for i in ix), [c.mixed(i)[1] for i in ix], True


def t_patterns(s, p, ov):
    n = size(s, 8)
    c = Const(s)
    wrong = s.chance(30) and n > 0
    j = s.draw(max(1, n))
    if s.chance(50):
        vals = [c.mixed(i)[0] for i in range(n)]
        pat = [v.strip("()") for v in vals]
        if wrong:
            vals[j] = "'different'"
        lim = n <= 700
        bind = s.chance(40) and not wrong and n
        if bind:
            pat = ["let %sb%d" % (p, i) if i < 250 else x for i, x in enumerate(pat)]
            lim = n <= 245 - ov
        src = "match [%s] {\n [%s] {\n  echo 'yes'\n%s }\n * {\n  echo 'no'\n }\n}\n" % (", ".join(vals), ", ".join(pat), "  echo %sb%d\n" % (p, min(j, 249)) if bind else "")
        return src, ["no" if wrong else "yes"] + ([c.mixed(min(j, 249))[1]] if bind else []), lim
    vals = [c.mixed(i)[0] for i in range(n)]
    pat = [v.strip("()") for v in vals]
    if wrong:
        vals[j] = "'different'"
    src = "match {%s} {\n {%s} {\n  echo 'yes'\n }\n * {\n  echo 'no'\n }\n}\n" % (", ".join(".f%d: %s" % (i, v) for i, v in enumerate(vals)), ", ".join(".f%d: %s" % (i, v) for i, v in enumerate(pat)))
    return src, ["no" if wrong else "yes"], n <= 350


def t_edge(s, p, ov):
    """Something at the end of the stack: either works or is an overflow."""
    n = s.int(880, 1030) if s.chance(80) else s.int(0, 1100)
    ops = [("len [1, 2, 3]", "3"), ("'a' ~ 'b' ~ 'c'", "abc"), ("collections.list(1, 2, 3)[2]", "3"), ("[x for x <- [1, 2, 3]][1]", None), ("'a,b'->split(',')[1]", "b"),
           ("(fn(a, b, c) {\n let d = a + b\n return d + c\n})(1, 2, 3)", "6"), ("{1: 2, 3: 4}[3]", "4"), ("\"x#{1}y#{2}\"", "x1y2"), ("1 < 2 && 3 < 4", "true"), ("'abc'[1:2]", "b"),
           ("(fn() {\n match [1, 2] {\n [let a, let b] {\n return a + b\n}\n}\n})()", "3"), ("(fn() {\n for x <- [4] {\n return x\n}\n})()", "4"),
           ("(fn() {\n let a, let b, let c = (fn() {\n return 1\n})()\n return b\n})()", "undef"), ("[3, 1, 2]->tostr()", "[3, 1, 2]"), ("{}->tostr()", "{}"),
           ("'%'->rep(3)", "%%%"), ("(fn(a, b, c, d, e, f, g, h) {\n return h\n})()", "undef"), ("len [[1], [2, [3]]]->tostr()", "15"), ("[2, 1]->sort() ?? 5", "5"),
           ("[[2], [1]] == [[2], [1]]", None), ("mt.set({.a: 1}, {'__add': fn(a, b) {\n return 8\n}}) + 1", "8"), ("mt.set({.a: 1}, {'__get': fn(a, b) {\n return b ~ '!'\n}}).q", "q!"),
           ("mt.set({}, {'tostr': fn(a) {\n return 'T'\n}}) ~ 'x'", None), ("(fn() {\n let u = 3\n return fn() {\n u += 1\n return u\n}\n})()()", "4"), ("math.max(1, 3, 2)", "3"),
           ("(fn() {\n return 1, 2, 3, 4\n})()", "1")]
    e, v = s.choice([o for o in ops if o[1] is not None])
    depth = s.draw(3)
    if depth == 0:
        # values wait for it on the stack
        src = "collections.list(%s%s)\n" % ("1, " * n, "(fn() {\n echo %s\n})()" % e)
        return src, [v], n <= 700
    if depth == 1:
        k = s.choice([1, 3, 10, 37])
        d = n // (k + 4)
        src = "fn %sr(n%s) {\n if n <= 0 {\n  echo %s\n  return 0\n }\n return %sr(n - 1)\n}\n%sr(%d)\n" % (p, "".join(", p%d" % i for i in range(k)), e, p, p, d)
        return src, [v], n <= 500
    src = "fn %sr(n) {\n if n <= 0 {\n  echo %s\n  return 0\n }\n return 1 + %sr(n - 1)\n}\n%sr(%d)\n" % (p, e, p, p, n // 4)
    return src, [v], n <= 700


def t_line(s, p, ov):
    """An error after many lines."""
    n = size(s, 25, 8)
    pad = s.choice(["\n", "#\n", "/*\n*/", "\n\n\n", "echo 1 # x\n" if n < 2000 else "\n"])
    return pad * n, ["1"] * (n if pad.startswith("echo") else 0), True


TEMPLATES = [(10, t_locals), (4, t_scope), (6, t_params), (8, t_targets), (6, t_upvals), (3, t_upvals2), (8, t_elements), (8, t_consts), (16, t_depth), (8, t_arms), (10, t_jumps), (5, t_texts), (8, t_calls), (5, t_data),
             (4, t_fns), (6, t_patterns), (9, t_edge), (3, t_line)]


def pads(s, stmts, n):
    """Statements without effect at n places of the program."""
    places = []
    stack = [stmts]
    while stack:
        b = stack.pop()
        if isinstance(b, list) and b and all(isinstance(x, list) and x and isinstance(x[0], str) and hasattr(model.Interp, "s_" + x[0]) for x in b):
            places.append(b)
        if isinstance(b, (list, tuple)):
            stack.extend(x for x in b if isinstance(x, (list, tuple)))
    total = 0
    for _ in range(n):
        b = s.choice(places[:1] * 2 + places) if places else stmts
        k = size(s, 6)
        total += k
        if total > 2500:
            break
        c = Const(s)
        kind = s.draw(6)
        if kind == 0:
            t = "if false {\n" + "".join("echo %s\n" % c.mixed(i)[0] for i in range(k)) + "}"
        elif kind == 1:
            t = "if false {\n [%s]\n}" % ", ".join(c.mixed(i)[0] for i in range(k))
        elif kind == 2:
            t = "\n" * k + "if false {\n%s}" % ("".join("echo fn() {\n return %s\n}\n" % c.lit(i) for i in range(min(k, 400))))
        elif kind == 3:
            t = "while false {\n" + "".join("echo %s->x%d(1)\n" % (c.lit(i), i) for i in range(k)) + "}"
        elif kind == 4:
            t = "if true {\n%s}" % ("if true {\n" * (k % 40) + "}\n" * (k % 40))
        else:
            t = "\n" * k + "#" + "x" * k
        b.insert(s.draw(len(b) + 1) if b is stmts else s.draw(len(b)) if b else 0, ["raw", t])


class Interp(model.Interp):
    def s_raw(self, s, env):
        return None, env


class C26(Check):
    id = "C26"
    technique = "property-based testing: generated programs of every size around the encodings' thresholds and the limits, with known results"
    rule = ("sequences of inputs, each made of a template of random size (locals, params, targets, closed over variables, elements, constants, nesting, arms, jumps, texts, calls, data, "
            "functions, patterns, the last slots of the stack, lines), whose output is known; and well-typed programs with padding without effect (constants, code, lines) against the "
            "reference interpreter; beyond a limit an error of its kind or the right result is accepted, after which the state has to work; non-trivial: some size is over 126")
    note = "Random search. Sizes up to 100000; deeper nesting than the limits only up to 12000."
    quick = 5000
    thorough = 150000

    def gen(self, s):
        if s.chance(25):
            st = progen.ProgGen(s, {}, size=s.int(5, 20)).program()
            pads(s, st, s.int(1, 4))
            return ["pad", st]
        repl = s.chance(60)
        parts = []
        total = 0
        for i in range(s.many(1, 5, 60)):
            f = s.weighted(TEMPLATES)
            src, out, ok = f(s, "t%d_" % i, 0 if repl else 3)
            total += len(src)
            if total > 60000:
                total -= len(src)
                f = t_depth
                src, out, ok = f(s, "t%d_" % i, 3)
            wrap = s.draw(4)
            if wrap == 0:
                src = "fn w%d() {\n%s}\nw%d()\n" % (i, src, i) if not repl or f is t_line else src
            if not repl and wrap and f is not t_line:
                src = "(fn() {\n%s})()\n" % src
            if repl:
                src += "let t%d_end = 1\n" % i     # (its value would be shown)
            parts.append([src, out, bool(ok), f.__name__])
            if not repl and not ok:
                break
        if not repl:
            ok = all(p[2] for p in parts)
            parts = [["".join(p[0] for p in parts), sum((p[1] for p in parts), []), ok, "+".join(p[3] for p in parts)]]
        if repl and s.chance(30):
            # lots of globals
            n = min(size(s, 15, lo=1), 3000)
            src = "".join("let g%d = %d\n" % (i, i * 3) for i in range(n))
            parts.insert(s.draw(len(parts) + 1), [src + "echo g%d\necho g0\n" % (n - 1), [str(3 * n - 3), "0"], True, "globals"])
        if s.chance(25):
            e = s.choice([("[] + 1", 5), ("1 // 0", 6), ("[1][2]", 7)])
            i = s.draw(len(parts))
            if parts[i][2]:
                src = parts[i][0]
                parts[i] = [src + "echo %s\n" % e[0], parts[i][1], [e[1], src.count("\n") + 1], parts[i][3]]
        return ["sizes", repl, parts]

    def show(self, case):
        short = lambda x: x if len(x) < 5000 else x[:3000] + "\n...\n" + x[-800:]
        if case[0] == "pad":
            return short(syntax.source(case[1])[0])
        return "\n---\n".join(short(p[0]) + "# expected: %s %s" % (short(repr(p[1])), p[2]) for p in case[2])

    def test(self, case, env):
        if case[0] == "pad":
            src, lines = syntax.source(case[1])
            it = Interp(max_steps=20000)
            it.line = lines
            try:
                st = it.run(case[1])
            except RecursionError:
                raise Discard("model recursion")
            it.expected = model.cat(*it.out) if it.out else ""
            r = env.run(client.EXEC, src)
            return common.verdict(it, st, r), ["pad", "pad:status%d" % st], len(src) > 1500 and len(it.out) > 0
        _, repl, parts = case
        labels = {"repl" if repl else "exec"}
        nt = any(len(p[0]) > 500 for p in parts)
        for p in parts:
            labels |= {x + ("" if p[2] else ":over") for x in p[3].split("+")}
        if repl:
            r = env.run(client.REPL, "let alive = 20\n", *[p[0] for p in parts], "alive += 22; echo alive\n")
        else:
            r = env.run(client.REPL if False else client.HIST, *[p[0] for p in parts], "let alive = 20; alive += 22; echo alive\n")
        c = common.crashed(r)
        if c:
            return c, sorted(labels), nt
        outs, errs = r.outs(), r.errs()
        want = ([["", [], True, "alive"]] if repl else []) + [list(p) for p in parts] + [["", ["42"], True, "alive"]]
        if len(outs) != len(want):
            return "steps: %d of %d ran" % (len(outs), len(want)), sorted(labels), nt
        for i, (src, out, ok, name) in enumerate(want):
            st = r.statuses[i]
            got = common.latin(outs[i]).split("\n")[:-1]
            if isinstance(ok, list):
                if st != ok[0] or got != out:
                    return f"result: {name}: expected {str(out)[-300:]} and status {ok[0]}, got {str(got)[-300:]} (status {st}, {errs[i][:200]!r})", sorted(labels), nt
                line = b"(line %d)" % ok[1]
                if line not in errs[i]:
                    return f"line: {name}: expected {line!r} in {errs[i][:300]!r}", sorted(labels), nt
                continue
            if st == 0 and got == out and not errs[i]:
                continue
            if not ok and st in LIMIT and errs[i] and got == out[:len(got)]:
                labels.add("limit%d" % st)
                continue
            return f"result: {name}: expected {str(out)[-300:]}, got {str(got)[-300:]} (status {st}, {errs[i][:200]!r})", sorted(labels), nt
        return None, sorted(labels), nt


check = C26()
