"""C24: math functions compute their mathematical results."""
import ctypes, math, struct
from ..engine import Check
from ..syntax import floatlit
from ..model import ftext
from .. import client, common, gen

LIBM = ctypes.CDLL("libm.so.6")
UN = ["exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "ceil", "floor"]
C = {}
for _n in UN + ["fabs"]:
    _f = getattr(LIBM, _n)
    _f.restype, _f.argtypes = ctypes.c_double, [ctypes.c_double]
    C[_n] = _f
IMIN, IMAX = -(1 << 63), (1 << 63) - 1
OTHERS = ["'1'", "''", "undef", "true", "[1]", "{1: 2}", "[]", "fn() { return 1; }", "math", "math.abs", "collections.set(1)", "'nan'"]


def lit(v):
    """Source of a number."""
    if type(v) is int:
        return str(v) if v >= 0 else "(-9223372036854775807 - 1)" if v == IMIN else "-%d" % -v
    if v != v:
        return "math.nan"
    if math.isinf(v):
        return "math.inf" if v > 0 else "-math.inf"
    return floatlit(v) if math.copysign(1, v) > 0 else "-" + floatlit(-v)


def isprime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def best(args, sign):
    r = -sign * math.inf
    for x in reversed(args):
        if x != x:
            return math.nan
    for x in reversed(args):
        a, b = (x, r) if type(x) is int and type(r) is int else (float(x), float(r))
        if a >= b if sign > 0 else a <= b:
            r = x
    return r


class G:
    def __init__(self, s):
        self.s = s

    def float(self):
        s = self.s
        k = s.draw(12)
        if k == 0:
            return s.choice([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308])
        if k < 3:
            return s.int(-8, 8) * s.choice([math.pi, math.pi / 2, math.pi / 3, math.pi / 4, math.e])
        if k < 5:
            return float(s.int(-40, 40)) + s.choice([0.0, 0.5, 1e-15, -1e-15, 0.4999999999999999, -0.25])
        if k < 8:
            return s.int(-10 ** 6, 10 ** 6) / s.choice([1e6, 1e6, 999983.0, 7.0, 1e3])
        if k == 8:
            return struct.unpack("<d", struct.pack("<Q", s.draw(1 << 64)))[0]
        if k == 9:
            return s.choice([1, -1]) * float(s.choice([2 ** 52, 2 ** 53, 2 ** 63, 2 ** 31]) + s.int(-2, 2)) + s.choice([0, 0.5])
        return s.int(-(1 << 53), 1 << 53) * 2.0 ** s.int(-80, 20)

    def int(self):
        s = self.s
        k = s.draw(6)
        if k < 3:
            return s.int(-20, 300)
        if k == 3:
            return s.choice([IMAX, IMAX - 1, -IMAX, -IMAX + 1, IMIN, 2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1, -2 ** 53 - 1, 2 ** 62, 2 ** 62 + 1, 2 ** 32, 2 ** 31 - 1])
        if k == 4:
            return gen.gint(s)
        return s.int(-(1 << s.int(1, 63)), (1 << s.int(1, 63)) - 1)

    def num(self, d):
        """-> (source, value)"""
        s = self.s
        if d > 0 and s.chance(20):
            e, v = self.call(d - 1)
            if type(v) in (int, float):
                return e, v
        v = self.int() if s.chance(45) else self.float()
        return lit(v), v

    def natural(self):
        """An int for number theory."""
        s = self.s
        k = s.draw(8)
        if k < 2:
            return s.draw(400)
        if k == 2:
            return s.int(-300, 2)
        if k == 3:
            return s.draw(1 << s.int(1, 40))
        p = s.int(190, 1000) if s.chance(60) else s.int(1000, 1 << 19)
        while not isprime(p):
            p += 1
        if k == 4:
            return p
        q = p
        if k == 6:
            q = s.int(3, 5000)
            while not isprime(q):
                q += 1
        return p * q

    def call(self, d):
        """-> (source, its value)"""
        s = self.s
        k = s.draw(24)
        extra = ", " + s.choice(["1", "'x'", "undef"]) if s.chance(4) else ""
        if k < 9:
            n = s.choice(UN)
            e, v = self.num(d)
            if n in ("asin", "acos") and s.chance(70):
                v = s.int(-1000, 1000) / 1000.0
                e = lit(v)
            if n == "exp" and s.chance(60):
                v = s.int(-75000, 71000) / 100.0
                e = lit(v)
            return "math.%s(%s%s)" % (n, e, extra), C[n](float(v))
        if k < 11:
            e, v = self.num(d)
            if v == IMIN and type(v) is int:
                e, v = "-5", -5
            return "math.abs(%s%s)" % (e, extra), abs(v)
        if k < 17:
            n = s.choice(["max", "min"])
            args = [self.num(d) for _ in range(s.many(0, 7, 75))]
            if args and s.chance(40):
                # close ones
                v = args[0][1]
                for _ in range(s.int(1, 3)):
                    w = v
                    if type(v) is int:
                        w = max(IMIN, min(IMAX, v + s.int(-2, 2)))
                        if s.chance(30) and abs(w) < 2 ** 53:
                            w = float(w)
                    elif v == v and not math.isinf(v) and s.chance(60):
                        w = math.nextafter(v, s.choice([math.inf, -math.inf]))
                    args.insert(s.draw(len(args) + 1), (lit(w), w))
            src = ", ".join(e for e, _ in args)
            if s.chance(15):
                src = "[" + src + "]->spread()"
            return "math.%s(%s)" % (n, src), best([v for _, v in args], 1 if n == "max" else -1)
        if k < 20:
            v = self.natural()
            e = lit(v)
            if s.chance(15) and abs(v) < 1 << 50:
                e = lit(float(v))
            return "math.isprime(%s%s)" % (e, extra), isprime(v)
        if k < 23:
            a, b = self.natural(), self.natural()
            if s.chance(60):
                m = s.int(1, 1 << s.int(1, 22))
                a, b = a * m, b * m
            n = s.choice(["gcd", "lcm"])
            r = None
            if a > 0 and b > 0:
                r = math.gcd(a, b)
                if n == "lcm":
                    r = a // r * b
                if r > IMAX or a > IMAX or b > IMAX:
                    a, b, r = 6, 4, 2 if n == "gcd" else 12
            elif max(abs(a), abs(b)) > IMAX:
                a, b, r = -6, 4, None
            ea, eb = lit(a), lit(b)
            if s.chance(10) and abs(a) < 1 << 50:
                ea = lit(float(a))
            return "math.%s(%s, %s%s)" % (n, ea, eb, extra), r
        n = s.choice(["deg", "rad"])
        e, v = self.num(d)
        if abs(v) > 1e300 or abs(v) < 1e-300:
            e, v = "2", 2
        return "math.%s(%s%s)" % (n, e, extra), ("near", float(v) * (180.0 / math.pi) if n == "deg" else float(v) * (math.pi / 180.0))

    def bad(self):
        s = self.s
        o = s.choice(OTHERS)
        x = lit(s.choice([1, 2.5, math.nan, -3]))
        k = s.draw(5)
        if k == 0:
            return "math.%s()" % s.choice(UN + ["abs", "deg", "rad", "isprime", "gcd", "lcm"])
        if k == 1:
            args = [x] * s.draw(5)
            args.insert(s.draw(len(args) + 1), o)
            return "math.%s(%s)" % (s.choice(["max", "min"]), ", ".join(args))
        if k == 2:
            return "math.%s(%s)" % (s.choice(["gcd", "lcm"]), s.choice([x + ", " + o, o + ", 1", o + ", " + o, "1"]))
        return "math.%s(%s)" % (s.choice(UN + ["abs", "deg", "rad", "isprime"]), o)

    def input(self):
        s = self.s
        if s.chance(14):
            return ["echo %s\n" % self.bad(), 5, []]
        k = s.draw(40)
        if k == 0:
            n, v = s.choice([("pi", math.pi), ("inf", math.inf), ("nan", math.nan)])
            e = "math." + n
        elif k == 1:
            return ["let r = math.rand()\nif true {\n let r = math.rand()\n echo r == (r | 0)\n r &= 1\n echo r->tostr() == '0' || r->tostr() == '1'\n}\n" .replace("let r = math.rand()\nif", "if"),
                    0, ["true", "true"]]
        else:
            e, v = self.call(2)
        near = None
        if type(v) is tuple:
            v = near = v[1]
        src = "if true {\n let r = %s\n" % e
        out = []
        if near is None:
            src += " echo r\n"
            out.append("undef" if v is None else "true" if v is True else "false" if v is False else str(v) if type(v) is int else ftext(v))
        if type(v) is float:
            if v != v:
                src += " echo r != r\n"
            elif near is not None:
                a, b = near * (1 - 1e-15), near * (1 + 1e-15)
                src += " echo r >= %s\n echo r <= %s\n" % (lit(min(a, b)), lit(max(a, b)))
                out.append("true")
            elif v == 0:
                src += " echo 1.0 / r\n"
                out.append("inf" if math.copysign(1, v) > 0 else "-inf")
                v = None
            elif math.isinf(v):
                v = None
            else:
                src += " echo r == %s\n" % lit(v)
        elif type(v) is int:
            src += " echo r == %s\n" % lit(v)
        else:
            v = None
        if v is not None:
            out.append("true")
        return [src + "}\n", 0, out]


class C24(Check):
    id = "C24"
    technique = "property-based testing: generated calls against the C library, exact integer arithmetic and primality testing of its own"
    rule = ("sessions of up to 20 calls of the functions of math, nested in each other's arguments, with ints and floats from boundaries, the domains' ends, "
            "near equal ones, random bits, primes, their squares and products; results compared bit for bit; arguments of every other type; non-trivial: "
            "at least 4 calls that return")
    note = ("Random search. Not decided: the value of rand (only that it's an int), abs of the smallest int and lcms that don't fit an int, floats with a "
            "fraction in isprime, gcd and lcm; deg and rad are compared within 1e-15.")
    quick = 70000
    thorough = 1000000

    def gen(self, s):
        g = G(s)
        return [g.input() for _ in range(s.many(3, 20, 88))]

    def show(self, case):
        return "---\n".join(x[0] for x in case)

    def test(self, case, env):
        r = env.run(client.REPL, *[x[0] for x in case])
        labels = sorted({"status%d" % x[1] for x in case} | {x[0].split("math.")[1].split("(")[0].split("\n")[0] for x in case if "math." in x[0]})
        nt = sum(x[1] == 0 for x in case) >= 4
        c = common.crashed(r)
        if c:
            return c, labels, nt
        outs, errs = r.outs(), r.errs()
        for i, (src, st, out) in enumerate(case):
            got = common.latin(outs[i]).split("\n")[:-1]
            if got != out or r.statuses[i] != st or st and not errs[i].startswith(b"TypeError"):
                return f"result: {src!r}: expected {out} (status {st}), got {got} (status {r.statuses[i]}, {errs[i][:200]!r})", labels, nt
        return None, labels, nt


check = C24()
