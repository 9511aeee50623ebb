"""A reference interpreter for YASL programs, written from the language's definition.

Programs are given as syntax trees (see syntax.py for the printer):

expressions: tuples
  ('lit', v) ('var', n) ('bin', op, a, b) ('un', op, a) ('tern', c, a, b) ('list', [e]) ('table', [(k, v)])
  ('idx', e, i) ('mem', e, name) ('slice', e, a|None, b|None) ('call', f, args) ('mcall', o, name, args)
  ('fn', params, body) ('interp', [str|e]) ('lcomp', e, var, it, cond|None) ('tcomp', k, v, var, it, cond|None)
statements: lists (identity matters: lines are noted per statement)
  ['echo', e] ['let', n, e|None] ['const', n, e] ['mlet', [(kw, n)], [e]] ['assign', n, e] ['massign', [target], [e]]
  ['aug', op, target, e] ['setidx', e, i, v] ['expr', e] ['if', [(c, body)], else|None] ['while', c, body]
  ['cfor', n, init, c, post, body] ['for', n, it, body] ['break'] ['continue'] ['return', [e]] ['fndecl', n, params, body, const]
  ['tfndecl', n, name, params, body] ['match', e, [(pat, guard|None, body)]] ['assert', e] ['export', e]
  targets: ('var', n) | ('idx', e, i) | ('mem', e, name)
patterns:
  ('p*',) ('plit', v) ('ptype', name) ('pbind', kw, n) ('plist', [p], variadic) ('ptable', [(key, p)], variadic) ('palt', a, b)

Values: None bool int float str(latin-1) YList YTable YSet Closure Native.
"""
import ctypes, math, re, struct
from .engine import Discard

OK, MODULE, GENERIC, SYNTAX, TYPE, DIVZ, VALUE, TOOMANY, ASSERT, OVERFLOW = 0, 1, 2, 4, 5, 6, 7, 8, 10, 11

_libm = ctypes.CDLL("libm.so.6")


def _cfn(name, n):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


cpow = _cfn("pow", 2)
CM = {n: _cfn(n, 1) for n in ("exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "ceil", "floor")}


def wrap(n):
    n &= 0xFFFFFFFFFFFFFFFF
    return n - (1 << 64) if n >> 63 else n


def tofloat(n):
    """int -> double as C converts (nearest even)."""
    return float(n)


def fdiv(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1, b)


class YErr(Exception):
    def __init__(self, status, msg=""):
        self.status, self.msg = status, msg


class Signal(Exception):
    pass


class YList:
    __slots__ = ("items", "mt")

    def __init__(self, items=()):
        self.items, self.mt = list(items), None


class YBag(YList):
    """A list whose elements are known but not their order."""
    __slots__ = ()


class YTable:
    __slots__ = ("d", "mt")

    def __init__(self, pairs=()):
        self.d, self.mt = {}, None
        for k, v in pairs:
            self.d[kkey(k)] = (k, v)

    def get(self, k):
        e = self.d.get(kkey(k))
        return None if e is None else e[1]


class YSet:
    __slots__ = ("d", "mt")

    def __init__(self, items=()):
        self.d, self.mt = {}, None
        for k in items:
            self.put(k)

    def put(self, k):
        old = self.d.get(kkey(k))
        if type(old) is float and old == 0 and str(old) != str(k):
            raise Discard("both 0.0 and -0.0")  # which of the two remains isn't specified
        self.d[kkey(k)] = k


class UD:
    """Userdata of the host."""
    __slots__ = ("id", "tag", "mt")

    def __init__(self, id, tag):
        self.id, self.tag, self.mt = id, tag, None


class UPtr:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is UPtr and o.n == self.n

    def __hash__(self):
        return hash(self.n)


class Closure:
    __slots__ = ("params", "body", "env", "name")

    def __init__(self, params, body, env, name="fn"):
        self.params, self.body, self.env, self.name = params, body, env, name


class Native:
    __slots__ = ("name", "n", "f")

    def __init__(self, name, n, f):
        self.name, self.n, self.f = name, n, f


class Perm:
    """Texts that appear in some order, separated by sep."""
    __slots__ = ("items", "sep")

    def __init__(self, items, sep=""):
        self.items, self.sep = items, sep


class UText:
    """A text of which parts have no defined order."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class AnyText:
    """A text that isn't specified (an address): matches [^]*?  up to the delimiter."""
    __slots__ = ()


def cat(*texts):
    parts = []
    for t in texts:
        if isinstance(t, UText):
            parts += t.parts
        else:
            parts.append(t)
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return UText(out)


def unordered(items, sep):
    """The text of items in any order."""
    if not items:
        return ""
    if len(items) == 1:
        return items[0]
    first = items[0]
    if isinstance(first, str) and all(isinstance(x, str) and x == first for x in items):
        return sep.join(items)
    return UText([Perm(list(items), sep)])


def parts_of(t):
    return t.parts if isinstance(t, UText) else [t]


def _ends(parts, s, at, budget):
    """Positions in s where parts, matched from at, can end."""
    if not parts:
        yield at
        return
    budget[0] -= 1
    if budget[0] < 0:
        raise Discard("match budget")
    p, rest = parts[0], parts[1:]
    if isinstance(p, str):
        if s.startswith(p, at):
            yield from _ends(rest, s, at + len(p), budget)
    else:
        seen = set()
        for e in _perm_ends(p.items, p.sep, True, s, at, budget):
            if e not in seen:
                seen.add(e)
                yield from _ends(rest, s, e, budget)


def _perm_ends(items, sep, first, s, at, budget):
    if not items:
        yield at
        return
    if not first:
        if not s.startswith(sep, at):
            return
        at += len(sep)
    if sep and all(isinstance(it, str) and (it + sep).find(sep) == len(it) for it in items):
        # no separator in an item: the items can be read off
        end = at + sum(map(len, items)) + len(sep) * (len(items) - 1)
        if end <= len(s) and sorted(s[at:end].split(sep)) == sorted(items):
            yield end
        return
    if len(items) > 400:
        raise Discard("match budget")
    tried = set()
    for i, it in enumerate(items):
        if isinstance(it, str):
            if it in tried:
                continue
            tried.add(it)
        for e in _ends(parts_of(it), s, at, budget):
            yield from _perm_ends(items[:i] + items[i + 1:], sep, False, s, e, budget)


def matches(text, s):
    """Whether s is one of the texts that `text` stands for."""
    if isinstance(text, str):
        return text == s
    for e in _ends(text.parts, s, 0, [200000]):
        if e == len(s):
            return True
    return False


def show_text(t):
    if isinstance(t, str):
        return t
    out = []
    for p in t.parts:
        out.append(p if isinstance(p, str) else "<any order: " + " / ".join(show_text(i) for i in p.items) + ">")
    return "".join(out)


def give_up():
    raise Discard("stack: many values")


def typename(v):
    if v is None:
        return "undef"
    t = type(v)
    return {bool: "bool", int: "int", float: "float", str: "str", UText: "str", YList: "list", YTable: "table",
            YSet: "userdata", YBag: "list", Closure: "fn", Native: "fn", UD: "tag", UPtr: "userptr"}[t]


def isint(v):
    return type(v) is int


def isnum(v):
    return type(v) is int or type(v) is float


def isstr(v):
    if type(v) is UText:
        raise Discard("unordered text used")
    return type(v) is str


def hashable(v):
    return v is None or type(v) in (bool, int, float, str, UPtr)


def kkey(v):
    if type(v) is float:
        if v != v:
            raise Discard("nan key")
        if v == 0:
            return (float, 0.0)
    if type(v) is UText:
        raise Discard("unordered text used")
    return (type(v), v)


def falsey(v):
    if type(v) is UText:
        return False
    return v is None or v is False or (type(v) is str and v == "") or (type(v) is float and v != v)


def ftext(f):
    if f != f:
        return "nan"
    if f in (math.inf, -math.inf):
        return "inf" if f > 0 else "-inf"
    s = "%f" % f
    while s[-1] == "0" and s[-2] != ".":
        s = s[:-1]
    return s


WS = " \t\n\v\r"
ISAL = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
ISNUM = set("0123456789")


def isvaliddouble(s):
    dot = e = False
    for i, c in enumerate(s):
        if c in ISNUM:
            pass
        elif c == ".":
            if e or dot:
                return False
            dot = True
        elif c in "eE":
            if e:
                return False
            e = True
        elif c in "+-":
            if not (i > 0 and s[i - 1] in "eE"):
                return False
        else:
            return False
    return dot and s[-1:] in ISNUM and s[:1] in ISNUM


def strtoll(s, base):
    """(value, all consumed)"""
    i = 0
    while i < len(s) and s[i] in " \t\n\v\f\r":
        i += 1
    neg = False
    if i < len(s) and s[i] in "+-":
        neg = s[i] == "-"
        i += 1
    if base == 16 and s[i:i + 2].lower() == "0x" and s[i + 2:i + 3].lower() in list("0123456789abcdef"):
        i += 2
    if base == 2 and s[i:i + 2].lower() == "0b" and s[i + 2:i + 3] in ("0", "1"):
        raise Discard("0b0b")
    j, n = i, 0
    digits = "0123456789abcdef"[:base]
    while j < len(s) and s[j].lower() in digits and s[j]:
        n = n * base + digits.index(s[j].lower())
        j += 1
    if j == i:
        return 0, len(s) == 0
    if neg:
        n = -n
    return max(-(1 << 63), min((1 << 63) - 1, n)), j == len(s)


def parseint64(s):
    if "\0" in s:
        raise Discard("nul in number")
    if len(s) > 2 and s[0] == "0" and s[1] in "xX":
        v, ok = strtoll(s[2:], 16)
    elif len(s) > 2 and s[0] == "0" and s[1] in "bB":
        v, ok = strtoll(s[2:], 2)
    else:
        v, ok = strtoll(s, 10)
    return (v, True) if ok else (0, False)


def str_toint(s):
    if len(s) <= 2:
        return parseint64(s)[0]
    if s[0] == "0" and s[1] in ISAL:
        return parseint64(s[:2] + s[2:].replace("_", ""))[0]
    return parseint64(s.replace("_", ""))[0]


def str_tofloat(s):
    if not s or s[0] not in ISNUM:
        return math.nan
    b = "".join(c for i, c in enumerate(s) if not (c == "_" and s[i - 1] != "."))
    if "\0" in b:
        raise Discard("nul in number")
    if isvaliddouble(b):
        try:
            return float(b)
        except ValueError:
            raise Discard("odd double")
    v, ok = parseint64(b)
    return float(v) if ok else math.nan


def is_prime(n):
    if n < 2:
        return False
    i = 2
    while i * i <= n:
        if n % i == 0:
            return False
        i += 1
    return True


class Interp:
    def __init__(self, max_steps=20000, modules=None, fntext=False):
        self.fntext = fntext   # functions have some text (which is left open)
        self.out = []          # texts of echoed lines (with newline)
        self.steps = max_steps
        self.depth = 0
        self.muts = 0
        self.line = {}         # id(stmt) -> line, from the printer
        self.max_depth = 150
        self.globals_env = None
        self.exported = None
        self.modules = modules or {}
        self.trace = []        # lines of calls in progress
        self.errline = None
        self.in_native, self.native_calls = 0, False
        self.builtin = builtins()
        self.curline = 0
        self.stats = {}

    # ------------------------------------------------------------ running
    def run(self, stmts, env=None):
        """-> status"""
        env = env if env is not None else base_env(self)
        try:
            self.end_env = env
            for s in stmts:
                sig, env = self.block([s], env)
                self.end_env = env
                if sig is not None:
                    return MODULE if sig[0] == "export" else OK
            return OK
        except YErr as e:
            self.err = e
            self.in_native = 0
            self.errline = self.curline
            return e.status

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Discard("steps")

    def cost(self, v):
        """Work in proportion to a collection's size."""
        self.steps -= len(v.items if type(v) is YList else v.d) // 8
        return v

    def block(self, stmts, env):
        for s in stmts:
            self.steps -= 1
            if self.steps < 0:
                raise Discard("steps")
            self.at(s)
            sig, env = getattr(self, "s_" + s[0])(s, env)
            if sig is not None:
                return sig, env
        return None, env

    def find(self, env, n):
        e = env
        while e is not None:
            if e[0] == n:
                return e[1]
            e = e[2]
        raise AssertionError("model: unbound " + n)

    # ------------------------------------------------------------ statements
    def s_echo(self, s, env):
        self.out.append(cat(self.echo_text(self.text(self.ev(s[1], env))), "\n"))
        return None, env

    def echo_text(self, t):
        if isinstance(t, str):
            return t.replace("\0", "")
        return UText([self._strip(p) for p in t.parts])

    def _strip(self, p):
        if isinstance(p, str):
            return p.replace("\0", "")
        return Perm([self.echo_text(i) for i in p.items], p.sep)

    def s_let(self, s, env):
        v = None if s[2] is None else self.ev(s[2], env)
        return None, (s[1], [v], env)

    s_const = s_let
    s_raw = lambda self, s, env: (None, env)

    def s_mlet(self, s, env):
        vals = self.evlist(s[2], env, len(s[1]))
        for (kw, n), v in zip(s[1], vals):
            env = (n, [v], env)
        return None, env

    def evlist(self, exprs, env, want):
        """Values of exprs, the last one expanding, cut or padded to want."""
        vals = self.args(exprs, env)
        vals = vals[:want]
        return vals + [None] * (want - len(vals))

    def s_assign(self, s, env):
        v = self.ev(s[2], env)
        self.find(env, s[1])[0] = v
        self.muts += 1
        return None, env

    def s_massign(self, s, env):
        # containers and indices are evaluated first, then the values; assigned right to left (not observable
        # for distinct targets)
        pre = []
        for t in s[1]:
            if t[0] == "idx":
                pre.append((self.ev(t[1], env), self.ev(t[2], env)))
            elif t[0] == "mem":
                pre.append((self.ev(t[1], env), t[2]))
            else:
                pre.append(None)
        vals = self.evlist(s[2], env, len(s[1]))
        for t, p, v in zip(s[1], pre, vals):
            if t[0] == "var":
                self.find(env, t[1])[0] = v
                self.muts += 1
            else:
                self.setidx(p[0], p[1], v)
        return None, env

    def s_aug(self, s, env):
        op, t, e = s[1], s[2], s[3]
        if t[0] == "var":
            cur = ("var", t[1])
            v = self.ev(("bin", op, cur, e), env)
            self.find(env, t[1])[0] = v
            self.muts += 1
        else:
            i = ("lit", t[2]) if t[0] == "mem" else t[2]
            o = self.ev(t[1], env)
            iv = self.ev(i, env)
            v = self.ev(("bin", op, ("idx", t[1], i), e), env)
            self.setidx(o, iv, v)
        return None, env

    def s_setidx(self, s, env):
        o = self.ev(s[1], env)
        i = self.ev(s[2], env)
        v = self.ev(s[3], env)
        self.setidx(o, i, v)
        return None, env

    def s_setmem(self, s, env):
        o = self.ev(s[1], env)
        v = self.ev(s[3], env)
        self.setidx(o, s[2], v)
        return None, env

    def s_expr(self, s, env):
        self.evmulti(s[1], env)
        return None, env

    def s_if(self, s, env):
        for c, body in s[1]:
            self.at(body)
            if not falsey(self.ev(c, env)):
                return self.block(body, env)[0], env
        if s[2] is not None:
            return self.block(s[2], env)[0], env
        return None, env

    def at(self, x):
        ln = self.line.get(id(x))
        if ln is not None:
            self.curline = ln

    def s_while(self, s, env):
        while True:
            self.tick()
            self.at(s)
            if falsey(self.ev(s[1], env)):
                break
            sig, _ = self.block(s[2], env)
            if sig is not None:
                if sig[0] == "break":
                    break
                if sig[0] != "continue":
                    return sig, env
        return None, env

    def s_cfor(self, s, env):
        _, n, init, c, post, body = s
        e2 = (n, [self.ev(init, env)], env)
        while True:
            self.tick()
            if falsey(self.ev(c, e2)):
                break
            sig, _ = self.block(body, e2)
            if sig is not None:
                if sig[0] == "break":
                    break
                if sig[0] != "continue":
                    return sig, env
            self.at(s)
            getattr(self, "s_" + post[0])(post, e2)
        return None, env

    def iterate(self, v):
        """Elements; second result: whether their order is defined."""
        if type(v) is YList:
            return list(v.items), True
        if type(v) is YBag:
            return list(v.items), len(v.items) < 2
        if type(v) is YTable:
            ks = [k for k, _ in v.d.values()]
            return ks, len(ks) < 2
        if isstr(v):
            return list(v), True
        raise YErr(TYPE, "object of type %s is not iterable." % typename(v))

    def guard(self, v):
        return (v, len(v.items)) if type(v) is YList else [v, tuple(v.d), self.muts] if type(v) is YTable else None

    def guard_ok(self, g):
        if g is None:
            return
        v, n = g[:2]
        if type(v) is YList:
            if len(v.items) != n:
                raise Discard("collection changed while iterated")
        elif len(v.d) != len(n) or self.muts != g[2] and tuple(v.d) != n:
            raise Discard("collection changed while iterated")
        else:
            g[2] = self.muts

    def s_for(self, s, env):
        _, n, it, body = s
        v = self.ev(it, env)
        els, ordered = self.iterate(v)
        g = self.guard(v)
        cell = [None]
        e2 = (n, cell, env)
        if not ordered:
            return self.for_unordered(els, cell, body, e2, g), env
        for k, x in enumerate(els):
            self.tick()
            if type(v) is YList:
                x = v.items[k]
            cell[0] = x
            sig, _ = self.block(body, e2)
            self.guard_ok(g)
            if sig is not None:
                if sig[0] == "break":
                    break
                if sig[0] != "continue":
                    return sig, env
        return None, env

    def for_unordered(self, els, cell, body, e2, g):
        """Runs the body per element; what it prints appears in any order, and nothing else may happen."""
        saved, texts = self.out, []
        muts = self.muts
        try:
            for x in els:
                self.tick()
                self.out = []
                cell[0] = x
                try:
                    sig, _ = self.block(body, e2)
                except YErr:
                    raise Discard("error in unordered loop")
                if sig is not None and sig[0] != "continue":
                    raise Discard("unordered loop left")
                self.guard_ok(g)
                texts.append(cat(*self.out) if self.out else "")
        finally:
            self.out = saved
        if self.muts != muts:
            raise Discard("unordered loop with effects")
        self.out.append(unordered(texts, ""))
        return None

    def s_break(self, s, env):
        return ("break",), env

    def s_continue(self, s, env):
        return ("continue",), env

    def s_return(self, s, env):
        return ("ret", self.args(s[1] or [("lit", None)], env)), env

    def s_fndecl(self, s, env):
        cell = [None]
        env = (s[1], cell, env)
        cell[0] = Closure(s[2], s[3], env, s[1])
        return None, env

    def s_tfndecl(self, s, env):
        self.setidx(self.find(env, s[1])[0], s[2], Closure(s[3], s[4], env, s[2]))
        return None, env

    def s_match(self, s, env):
        v = self.ev(s[1], env)
        for pat, guard, body in s[2]:
            binds = []
            if self.accepts(pat, v, binds):
                e2 = env
                for n, x in binds:
                    e2 = (n, [x], e2)
                if guard is not None:
                    self.at(body)
                    if falsey(self.ev(guard, e2)):
                        continue
                return self.block(body, e2)[0], env
        return None, env

    def accepts(self, p, v, binds):
        k = p[0]
        if k == "p*":
            return True
        if k == "pbind":
            binds.append((p[2], v))
            return True
        if k == "ptype":
            return typename(v) == p[1]
        if k == "plit":
            if p[1] is None or v is None:
                return p[1] is None and v is None
            if type(p[1]) is bool or type(v) is bool:
                return type(p[1]) is bool and type(v) is bool and p[1] == v
            if type(p[1]) is str:
                return isstr(v) and v == p[1]
            return isnum(v) and numeq(p[1], v)
        if k == "palt":
            return self.accepts(p[1], v, binds) or self.accepts(p[2], v, binds)
        if k == "plist":
            if type(v) is not YList:
                return False
            if len(v.items) < len(p[1]) or (not p[2] and len(v.items) != len(p[1])):
                return False
            return all(self.accepts(q, x, binds) for q, x in zip(p[1], v.items))
        if k == "ptable":
            if type(v) is not YTable:
                return False
            if not p[2] and len(v.d) != len(p[1]):
                return False
            for key, q in p[1]:
                e = v.d.get(kkey(key))
                if e is None or not self.accepts(q, e[1], binds):
                    return False
            return True
        raise AssertionError(k)

    def s_assert(self, s, env):
        v = self.ev(s[1], env)
        if falsey(v):
            self.text(v)
            raise YErr(ASSERT, "")
        return None, env

    def s_export(self, s, env):
        self.exported = self.ev(s[1], env)
        return ("export",), env

    def s_comment(self, s, env):
        return None, env

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "var":
            x = env
            n = e[1]
            while x is not None:
                if x[0] == n:
                    return x[1][0]
                x = x[2]
            raise AssertionError("model: unbound " + n)
        self.steps -= 1
        if self.steps < 0:
            raise Discard("steps")
        return getattr(self, "e_" + k)(e, env)

    def evmulti(self, e, env):
        """All values of a call, or the one value of anything else."""
        if e[0] == "call":
            return self.e_call(e, env, True)
        if e[0] == "mcall":
            return self.e_mcall(e, env, True)
        if e[0] == "paren":
            return self.evmulti(e[1], env)
        return [self.ev(e, env)]

    def args(self, exprs, env):
        vals = []
        for x in exprs[:-1]:
            vals.append(self.ev(x, env))
        if exprs:
            vals += self.evmulti(exprs[-1], env)
        return vals

    def e_bin(self, e, env):
        op = e[1]
        if op == "&&":
            a = self.ev(e[2], env)
            return a if falsey(a) else self.ev(e[3], env)
        if op == "||":
            a = self.ev(e[2], env)
            return self.ev(e[3], env) if falsey(a) else a
        if op == "??":
            a = self.ev(e[2], env)
            return self.ev(e[3], env) if a is None else a
        a = self.ev(e[2], env)
        b = self.ev(e[3], env)
        return self.binop(op, a, b)

    def e_paren(self, e, env):
        return self.ev(e[1], env)

    def e_tern(self, e, env):
        return self.ev(e[3] if falsey(self.ev(e[1], env)) else e[2], env)

    def e_un(self, e, env):
        a = self.ev(e[2], env)
        op = e[1]
        if op == "!":
            return falsey(a)
        if op == "len":
            if isstr(a):
                return len(a)
            return self.call1(self.lookup(a, "__len", "len not supported"), [a])
        if op == "-":
            if isint(a):
                return wrap(-a)
            if type(a) is float:
                return -a
            return self.call1(self.lookup(a, "__neg", ""), [a])
        if op == "+":
            if isnum(a):
                return a
            return self.call1(self.lookup(a, "__pos", ""), [a])
        if op == "^":
            if isint(a):
                return ~a
            return self.call1(self.lookup(a, "__bnot", ""), [a])
        raise AssertionError(op)

    OVER = {"**": "__pow", "*": "__mul", "//": "__idiv", "/": "__div", "%": "__mod", "+": "__add", "-": "__sub",
            "<<": "__bshl", ">>": "__bshr", "&": "__band", "&^": "__bandnot", "^": "__bxor", "|": "__bor",
            "<": "__lt", ">": "__gt", "<=": "__le", ">=": "__ge"}

    def binop(self, op, a, b):
        if op == "~":
            b = self.text(b)
            a = self.text(a)
            if type(a) is str and type(b) is str and len(a) + len(b) > 100000:
                raise Discard("long str")
            return cat(a, b)
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return falsey(self.eq(a, b))
        if op == "===":
            return self.ident(a, b)
        if op == "!==":
            return not self.ident(a, b)
        if op in ("<", ">", "<=", ">="):
            if (isstr(a) and isstr(b)) or (isnum(a) and isnum(b)):
                if isnum(a) and type(a) is not type(b):
                    a, b = float(a), float(b)
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            return self.call1(self.lookup(a, self.OVER[op], ""), [a, b])
        if op in ("//", "%") and isint(b) and b == 0:
            raise YErr(DIVZ, "")
        if isint(a) and isint(b):
            return self.intop(op, a, b)
        if isnum(a) and isnum(b):
            fa, fb = float(a), float(b)
            if op == "+":
                return fa + fb
            if op == "-":
                return fa - fb
            if op == "*":
                return fa * fb
            if op == "/":
                return fdiv(fa, fb)
            if op == "**":
                return cpow(fa, fb)
        return self.call1(self.lookup(a, self.OVER[op], ""), [a, b])

    def intop(self, op, a, b):
        if op == "+":
            return wrap(a + b)
        if op == "-":
            return wrap(a - b)
        if op == "*":
            return wrap(a * b)
        if op == "/":
            return fdiv(float(a), float(b))
        if op == "//":
            q = abs(a) // abs(b)
            return wrap(q if (a < 0) == (b < 0) else -q)
        if op == "%":
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        if op == "**":
            if b < 0:
                return cpow(float(a), float(b))
            if abs(a) > 1 and b > 64:
                return -1 << 63
            r = a ** (b if abs(a) > 1 or b < 2 else 2 - b % 2)
            return r if -1 << 63 <= r < 1 << 63 else -1 << 63
        if op == "<<":
            return wrap(a << (b & 63))
        if op == ">>":
            return a >> (b & 63)
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "&^":
            return a & ~b
        raise AssertionError(op)

    def plain_eq(self, a, b):
        """Equality of values without overloads (what search and count use)."""
        ta, tb = type(a), type(b)
        if ta is UText or tb is UText:
            raise Discard("unordered text used")
        if isnum(a) and isnum(b):
            return numeq(a, b)
        if a is None or b is None:
            return a is None and b is None
        if ta is bool or tb is bool:
            return ta is bool and tb is bool and a == b
        if ta is str or tb is str:
            return ta is str and tb is str and a == b
        if ta in (Closure, Native) and tb in (Closure, Native):
            raise Discard("fn compared")
        return a is b

    def eq(self, a, b):
        ud = (YSet, UD)
        if (type(a) is YTable and type(b) is YTable) or (type(a) is YList and type(b) is YList) or \
                (type(a) in ud and type(b) in ud):
            self.tick()
            self.depth += 1
            if self.depth > self.max_depth:
                raise Discard("depth")
            r = self.call1(self.lookup(a, "__eq", ""), [a, b])
            self.depth -= 1
            return r
        if isinstance(a, (YTable, YList, YSet, UD)) or isinstance(b, (YTable, YList, YSet, UD)):
            return False
        return self.plain_eq(a, b)

    def ident(self, a, b):
        if type(a) is not type(b):
            return False
        if type(a) in (str, UText, Closure, Native):
            raise Discard("identity of strs")
        if type(a) is float:
            if a != a and b != b:
                raise Discard("identity of nans")
            return struct.pack("<d", a) == struct.pack("<d", b)
        if isinstance(a, (YList, YTable, YSet, UD)):
            return a is b
        return a == b

    def e_list(self, e, env):
        return YList([self.ev(x, env) for x in e[1]])

    def e_table(self, e, env):
        kv = [(self.ev(k, env), self.ev(v, env)) for k, v in e[1]]
        return self.newtable(kv)

    def newtable(self, kv):
        t = YTable()
        for k, v in reversed(kv):
            if v is None:
                continue
            if not hashable(k):
                if type(k) is UText:
                    raise Discard("unordered text used")
                raise YErr(TYPE, "mutable key")
            t.d[kkey(k)] = (k, v)
        return t

    def e_idx(self, e, env):
        o = self.ev(e[1], env)
        i = self.ev(e[2], env)
        return self.get(o, i)

    def e_mem(self, e, env):
        return self.get(self.ev(e[1], env), e[2])

    def get(self, o, i):
        if type(i) is UText or type(o) is UText:
            raise Discard("unordered text used")
        mt = self.mt_of(o)
        if mt is not None:
            m = self.rawget(mt, i)
            if m is not NOTFOUND:
                return m
            g = self.rawget(mt, "__get")
            if g is not NOTFOUND:
                return self.call1(self.callee(g), [o, i])
        if type(o) is YTable:
            r = o.d.get(kkey(i)) if hashable(i) else None
            if r is not None:
                return r[1]
        raise YErr(VALUE, "Could not find value for index")

    def mt_of(self, o):
        """dict name -> Native for types with builtin methods, or a YTable, or None."""
        if isinstance(o, (YList, YTable, YSet, UD)) and o.mt is not None:
            return o.mt
        return self.builtin.get(typename(o) if type(o) is not YSet else "set")

    def rawget(self, mt, i):
        if isinstance(mt, YTable):
            if not hashable(i):
                return NOTFOUND
            e = mt.d.get(kkey(i))
            return NOTFOUND if e is None else e[1]
        if type(i) is str and i in mt:
            return mt[i]
        return NOTFOUND

    def lookup(self, o, name, what):
        mt = self.mt_of(o)
        m = NOTFOUND if mt is None else self.rawget(mt, name)
        if m is NOTFOUND:
            raise YErr(TYPE, what)
        return self.callee(m)

    def setidx(self, o, i, v):
        f = self.lookup(o, "__set", "object of type %s is immutable." % typename(o))
        self.call(f, [o, i, v])

    def e_slice(self, e, env):
        o = self.ev(e[1], env)
        a = None if e[2] is None else self.ev(e[2], env)
        b = None if e[3] is None else self.ev(e[3], env)
        if type(o) is YList:
            n = len(o.items)
        elif isstr(o):
            n = len(o)
        else:
            raise YErr(TYPE, "slicing")
        if not (b is None or isint(b)) or not (a is None or isint(a)):
            raise YErr(TYPE, "slicing")
        end = n if b is None else min(b + n if b < 0 else b, n)
        start = 0 if a is None else max(a + n if a < 0 else a, 0)
        if type(o) is YList:
            return YList(o.items[start:end] if end > start else [])
        return o[start:end] if end > start else ""

    def callee(self, f):
        """f, or what calling it really calls."""
        if type(f) in (Closure, Native):
            return f
        mt = self.mt_of(f)
        m = NOTFOUND if mt is None else self.rawget(mt, "__call")
        if m is NOTFOUND or type(m) not in (Closure, Native):
            raise YErr(TYPE, "%s is not callable." % typename(f))
        return m

    def e_call(self, e, env, multi=False):
        f = self.ev(e[1], env)
        ln = self.curline
        f = self.callee(f)
        r = self.call(f, self.args(e[2], env))
        self.curline = ln
        return r if multi else (r[0] if r else None)

    def e_mcall(self, e, env, multi=False):
        o = self.ev(e[1], env)
        ln = self.curline
        f = self.callee(self.get(o, e[2]))
        r = self.call(f, [o] + self.args(e[3], env))
        self.curline = ln
        return r if multi else (r[0] if r else None)

    def call1(self, f, args):
        r = self.call(f, args)
        return r[0] if r else None

    def call(self, f, args):
        """-> list of values"""
        self.tick()
        f = self.callee(f)
        if self.depth >= self.max_depth:
            raise Discard("depth")
        self.depth += 1
        if type(f) is Native:
            if f.n >= 0:
                args = args[:f.n] + [None] * (f.n - len(args))
            self.in_native += 1
            r = f.f(self, args)
            self.in_native -= 1
            self.depth -= 1
            return r
        if self.in_native:
            self.native_calls = True
        env = f.env
        n = len(f.params)
        args = args[:n] + [None] * (n - len(args))
        for p, v in zip(f.params, args):
            env = (p[6:] if p.startswith("const ") else p, [v], env)
        ln = self.curline
        self.trace.append(ln)
        if type(f.body) is not list:
            r = [self.ev(f.body, env)]
        else:
            sig, _ = self.block(f.body, env)
            r = sig[1] if sig is not None and sig[0] == "ret" else [None]
        self.trace.pop()
        self.curline = ln
        self.depth -= 1
        return r

    def e_fn(self, e, env):
        return Closure(e[1], e[2], env)

    def e_interp(self, e, env):
        return cat(*[p if isinstance(p, str) else self.text(self.ev(p, env)) for p in e[1]])

    def comp_iter(self, it, env):
        v = self.ev(it, env)
        els, ordered = self.iterate(v)
        return els, ordered, self.guard(v)

    def comp_each(self, it, env, n, cond, f):
        """f(env) for each element that meets the condition -> (results, ordered)"""
        els, ordered, g = self.comp_iter(it, env)
        cell = [None]
        e2 = (n, cell, env)
        r, texts = [], []
        saved, muts = self.out, self.muts
        try:
            for k, v in enumerate(els):
                self.tick()
                cell[0] = g[0].items[k] if g and type(g[0]) is YList else v
                if not ordered:
                    self.out = []
                try:
                    if cond is None or not falsey(self.ev(cond, e2)):
                        r.append(f(e2))
                        if len(r) > 300:
                            raise Discard("stack: long comprehension")  # its elements are kept there
                except YErr:
                    if not ordered:
                        raise Discard("error in unordered comprehension")
                    raise
                self.guard_ok(g)
                if not ordered:
                    texts.append(cat(*self.out) if self.out else "")
        finally:
            self.out = saved
        if not ordered:
            if self.muts != muts:
                raise Discard("unordered comprehension with effects")
            if any(texts):
                self.out.append(unordered(texts, ""))
        return r, ordered

    def e_lcomp(self, e, env):
        _, x, n, it, cond = e
        r, ordered = self.comp_each(it, env, n, cond, lambda e2: self.ev(x, e2))
        return YBag(r) if not ordered and len(r) > 1 else YList(r)

    def e_tcomp(self, e, env):
        _, kx, vx, n, it, cond = e

        def pair(e2):
            k = self.ev(kx, e2)
            return k, self.ev(vx, e2)
        kv, ordered = self.comp_each(it, env, n, cond, pair)
        if not ordered and len({kkey(k) for k, _ in kv if hashable(k)}) != len(kv):
            raise Discard("unordered comprehension")
        return self.newtable(kv)

    # ------------------------------------------------------------ texts
    def text(self, v, seen=()):
        """What v is as a str."""
        t = type(v)
        if t is str or t is UText:
            return v
        if t in (Closure, Native):
            if self.fntext:
                return "<fn: ?>"
            raise Discard("text of a fn")
        if t is UPtr:
            raise Discard("address")
        if v is None:
            return "undef"
        if t is bool:
            return "true" if v else "false"
        if t is int:
            return str(v)
        if t is float:
            return ftext(v)
        r = self.call1(self.lookup(v, "tostr", "tostr not supported"), [v])
        if type(r) not in (str, UText):
            raise YErr(TYPE, "Could not stringify value")
        return r

    def raw_text(self, v, seen):
        """Lists and tables inside of lists and tables: their own text, whatever their metatable."""
        self.tick()
        if len(seen) > self.max_depth:
            raise Discard("depth")
        if type(v) is YList:
            if any(v is s for s in seen):
                return "[...]"
            seen = seen + (v,)
            return cat("[", *join([self.raw_text(x, seen) for x in v.items], ", "), "]")
        if type(v) is YBag:
            return cat("[", unordered([self.raw_text(x, seen + (v,)) for x in v.items], ", "), "]")
        if type(v) is YTable:
            if any(v is s for s in seen):
                return "{...}"
            seen = seen + (v,)
            items = []
            for k, x in list(v.d.values()):
                items.append(cat(self.text(k), ": ", self.raw_text(x, seen)))
            return cat("{", unordered(items, ", "), "}")
        return self.text(v)


def join(xs, sep):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return out


def numeq(a, b):
    if type(a) is type(b):
        return a == b
    return float(a) == float(b)


class _NF:
    pass


NOTFOUND = _NF()


# -------------------------------------------------------------------- natives
def need(ok):
    if not ok:
        raise YErr(TYPE, "arg")


def one(f):
    def g(it, a):
        return [f(it, *a)]
    return g


def _builtins():
    B = {}

    def m(typ, name, n, f):
        B.setdefault(typ, {})[name] = Native(typ + "." + name, n, f)

    def strs(*xs):
        for x in xs:
            need(isstr(x))

    # every method checks its receiver
    def is_t(typ):
        return {"str": isstr, "int": isint, "float": lambda v: type(v) is float, "bool": lambda v: type(v) is bool,
                "undef": lambda v: v is None, "list": lambda v: type(v) is YList,
                "table": lambda v: type(v) is YTable, "set": lambda v: type(v) is YSet}[typ]

    def meth(typ, name, n):
        def deco(f):
            chk = is_t(typ)

            def g(it, a):
                if YBag in map(type, a):
                    if type(a[0]) is YBag and name == "sort":
                        a[0].__class__ = YList
                    elif type(a[0]) is not YBag or name not in ("tostr", "__len"):
                        raise Discard("unordered list used")
                    else:
                        return f(it, *a)
                need(chk(a[0]))
                return f(it, *a)
            m(typ, name, n, g)
            return f
        return deco

    for t in ("undef", "bool", "int", "float", "str"):
        meth(t, "tostr", 1)(lambda it, a: [it.text(a)])
        meth(t, "tobool", 1)(lambda it, a: [not falsey(a)])
    meth("int", "toint", 1)(lambda it, a: [a])
    meth("int", "tofloat", 1)(lambda it, a: [float(a)])
    meth("float", "tofloat", 1)(lambda it, a: [a])

    @meth("float", "toint", 1)
    def _(it, a):
        if a != a or not -9.2e18 < a < 9.2e18:
            raise Discard("float out of int range")
        return [int(a)]

    # ---- str
    meth("str", "__len", 1)(lambda it, a: [len(a)])
    meth("str", "toint", 1)(lambda it, a: [str_toint(a)])
    meth("str", "tofloat", 1)(lambda it, a: [str_tofloat(a)])
    meth("str", "isalnum", 1)(lambda it, a: [all(c in ISAL or c in ISNUM for c in a)])
    meth("str", "isal", 1)(lambda it, a: [all(c in ISAL for c in a)])
    meth("str", "isnum", 1)(lambda it, a: [all(c in ISNUM for c in a)])
    meth("str", "isspace", 1)(lambda it, a: [all(c in WS for c in a)])
    meth("str", "toupper", 1)(lambda it, a: ["".join(c.upper() if c in ISAL else c for c in a)])
    meth("str", "tolower", 1)(lambda it, a: ["".join(c.lower() if c in ISAL else c for c in a)])

    @meth("str", "startswith", 2)
    def _(it, a, b):
        strs(b)
        return [a.startswith(b)]

    @meth("str", "endswith", 2)
    def _(it, a, b):
        strs(b)
        return [a.endswith(b)]

    @meth("str", "replace", 4)
    def _(it, a, s, r, mx):
        if mx is not None:
            need(isint(mx))
        strs(s, r)
        if s == "":
            raise YErr(VALUE, "replace")
        return [a.replace(s, r) if mx is None else a if mx <= 0 else a.replace(s, r, mx)]

    @meth("str", "search", 2)
    def _(it, a, b):
        strs(b)
        i = a.find(b)
        return [None if i < 0 else i]

    @meth("str", "count", 2)
    def _(it, a, b):
        strs(b)
        if b == "":
            raise YErr(VALUE, "count")
        return [a.count(b)]

    @meth("str", "split", 2)
    def _(it, a, b):
        if b is None:
            r, cur = [], ""
            for c in a + " ":
                if c in WS:
                    if cur:
                        r.append(cur)
                    cur = ""
                else:
                    cur += c
            return [YList(r)]
        strs(b)
        if b == "":
            raise YErr(VALUE, "split")
        return [YList(a.split(b))]

    def trim(left, right):
        def f(it, a, b):
            if b is None:
                if left:
                    a = a.lstrip(WS)
                if right:
                    a = a.rstrip(WS)
                return [a]
            strs(b)
            if b == "":
                raise YErr(VALUE, "trim")
            while left and a.startswith(b):
                a = a[len(b):]
            while right and a.endswith(b):
                a = a[:-len(b)]
            return [a]
        return f
    meth("str", "ltrim", 2)(trim(True, False))
    meth("str", "rtrim", 2)(trim(False, True))
    meth("str", "trim", 2)(trim(True, True))

    @meth("str", "__get", 2)
    def _(it, a, i):
        need(isint(i))
        if not -len(a) <= i < len(a):
            raise YErr(VALUE, "index")
        return [a[i]]

    @meth("str", "rep", 2)
    def _(it, a, n):
        need(isint(n))
        if n < 0:
            raise YErr(VALUE, "rep")
        if n * len(a) > 1 << 16:
            raise Discard("long rep")
        return [a * n]

    # ---- list
    meth("list", "__len", 1)(lambda it, a: [len(a.items)])

    @meth("list", "push", 2)
    def _(it, a, v):
        a.items.append(v)
        it.muts += 1
        return [a]

    meth("list", "copy", 1)(lambda it, a: [YList(it.cost(a).items)])

    @meth("list", "__add", 2)
    def _(it, a, b):
        need(type(b) is YList)
        if len(a.items) + len(b.items) > 20000:
            raise Discard("long list")
        return [YList(a.items + b.items)]

    @meth("list", "__eq", 2)
    def _(it, a, b):
        need(type(b) is YList)
        if len(a.items) != len(b.items):
            return [False]
        for x, y in zip(list(a.items), list(b.items)):
            r = it.eq(x, y)
            if type(r) is not bool:
                raise Discard("odd __eq")
            if not r:
                return [False]
        return [True]

    @meth("list", "pop", 1)
    def _(it, a):
        if not a.items:
            raise YErr(VALUE, "pop")
        it.muts += 1
        return [a.items.pop()]

    @meth("list", "__get", 2)
    def _(it, a, i):
        need(isint(i))
        if not -len(a.items) <= i < len(a.items):
            raise YErr(VALUE, "index")
        return [a.items[i]]

    @meth("list", "__set", 3)
    def _(it, a, i, v):
        need(isint(i))
        if not -len(a.items) <= i < len(a.items):
            raise YErr(VALUE, "index")
        a.items[i] = v
        it.muts += 1
        return [a]

    meth("list", "tostr", 1)(lambda it, a: [it.raw_text(a, ())])

    @meth("list", "search", 2)
    def _(it, a, v):
        r = None
        for i, x in enumerate(a.items):
            if it.plain_eq(x, v):
                r = i
        return [r]

    @meth("list", "count", 2)
    def _(it, a, v):
        return [sum(1 for x in a.items if it.plain_eq(x, v))]

    @meth("list", "reverse", 1)
    def _(it, a):
        a.items.reverse()
        it.muts += 1
        return []

    @meth("list", "clear", 1)
    def _(it, a):
        a.items.clear()
        it.muts += 1
        return []

    @meth("list", "join", 2)
    def _(it, a, s):
        strs(s)
        return [cat(*join([it.text(x) for x in a.items], s))]

    @meth("list", "sort", 1)
    def _(it, a):
        if all(isnum(x) for x in a.items):
            if any(x != x for x in a.items):
                raise Discard("sort nan")
            import functools
            def cmp(x, y):
                if type(x) is not type(y):
                    x, y = float(x), float(y)
                return (x > y) - (x < y)
            a.items.sort(key=functools.cmp_to_key(cmp))
            ks = a.items
            for x, y in zip(ks, ks[1:]):
                if numeq(x, y) and (type(x) is not type(y) or (type(x) is float and x == 0)):
                    raise Discard("sort: order of equal numbers")
        elif all(isstr(x) for x in a.items):
            a.items.sort()
        else:
            raise YErr(VALUE, "sort")
        it.muts += 1
        return []

    meth("list", "spread", 1)(lambda it, a: list(a.items) if len(a.items) <= 300 else give_up())

    @meth("list", "insert", 3)
    def _(it, a, i, v):
        need(isint(i))
        n = len(a.items)
        if not -n <= i <= n:
            raise YErr(VALUE, "insert")
        a.items.insert(i + n if i < 0 else i, v)
        it.muts += 1
        return [a]

    # ---- table
    meth("table", "__len", 1)(lambda it, a: [len(a.d)])

    @meth("table", "remove", 2)
    def _(it, a, k):
        if hashable(k):
            a.d.pop(kkey(k), None)
            it.muts += 1
        return [a]

    def tl(xs):
        return YBag(xs) if len(xs) > 1 else YList(xs)
    meth("table", "keys", 1)(lambda it, a: [tl([k for k, _ in it.cost(a).d.values()])])
    meth("table", "values", 1)(lambda it, a: [tl([v for _, v in it.cost(a).d.values()])])

    @meth("table", "copy", 1)
    def _(it, a):
        return [YTable(it.cost(a).d.values())]

    meth("table", "tostr", 1)(lambda it, a: [it.raw_text(a, ())])

    @meth("table", "__get", 2)
    def _(it, a, k):
        return [a.get(k) if hashable(k) else None]

    @meth("table", "__set", 3)
    def _(it, a, k, v):
        if v is None:
            if hashable(k):
                a.d.pop(kkey(k), None)
                it.muts += 1
            return [a]
        if not hashable(k):
            if type(k) is UText:
                raise Discard("unordered text used")
            raise YErr(TYPE, "key")
        a.d[kkey(k)] = (k, v)
        it.muts += 1
        return [a]

    @meth("table", "__bor", 2)
    def _(it, a, b):
        need(type(b) is YTable)
        return [YTable(list(a.d.values()) + list(b.d.values()))]

    @meth("table", "__eq", 2)
    def _(it, a, b):
        need(type(b) is YTable)
        if len(a.d) != len(b.d):
            return [False]
        res, errs = [], 0
        for kk, (k, v) in list(a.d.items()):
            if kk not in b.d:
                res.append(False)
                continue
            r = it.eq(v, b.d[kk][1])
            if type(r) is not bool:
                raise Discard("odd __eq")
            res.append(r)
        return [all(res)]

    @meth("table", "clear", 1)
    def _(it, a):
        a.d.clear()
        it.muts += 1
        return []

    # ---- set
    meth("set", "__len", 1)(lambda it, a: [len(a.d)])

    def settext(it, a):
        return [cat("set(", unordered([it.text(x) for x in a.d.values()], ", "), ")")]
    meth("set", "tostr", 1)(settext)
    meth("set", "tolist", 1)(lambda it, a: [tl(list(a.d.values()))])

    def setop(f):
        def g(it, a, b):
            need(type(b) is YSet)
            r = YSet()
            ks = f(a.d.keys(), b.d.keys())
            for d in (a.d, b.d):
                for k, v in d.items():
                    if k in ks:
                        r.put(v)
            return [r]
        return g
    meth("set", "__band", 2)(setop(lambda a, b: a & b))
    meth("set", "__bor", 2)(setop(lambda a, b: a | b))
    meth("set", "__bxor", 2)(setop(lambda a, b: a ^ b))
    meth("set", "__bandnot", 2)(setop(lambda a, b: a - b))

    def setcmp(f):
        def g(it, a, b):
            need(type(b) is YSet)
            return [f(set(a.d), set(b.d))]
        return g
    meth("set", "__eq", 2)(setcmp(lambda a, b: a == b))
    meth("set", "__lt", 2)(setcmp(lambda a, b: a < b))
    meth("set", "__le", 2)(setcmp(lambda a, b: a <= b))
    meth("set", "__gt", 2)(setcmp(lambda a, b: a > b))
    meth("set", "__ge", 2)(setcmp(lambda a, b: a >= b))

    @meth("set", "add", 2)
    def _(it, a, v):
        if v is None:
            raise Discard("undef in a set")
        if not hashable(v):
            raise YErr(TYPE, "key")
        a.put(v)
        it.muts += 1
        return [a]

    @meth("set", "remove", 2)
    def _(it, a, v):
        if v is None:
            raise Discard("undef in a set")
        if hashable(v):
            a.d.pop(kkey(v), None)
        it.muts += 1
        return [v]

    meth("set", "copy", 1)(lambda it, a: [YSet(it.cost(a).d.values())])

    @meth("set", "clear", 1)
    def _(it, a):
        a.d.clear()
        it.muts += 1
        return [a]

    @meth("set", "__get", 2)
    def _(it, a, v):
        if v is None:
            raise Discard("undef in a set")
        return [hashable(v) and kkey(v) in a.d]

    return B


_B = None


def builtins():
    global _B
    if _B is None:
        _B = _builtins()
    return _B


def mk_set(it, a):
    if len(a) == 1 and type(a[0]) is YList:
        a = a[0].items
    s = YSet()
    for x in a:
        if x is None:
            raise Discard("undef in a set")
        if not hashable(x):
            raise YErr(TYPE, "key")
    for x in a:
        s.put(x)
    return [s]


def mk_table(it, a):
    if len(a) % 2:
        a = a + [None]
    return [it.newtable(list(zip(a[::2], a[1::2])))]


def fl(f):
    def g(it, a):
        need(isnum(a[0]))
        return [f(float(a[0]))]
    return g


def minmax(sign):
    def g(it, a):
        best = -sign * math.inf
        raise Discard("minmax modelled in C24")
    return g


def version():
    from . import build
    try:
        with open(build.REPO + "/yasl.h") as f:
            return re.search(r'define YASL_VERSION "([^"]*)"', f.read()).group(1)
    except (OSError, AttributeError):
        return "v0.0.0"


def math_table():
    t = {}
    for n, f in CM.items():
        t[n] = Native("math." + n, 1, fl(f))

    def mabs(it, a):
        need(isnum(a[0]))
        return [wrap(abs(a[0])) if isint(a[0]) else abs(a[0])]
    t["abs"] = Native("math.abs", 1, mabs)
    r = YTable()
    for k, v in t.items():
        r.d[kkey(k)] = (k, v)
    for k, v in (("pi", math.pi), ("inf", math.inf), ("nan", math.nan)):
        r.d[kkey(k)] = (k, v)
    return r


def base_env(it):
    env = None
    coll = YTable([("set", Native("collections.set", -1, mk_set)),
                   ("list", Native("collections.list", -1, lambda i, a: [YList(a)])),
                   ("table", Native("collections.table", -1, mk_table))])

    def mtget(i, a):
        o = a[0]
        if isinstance(o, (YList, YTable, YSet, UD)) and o.mt is not None:
            return [o.mt]
        raise Discard("builtin metatable")

    def mtset(i, a):
        o, t = a
        need(type(t) is YTable)
        need(isinstance(o, (YList, YTable, YSet, UD)))
        o.mt = t
        i.muts += 1
        return [o]
    mt = YTable([("get", Native("mt.get", 1, mtget)), ("set", Native("mt.set", 2, mtset))])

    def req(i, a):
        raise Discard("require")
    for n, v in (("collections", coll), ("mt", mt), ("math", math_table()), ("io", None), ("require", None), ("__require_c__", None), ("__VERSION__", version())):
        env = (n, [v], env)
    return env
