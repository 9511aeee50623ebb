"""The embedding API: a model of its calls, and generators of call sequences (for harness/apiops.inl)."""
import math, struct
from . import gen, model, syntax
from .engine import Discard
from .model import UD, UPtr, YList, YTable, YSet, Closure, Native, YErr, kkey, cat

LITS = ["", "a", "lit", "another literal", "__get", "x"]
TAGS = ["A", "B"]


def hexs(s):
    return s.encode("latin-1").hex() or "-"


def fhex(f):
    if f != f:
        return "nan"
    return "%016x" % struct.unpack("<Q", struct.pack("<d", f))[0]


def apitype(v):
    if type(v) is YSet:
        return "collections.set"
    return model.typename(v)


def custom(v):
    return isinstance(v, (YList, YTable)) and v.mt is not None


class Api:
    """Runs op lists on model values, building the log."""

    def __init__(self, blocks, fixed=(), max_steps=20000):
        self.it = model.Interp(max_steps=max_steps)
        self.blocks = blocks            # number -> [ops]
        self.globals = {}               # name -> cell
        self.order = []
        self.mts = {}
        self.uds = 0
        self.checks = []                # definitely reachable uds at each "dtors"
        self.errs = []                  # what stderr holds, in order (of print_err)
        self.present = set()
        self.env0 = None
        self.host = []
        self.statuses = []
        self.throwing = False           # a throwing call isn't allowed now
        self.natives = {}
        self.program = None
        self.libs = False
        self.cyclic = False
        self.calls = 0

    def log(self, *a):
        self.it.out.append(cat("@", *a, "\n"))

    def native(self, k, n):
        """Host function k."""
        if (k, n) not in self.natives:
            def f(it, args):
                self.calls += 1
                if self.calls > 400:
                    raise Discard("calls")
                if n < 0:
                    fixed = ~n
                    args = args + [None] * (fixed - len(args))
                    st = args[:fixed] + [len(args) - fixed] + args[fixed:]
                else:
                    st = list(args)
                return self.block(k, st, n)
            self.natives[k, n] = Native("host%d" % k, n, f)
        return self.natives[k, n]

    def block(self, k, stack, nargs):
        for op in self.blocks[k]:
            if op[0] == "ret":
                if op[1] > len(stack):
                    raise Discard("too few to return")
                return stack[len(stack) - op[1]:] if op[1] else []
            self.op(op, stack, nargs)
        return []

    # ------------------------------------------------------------ one call
    def show(self, v, d=0):
        if d > 8:
            return ".."
        t = type(v)
        if v is None:
            return "undef"
        if t is int:
            return str(v)
        if t is bool:
            return "true" if v else "false"
        if t is float:
            return "F" + fhex(v)
        if t is str:
            return "'" + hexs(v)
        if t is YList:
            if custom(v):
                raise Discard("len of a list with a metatable")
            return "[" + ",".join(self.show(x, d + 1) for x in v.items) + "]"
        if t is YTable:
            return "{" + ",".join(sorted(self.show(k, d + 1) + ":" + self.show(x, d + 1) for k, x in v.d.values())) + "}"
        if t is UD:
            return "U%d" % v.id
        if t is UPtr:
            return "P%d" % v.n
        return "<%s>" % apitype(v)

    def bits(self, v):
        t = type(v)
        return "".join("1" if b else "0" for b in (
            v is None, t is bool, t is int, t is float, t is str, t is YList, t is YTable,
            t is UD and v.tag == "A", t is UD and v.tag == "B", t is UPtr))

    def look(self, v):
        t = type(v)
        r = ["%d" % (v if t is int else 0), fhex(v) if t is float else "0" * 16, "1" if v is True else "0",
             hexs(v.split("\0")[0]) if t is str else "NULL"]
        if t is UD:
            r.append(str(v.id))
        elif t is YSet:
            r.append("?")
        if t is UPtr:
            r.append(str(v.n))
        return "look %s %s %s %s" % (self.code(v), apitype(v), self.bits(v), " ".join(r))

    def code(self, v):
        t = type(v)
        if v is None:
            return 0
        if t in (UD, YSet):
            return 14
        if t in (Closure, Native):
            return "F"
        return {float: 1, int: 2, bool: 3, str: 4, YList: 6, YTable: 8, UPtr: 13}[t]

    def reach(self):
        """ids of userdata that are certainly reachable."""
        ids, seen, todo = set(), set(), list(self.host) + [c[0] for c in self.globals.values()] + list(self.mts.values())
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if type(v) is UD:
                ids.add(v.id)
            if type(v) is YList:
                todo += v.items
            elif type(v) is YTable:
                todo += [x for _, x in v.d.values()]
            if isinstance(v, (UD, YList, YTable)) and v.mt is not None:
                todo.append(v.mt)
        return ids

    def ends_in(self, v, o):
        """v refers to o."""
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x is o:
                return True
            if id(x) in seen:
                continue
            seen.add(id(x))
            if type(x) is YList:
                todo += x.items
            elif type(x) is YTable:
                todo += [y for _, y in x.d.values()]
            if isinstance(x, (UD, YList, YTable)) and x.mt is not None:
                todo.append(x.mt)
        return False

    def op(self, op, st, nargs=0):
        o, it = op[0], self.it
        it.tick()
        if o == "undef":
            st.append(None)
        elif o in ("int", "float", "bool", "zstr", "lstr"):
            st.append(op[1].split("\0")[0] if o == "zstr" else op[1])
        elif o == "lit":
            st.append(LITS[op[1]])
        elif o == "ud":
            st.append(UD(self.uds, op[1]))
            self.uds += 1
        elif o == "uptr":
            st.append(UPtr(op[1]))
        elif o == "cfn":
            st.append(self.native(op[1], op[2]))
        elif o == "list":
            st.append(YList())
        elif o == "table":
            st.append(YTable())
        elif o == "pop":
            st.pop()
        elif o == "dup":
            st.append(st[-1])
            self.log("dup 0")
        elif o == "popint":
            v = st.pop()
            self.log("popint %d" % (v if type(v) is int else 0))
        elif o == "popfloat":
            v = st.pop()
            self.log("popfloat " + fhex(v if type(v) is float else 0.0))
        elif o == "popbool":
            self.log("popbool %d" % (st.pop() is True))
        elif o == "popcstr":
            v = st.pop()
            self.log("popcstr " + (hexs(v.split("\0")[0]) if type(v) is str else "NULL"))
        elif o == "popud":
            self.log("popud %d" % st.pop().id)
        elif o == "popuptr":
            self.log("popuptr %d" % st.pop().n)
        elif o == "look":
            self.log(self.look(st[-1]))
        elif o == "nlook":
            v = st[op[1]]
            r = "nlook %s %s %d %s %d" % (apitype(v), self.bits(v), v if type(v) is int else 0,
                                          fhex(v if type(v) is float else 0.0), v is True)
            if type(v) is UD:
                r += " %d" % v.id
            elif type(v) is YSet:
                r += " ?"
            self.log(r)
        elif o == "show":
            self.log("show ", self.show(st[-1]))
        elif o == "decl":
            self.declare(op[1])
            self.log("decl 0")
        elif o == "setg":
            if op[1] in self.globals:
                self.globals[op[1]][0] = st.pop()
                self.present.add(op[1])
                self.log("setg 0")
            else:
                self.log("setg 2")
        elif o == "initg":
            self.declare(op[1])
            self.globals[op[1]][0] = st.pop()
            self.present.add(op[1])
        elif o == "loadg":
            if op[1] in self.present:
                st.append(self.globals[op[1]][0])
                self.log("loadg 0")
            elif op[1] in self.globals and self.globals[op[1]][0] is not None:
                st.append(self.globals[op[1]][0])
                self.log("loadg 0")
            else:
                if op[1] in self.globals and self.program is not None:
                    raise Discard("declared global, perhaps assigned")
                self.log("loadg 2")
        elif o == "regmt":
            self.mts[op[1]] = st.pop()
            self.log("regmt 0")
        elif o == "loadmt":
            if op[1] in self.mts:
                st.append(self.mts[op[1]])
                self.log("loadmt 0")
            else:
                self.log("loadmt 2")
        elif o == "setmt":
            v = st[-1]
            if v is not None and type(v) is not YTable:
                self.log("setmt 5")
                return
            st.pop()
            if not isinstance(st[-1], (UD, YList, YTable, YSet)):
                self.log("setmt 5")
                return
            if v is not None and self.ends_in(v, st[-1]):
                self.cyclic = True
            st[-1].mt = v if v is not None else YTable()
            self.log("setmt 0")
        elif o == "tset":
            v, k = st.pop(), st.pop()
            t = st[-1]
            if type(t) is not YTable or not model.hashable(k):
                self.log("tset 5")
                return
            if v is None or k is None:
                raise Discard("undef in a table")
            if self.ends_in(v, t):
                self.cyclic = True
            t.d[kkey(k)] = (k, v)
            self.log("tset 0")
        elif o == "tnext":
            k = st.pop()
            if type(st[-1]) is not YTable:
                self.log("tnext 0")
                return
            d = st[-1].d
            if k is None and len(d) == 1:
                st.extend(next(iter(d.values())))
                self.log("tnext 1")
            elif not d or (len(d) == 1 and kkey(k) in d):
                self.log("tnext 0")
            else:
                raise Discard("order of a table")
        elif o == "len":
            v = st[-1]
            if type(v) is str:
                st[-1] = len(v)
            else:
                f = it.lookup(v, "__len", "len")
                st.pop()
                st.append(it.call1(f, [v]))
        elif o == "lget":
            v, i = st[-1], op[1]
            if type(v) is not YList:
                self.log("lget 5")
                return
            n = len(v.items)
            if i < -n or i >= n:
                raise YErr(model.VALUE)
            st.append(v.items[i])
            self.log("lget 0")
        elif o == "lpush":
            v = st.pop()
            if type(st[-1]) is not YList:
                self.log("lpush 5")
                return
            if self.ends_in(v, st[-1]):
                self.cyclic = True
            st[-1].items.append(v)
            self.log("lpush 0")
        elif o == "call":
            n = op[1]
            args = st[len(st) - n:]
            f = st[len(st) - n - 1]
            f = it.callee(f)
            r = it.call(f, args)
            del st[len(st) - n - 1:]
            st += r
            self.log("call %d" % len(r))
        elif o == "vargs":
            self.log("vargs %d" % st[~nargs])
        elif o == "err":
            self.errs.append(op[1])
        elif o == "throw":
            raise YErr(op[1])
        elif o == "badarg":
            self.errs.append("TypeError: f expected arg in position %d to be of type x, got arg of type y." % op[1])
        elif o == "chkint":
            self.check(st[op[1]], op[1], int, "int")
            self.log("chkint %d" % st[op[1]])
        elif o == "chkfloat":
            self.check(st[op[1]], op[1], float, "float")
            self.log("chkfloat " + fhex(st[op[1]]))
        elif o == "chkbool":
            self.check(st[op[1]], op[1], bool, "bool")
            self.log("chkbool %d" % st[op[1]])
        elif o == "chkundef":
            self.check(st[op[1]], op[1], type(None), "undef")
            self.log("chkundef")
        elif o == "chkud":
            v = st[op[1]]
            if type(v) is not UD or v.tag != op[2]:
                self.check(v, op[1], (), "tag")
            self.log("chkud %d" % v.id)
        elif o == "log":
            self.log("log " + op[1])
        elif o == "dtors":
            self.checks.append(self.reach())
        elif o == "src":
            self.program = op[1]
            self.source = None
        elif o in ("exec", "compile"):
            prog = self.program
            if o == "compile" or prog is None:
                self.log(o + " 0")
                return
            self.log_exec(prog)
        elif o == "libs":
            self.libs = True
            self.it.builtin = model.builtins()
        else:
            raise AssertionError(o)

    def check(self, v, n, typ, name):
        if type(v) is not typ:
            self.errs.append("TypeError: f expected arg in position %d to be of type %s, got arg of type %s." % (n, name, apitype(v)))
            raise YErr(model.TYPE)

    def declare(self, name):
        if name not in self.globals:
            self.globals[name] = [None]
            self.order.append(name)

    def env(self):
        if self.env0 is None:
            self.env0 = model.base_env(self.it)
        e = self.env0
        for n in self.order:
            e = (n, self.globals[n], e)
        return e

    def log_exec(self, prog):
        src, lines = syntax.source(prog)
        self.it.line = lines
        st = self.it.run(prog, self.env())
        self.it.depth = 0
        self.it.in_native = 0
        self.it.trace = []
        if st > 1 and getattr(self.it.err, "msg", ""):
            self.errs.append(None)
        self.statuses.append(st)
        self.log("exec %d" % st)

    def expected(self):
        return cat(*self.it.out) if self.it.out else ""


def op_text(op):
    o = op[0]
    if o in ("zstr", "lstr", "decl", "setg", "initg", "loadg", "regmt", "loadmt", "err"):
        return "%s %s" % (o, hexs(op[1]))
    if o == "float":
        return "float %016x" % struct.unpack("<Q", struct.pack("<d", op[1]))[0]
    if o == "bool":
        return "bool %d" % op[1]
    if o == "src":
        return "src " + hexs(op[1] if isinstance(op[1], str) else syntax.source(op[1])[0])
    return " ".join(str(x) for x in op)


def text(blocks):
    out = []
    for k, ops in sorted(blocks.items()):
        out.append("B %d" % k)
        out += [op_text(o) for o in ops]
    return "\n".join(out) + "\n"


def show(blocks):
    out = []
    for k, ops in sorted(blocks.items()):
        out.append("host:" if k == 0 else "host function %d:" % k)
        for o in ops:
            if o[0] == "src":
                src = o[1] if isinstance(o[1], str) else syntax.source(o[1])[0]
                out += ["  src"] + ["  | " + l for l in src.split("\n")]
            else:
                out.append("  " + " ".join(repr(x) if i else str(x) for i, x in enumerate(o)))
    return "\n".join(out)


def compare(api, r):
    """None, or how the run differs from what the model logged."""
    from . import common
    c = common.crashed(r)
    if c:
        return c
    out = common.latin(r.out)
    lines, checks, end = [], [], None
    for l in out.split("\n"):
        if l.startswith("@dtors"):
            checks.append(parse_dtors(l))
        elif l.startswith("@end"):
            end = parse_dtors(l)
        else:
            if l.startswith("@look 1") and " fn " in l[:16]:
                # which of the kinds of fn it is
                l = "@look F" + l[8:]
            elif l.startswith("@look 5"):
                l = "@look 4" + l[7:]
            lines.append(l)
    got = "\n".join(lines)
    want = api.expected()
    if not model.matches(want, got):
        w = model.show_text(want)
        i = 0
        while i < min(len(w), len(got)) and w[i] == got[i]:
            i += 1
        a = w.rfind("\n", 0, i) + 1
        return f"output: expected ...{w[max(0, a - 60):i + 200]!r}, got ...{got[max(0, a - 60):i + 200]!r} ({r.err[-300:]!r})"
    if end is None:
        return "end: no log of destructors"
    for i, n in end.items():
        if n != 1:
            return f"destructor: of userdata {i} ran {n} times"
    if not api.cyclic:
        for i in range(api.uds):
            if i not in end:
                return f"destructor: of userdata {i} never ran"
    for reach, gone in zip(api.checks, checks):
        bad = reach & set(gone)
        if bad:
            return f"destructor: of userdata {sorted(bad)} ran while reachable"
    if len(checks) != len(api.checks):
        return f"output: {len(checks)} logs of destructors, expected {len(api.checks)}"
    err = common.latin(r.err)
    at = 0
    for e in api.errs:
        if e is None:
            continue
        i = err.find(e + " (line ", at)
        if i < 0:
            return f"stderr: expected {e!r}, got {err[-400:]!r}"
        at = i + len(e)
    return None


def parse_dtors(l):
    return {int(a): int(b) for a, b in (x.split(":") for x in l.split()[1:])}


# ---------------------------------------------------------------- generators
GNAMES = ["g", "gg", "x_1", "a_rather_long_name_of_a_global", "never"]
MTNAMES = ["m", "mt2", "nope"]
SCALAR = ["int", "float", "bool", "str", "undef"]
PUSH = {"int": "int", "float": "float", "bool": "bool"}


def gstr(s):
    return gen.gstr(s, 8, 20)


def pushes(s, deep=2):
    """(ops, static type) that push some value."""
    k = s.draw(100)
    if k < 16:
        return [("int", gen.gint(s))], "int"
    if k < 28:
        return [("float", gen.gfloat(s))], "float"
    if k < 36:
        return [("bool", s.chance(50))], "bool"
    if k < 44:
        return [("undef",)], "undef"
    if k < 50:
        return [("lit", s.draw(len(LITS)))], "str"
    if k < 64:
        return [(s.choice(["lstr", "zstr"]), gstr(s))], "str"
    if k < 74:
        t = s.choice(TAGS)
        return [("ud", t)], "ud" + t
    if k < 78:
        return [("uptr", s.draw(8))], "uptr"
    if deep == 0:
        return [("int", s.int(0, 9))], "int"
    if k < 90:
        ops = [("list",)]
        for _ in range(s.many(0, 4, 65)):
            ops += pushes(s, deep - 1)[0] + [("lpush",)]
        return ops, "list"
    ops = [("table",)]
    for _ in range(s.many(0, 4, 65)):
        v, t = pushes(s, deep - 1)
        if t == "undef":
            v = [("int", 0)]
        ops += key(s) + v + [("tset",)]
    return ops, "table"


def key(s):
    k = s.draw(10)
    if k < 5:
        return [("lit", s.draw(len(LITS)))] if s.chance(50) else [("zstr", s.choice("abcdefgh") + "k")]
    if k < 8:
        return [("int", s.int(-3, 9))]
    if k == 8:
        return [("float", s.int(1, 9) / 2)]
    return [("bool", s.chance(50))] if s.chance(60) else [("uptr", s.draw(3))]


def block_ops(s, nargs, callables, n):
    """A body for a host function: (ops, types it returns, whether it can't throw)."""
    st = ["?"] * nargs if nargs >= 0 else ["?"] * ~nargs + ["int"]
    lo = len(st)
    ops, safe = [], True
    ops.append(("log", "in"))
    if nargs < 0:
        ops.append(("vargs",))
    for i in range(min(lo, 3)):
        if s.chance(50):
            ops.append(("nlook", i))
    for _ in range(n):
        k = s.draw(100)
        if k < 30:
            o, t = pushes(s)
            ops += o
            st.append(t)
        elif k < 36 and st:
            ops.append(("dup",))
            st.append(st[-1])
        elif k < 42 and st:
            ops.append(("look",))
        elif k < 47 and st and nargs >= 0:
            ops.append(("nlook", s.draw(len(st))))
        elif k < 58 and st:
            t = st.pop()
            o = {"udA": "popud", "udB": "popud", "uptr": "popuptr"}.get(t) if s.chance(60) else None
            ops.append((o or s.choice(["pop", "popint", "popfloat", "popbool", "popcstr"]),))
        elif k < 64 and st and st[-1] != "?":
            ops.append(("show",))
            safe = safe and st[-1] not in ("list", "table")
        elif k < 70 and len(st) >= 2:
            ops.append(("lpush",))
            st.pop()
        elif k < 74 and st:
            ops.append(("setg", "g"))
            st.pop()
        elif k < 78:
            ops += [("decl", "gg"), ("int", s.int(0, 9)), ("setg", "gg"), ("loadg", "gg")]
            st.append("?")
        elif k < 82 and st:
            ops.append(("len",))
            if st[-1] not in ("str", "list", "table"):
                safe = False
            st[-1] = "?"
            if nargs < 0:
                pass
        elif k < 86 and st and st[-1] == "list":
            ops.append(("lget", s.int(-2, 2) if not s.chance(10) else gen.far(s, s.int(-2, 2))))
            safe = False
            st.append("?")
        elif k < 90 and callables:
            c = s.choice(callables)
            ops.append(("cfn", c["k"], c["n"]))
            m = s.int(0, 3)
            for _ in range(m):
                ops += pushes(s, 1)[0]
            ops.append(("call", m))
            st += c["ret"]
            safe = safe and c["safe"]
        elif k < 94 and st and nargs >= 0:
            i = s.draw(len(st))
            o = s.choice(["chkint", "chkfloat", "chkbool", "chkundef", "chkud"])
            ops.append((o, i, s.choice(TAGS)) if o == "chkud" else (o, i))
            safe = False
        elif k < 96 and st and s.chance(60):
            if s.chance(60):
                ops.append(("err", "Oops " + s.choice("abc") * s.int(1, 9)))
                if s.chance(30):
                    safe = False
                    continue
            ops.append(("throw", s.choice([2, 3, 4, 5, 6, 7, 8, 10, 11, 42, 200])))
            safe = False
            break
        elif len(st) >= 2 and st[-2] == "table" and s.chance(60):
            # takes what is on top as the value
            if st[-1] in ("int", "str", "float", "list", "udA", "udB", "bool"):
                t = st.pop()
                ops += [("setg", "tmp"), *key(s), ("loadg", "tmp"), ("tset",)]
    r = min(len(st), s.weighted([(3, 1), (2, 2), (2, 0), (1, 3)]))
    if nargs < 0 and r:
        r = min(r, max(0, len(st) - lo))
    ops.append(("ret", r))
    return ops, st[len(st) - r:] if r else [], safe


class ApiGen:
    def __init__(self, s, nfns=3, fnsize=8, **kw):
        self.s = s
        self.base = 0          # of the stack, that is left alone
        self.fns = []
        blocks = {}
        for k in range(1, nfns + 1):
            n = s.choice([0, 1, 2, 3, -1, -2, -3])
            ops, ret, safe = block_ops(s, n, self.fns, s.int(0, fnsize))
            blocks[k] = ops
            self.fns.append({"k": k, "n": n, "ret": ret, "safe": safe})
        self.blocks = blocks
        self.ops = []
        self.api = Api(blocks, **kw)
        self.st = self.api.host
        self.emit(("decl", "tmp"))
        self.emit(("decl", "g"))

    def emit(self, op):
        self.api.op(op, self.st)
        self.ops.append(op)

    def try_(self, op):
        """If it's known not to be out of order."""
        self.emit(op)

    def showable(self):
        try:
            self.api.show(self.st[-1])
            return True
        except Discard:
            return False

    def step(self):
        s, st = self.s, self.st
        k = s.draw(100)
        if len(st) > self.base + 40:
            k = 60
        if k < 24:
            for o in pushes(s)[0]:
                self.emit(o)
        elif k < 28 and st:
            self.emit(("dup",))
        elif k < 33 and st:
            self.emit(("look",))
        elif k < 39 and st:
            self.emit(("nlook", s.draw(len(st))))
        elif k < 45 and st:
            if self.showable():
                self.emit(("show",))
        elif k < 52 and st:
            t = type(st[-1])
            o = {UD: "popud", UPtr: "popuptr"}.get(t) if s.chance(60) else None
            self.emit((o or s.choice(["pop", "popint", "popfloat", "popbool", "popcstr"]),))
        elif k < 56 and len(st) >= 2:
            if not self.api.ends_in(st[-1], st[-2]):
                self.emit(("lpush",))
        elif k < 59 and len(st) >= 3:
            v, kk, t = st[-1], st[-2], st[-3]
            if v is not None and kk is not None and not (type(kk) is float and (kk != kk or kk == 0)) \
                    and not self.api.ends_in(v, t) and not self.api.ends_in(v, kk):
                self.emit(("tset",))
        elif k < 61 and len(st) >= 2:
            kk, t = st[-1], st[-2]
            d = t.d if type(t) is YTable else {}
            if type(t) is not YTable or not d or (len(d) == 1 and (kk is None or (model.hashable(kk) and not (
                    type(kk) is float and kk != kk) and kkey(kk) in d))):
                if type(t) is not YTable or kk is None or d:
                    self.emit(("tnext",))
        elif k < 64 and st:
            v = st[-1]
            if type(v) is str or (isinstance(v, (YList, YTable)) and not custom(v)):
                self.emit(("len",))
        elif k < 68 and st:
            v = st[-1]
            if type(v) is not YList:
                self.emit(("lget", s.int(-2, 2)))
            elif v.items:
                n = len(v.items)
                self.emit(("lget", s.int(-n, n - 1)))
        elif k < 78:
            j = s.draw(8)
            n = s.choice(GNAMES)
            if j < 2:
                self.emit(("decl", n if n != "never" else "g"))
            elif j < 5 and st:
                self.emit(("setg", n))
            elif j < 6 and st:
                self.emit(("initg", n if n != "never" else "g"))
            elif n not in self.api.globals or n in self.api.present or self.api.program is None:
                self.emit(("loadg", n))
        elif k < 85:
            j = s.draw(6)
            n = s.choice(MTNAMES)
            if j == 0:
                for o in pushes_mt(s, self.fns):
                    self.emit(o)
            elif j == 1 and st and n != "nope":
                self.emit(("regmt", n))
            elif j == 2:
                self.emit(("loadmt", n))
            elif j >= 3 and len(st) >= 2:
                mt = st[-1]
                if j == 3 or mt is None or (type(mt) is YTable):
                    o = st[-2]
                    if mt is None or not self.api.ends_in(mt, o):
                        self.emit(("setmt",))
        elif k < 92 and self.fns:
            c = s.choice(self.fns)
            self.emit(("cfn", c["k"], c["n"]))
            if c["safe"] and s.chance(70):
                m = s.int(0, 3)
                for _ in range(m):
                    for o in pushes(s, 1)[0]:
                        self.emit(o)
                self.emit(("call", m))
        elif k < 94:
            self.emit(("dtors",))
        else:
            self.run(self.script())

    def run(self, prog):
        self.emit(("src", prog))
        if self.s.chance(15):
            self.emit(("compile",))
            return
        self.emit(("exec",))

    def script(self):
        s = self.s
        fns = []
        for c in self.fns:
            n = "h%d" % c["k"]
            if n not in self.api.globals:
                self.emit(("cfn", c["k"], c["n"]))
                self.emit(("initg", n))
            fns.append((n, c))
        out = []
        vs = [n for n in GNAMES if n in self.api.globals]
        local = 0

        def val():
            k = s.draw(10)
            if k < 4 and vs:
                return ("var", s.choice(vs))
            if k < 8:
                return ("lit", gen.scalar(s, s.choice(SCALAR)))
            if k == 8:
                return ("list", [("lit", gen.scalar(s, s.choice(SCALAR))) for _ in range(s.draw(3))])
            return ("table", [(("lit", s.choice(["a", "b", 1])), ("lit", s.int(0, 9))) for _ in range(s.draw(3))])

        def call():
            if not fns:
                return ("list", [val()]), {"ret": ["list"]}
            n, c = s.choice(fns)
            args = [val() for _ in range(s.many(0, 4, 65))]
            if s.chance(15):
                n2, _ = s.choice(fns)
                args.append(("call", ("var", n2), [val()]))
            return ("call", ("var", n), args), c
        for _ in range(s.int(1, 5)):
            e, c = call()
            k = s.draw(10)
            if k < 2:
                out.append(["expr", e])
            elif k < 5:
                t = c["ret"][0] if c["ret"] else "undef"
                out.append(["echo", e] if t in SCALAR else ["expr", e])
            elif k < 8:
                local += 1
                out.append(["let", "v%d" % local, e])
                vs.append("v%d" % local)
            elif k == 8:
                local += 2
                out.append(["mlet", [("let", "v%d" % (local - 1)), ("let", "v%d" % local)], [e]])
                vs += ["v%d" % (local - 1), "v%d" % local]
            else:
                g = [n for n in GNAMES if n in self.api.globals]
                if g:
                    out.append(["assign", s.choice(g), val() if s.chance(50) else e])
        return out

    def finish(self):
        self.blocks[0] = self.ops
        return self.blocks


def pushes_mt(s, fns):
    """A table that can be a metatable."""
    ops = [("table",)]
    for name in ["x", "__get", "__len", "m"]:
        if s.chance(35):
            if fns and s.chance(60):
                c = s.choice(fns)
                v = [("cfn", c["k"], c["n"])]
            else:
                v = [("int", s.int(0, 9))]
            ops += [("lstr", name), *v, ("tset",)]
    return ops
