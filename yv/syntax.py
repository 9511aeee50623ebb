"""Prints syntax trees (see model.py) as YASL source."""
import math
from .engine import Discard

BINPREC = {}
RIGHT = {"??", "||", "&&", "~", "**"}
for p, ops in ((1, ["??"]), (2, ["||"]), (3, ["&&"]), (4, ["==", "!=", "===", "!=="]), (5, ["<", ">", "<=", ">="]),
               (6, ["~"]), (7, ["|"]), (8, ["^"]), (9, ["&", "&^"]), (10, ["<<", ">>"]), (11, ["+", "-"]),
               (12, ["*", "/", "//", "%"]), (14, ["**"])):
    for o in ops:
        BINPREC[o] = p

NAMED = {7: "\\a", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v", 0: "\\0", 92: "\\\\"}


def strlit(s, quote="'"):
    out = [quote]
    for i, c in enumerate(s):
        o = ord(c)
        if c == quote or o in NAMED:
            # \0 followed by a digit is still \0: escapes have a fixed length
            out.append("\\" + c if c == quote else NAMED[o])
        elif quote == '"' and c == "#":
            out.append("\\x23")
        elif o < 32 or o > 126:
            out.append("\\x%02x" % o)
        else:
            out.append(c)
    return "".join(out) + quote


def floatlit(f):
    """Source text of a finite, non-negative float that denotes exactly it."""
    r = repr(f)
    if "e" in r:
        m, e = r.split("e")
        if "." not in m:
            m += ".0"
        return m + "e" + str(int(e))
    return r if "." in r else r + ".0"


def isneg(v):
    return (type(v) is int and v < 0) or (type(v) is float and (v < 0 or (v == 0 and math.copysign(1, v) < 0)))


def prec(e):
    k = e[0]
    if k == "bin":
        return BINPREC[e[1]]
    if k == "un":
        return 13
    if k == "tern":
        return 0
    if k == "lit":
        v = e[1]
        if type(v) is int and v == -(1 << 63):
            return 16
        if isneg(v):
            return 13
        if type(v) is float and (v != v or v == math.inf):
            return 15
        return 16
    if k in ("idx", "mem", "slice", "call", "mcall"):
        return 15
    if k == "fn":
        return 0
    return 16


class Printer:
    close = ""      # written before the ] or } of a literal that isn't empty

    def __init__(self, indent="  "):
        self.buf = []
        self.ln = 1
        self.lines = {}
        self.ind = 0
        self.indent = indent

    def w(self, t):
        self.buf.append(t)
        self.ln += t.count("\n")

    def text(self):
        return "".join(self.buf)

    # ---- expressions
    def e(self, x, p=0):
        if prec(x) < p:
            self.w("(")
            self.e1(x)
            self.w(")")
        else:
            self.e1(x)

    def lit(self, v):
        if v is None:
            self.w("undef")
        elif v is True:
            self.w("true")
        elif v is False:
            self.w("false")
        elif type(v) is int:
            self.w("(-9223372036854775807 - 1)" if v == -(1 << 63) else str(v))
        elif type(v) is float:
            if v != v:
                self.w("math.nan")
            elif v in (math.inf, -math.inf):
                self.w("math.inf" if v > 0 else "-math.inf")
            elif isneg(v):
                self.w("-" + floatlit(-v))
            else:
                self.w(floatlit(v))
        elif type(v) is str:
            self.w(strlit(v))
        else:
            raise AssertionError(v)

    def e1(self, x):
        k = x[0]
        if k == "lit":
            self.lit(x[1])
        elif k == "var":
            self.w(x[1])
        elif k == "bin":
            op = x[1]
            p = BINPREC[op]
            if op == "**":
                self.e(x[2], 15)
                self.w(" ** ")
                self.e(x[3], 13)
            elif op in RIGHT:
                self.e(x[2], p + 1)
                self.w(" " + op + " ")
                self.e(x[3], p)
            else:
                self.e(x[2], p)
                self.w(" " + op + " ")
                self.e(x[3], p + 1)
        elif k == "un":
            op = x[1]
            a = x[2]
            self.w(op)
            if op == "len" or a[0] == "un" or (a[0] == "lit" and prec(a) == 13):
                self.w(" ")
            self.e(a, 13)
        elif k == "tern":
            self.e(x[1], 1)
            self.w(" ? ")
            self.e(x[2], 1)
            self.w(" : ")
            self.e(x[3], 0)
        elif k == "list":
            self.w("[")
            self.seq(x[1])
            self.w(self.close if x[1] else "")
            self.w("]")
        elif k == "table":
            self.w("{")
            for i, (kk, v) in enumerate(x[1]):
                if i:
                    self.w(", ")
                if kk[0] == "dot":
                    self.w("." + kk[1])
                else:
                    self.e(kk, 1)
                self.w(": ")
                self.e(v, 1)
            self.w(self.close if x[1] else "")
            self.w("}")
        elif k == "dot":
            self.w("." + x[1])
        elif k == "paren":
            self.w("(")
            self.e(x[1], 0)
            self.w(")")
        elif k == "idx":
            self.target(x[1])
            self.w("[")
            self.e(x[2], 0)
            self.w("]")
        elif k == "mem":
            self.target(x[1])
            self.w("." + x[2])
        elif k == "slice":
            self.target(x[1])
            self.w("[")
            if x[2] is not None:
                self.e(x[2], 1)
            self.w(":")
            if x[3] is not None:
                self.e(x[3], 1)
            self.w("]")
        elif k == "call":
            self.target(x[1])
            self.w("(")
            self.seq(x[2])
            self.w(")")
        elif k == "mcall":
            self.target(x[1])
            self.w("->" + x[2] + "(")
            self.seq(x[3])
            self.w(")")
        elif k == "fn":
            self.w("fn(" + ", ".join(x[1]) + ") {\n")
            self.body(x[2])
            self.w("}")
        elif k == "interp":
            self.w('"')
            for part in x[1]:
                if isinstance(part, str):
                    self.w(strlit(part, '"')[1:-1])
                else:
                    self.w("#{")
                    self.e(part, 0)
                    self.w("}")
            self.w('"')
        elif k == "lcomp":
            self.w("[")
            self.e(x[1], 0)
            self.comp(x[2], x[3], x[4])
            self.w("]")
        elif k == "tcomp":
            self.w("{")
            self.e(x[1], 1)
            self.w(": ")
            self.e(x[2], 1)
            self.comp(x[3], x[4], x[5])
            self.w("}")
        else:
            raise AssertionError(k)

    def comp(self, n, it, cond):
        self.w(" for " + n + " <- ")
        self.e(it, 1)
        if cond is not None:
            self.w(" if ")
            self.e(cond, 0)

    def target(self, x):
        if x[0] == "lit" and type(x[1]) in (int, float):
            self.w("(")
            self.e1(x)
            self.w(")")
        else:
            self.e(x, 15)

    def seq(self, xs):
        for i, x in enumerate(xs):
            if i:
                self.w(", ")
            self.e(x, 0)

    # ---- statements
    def body(self, stmts):
        self.ind += 1
        for s in stmts:
            self.stmt(s)
        self.ind -= 1
        self.w(self.indent * self.ind)

    def stmt(self, s):
        self.w(self.indent * self.ind)
        start = self.ln
        self.s1(s)
        self.lines.setdefault(id(s), (start, self.ln))
        self.w("\n")

    def fnsig(self, params):
        self.w("(" + ", ".join(params) + ") {\n")

    def s1(self, s):
        k = s[0]
        if k in ("echo", "assert", "export"):
            self.w(k + " ")
            self.e(s[1])
        elif k in ("let", "const"):
            self.w(k + " " + s[1])
            if s[2] is not None:
                self.w(" = ")
                self.e(s[2])
        elif k == "mlet":
            self.w(", ".join(kw + " " + n for kw, n in s[1]) + " = ")
            self.seq(s[2])
        elif k == "assign":
            self.w(s[1] + " = ")
            self.e(s[2])
        elif k == "massign":
            for i, t in enumerate(s[1]):
                if i:
                    self.w(", ")
                self.e(t)
            self.w(" = ")
            self.seq(s[2])
        elif k == "aug":
            self.e(s[2])
            self.w(" " + s[1] + "= ")
            self.e(s[3])
        elif k == "setidx":
            self.e(("idx", s[1], s[2]))
            self.w(" = ")
            self.e(s[3])
        elif k == "setmem":
            self.e(("mem", s[1], s[2]))
            self.w(" = ")
            self.e(s[3])
        elif k == "expr":
            self.e(s[1])
        elif k == "if":
            for i, (c, b) in enumerate(s[1]):
                self.w("if " if i == 0 else " elseif ")
                start = self.ln
                self.e(c)
                self.lines[id(b)] = (start, self.ln)
                if i == 0:
                    self.lines[id(s)] = self.lines[id(b)]
                self.w(" {\n")
                self.body(b)
                self.w("}")
            if s[2] is not None:
                self.w(" else {\n")
                self.body(s[2])
                self.w("}")
        elif k == "while":
            self.w("while ")
            start = self.ln
            self.e(s[1])
            self.lines[id(s)] = (start, self.ln)
            self.w(" {\n")
            self.body(s[2])
            self.w("}")
        elif k == "cfor":
            start = self.ln
            self.w("for let " + s[1] + " = ")
            self.e(s[2])
            self.w("; ")
            self.e(s[3])
            self.w("; ")
            self.s1(s[4])
            self.lines[id(s)] = (start, self.ln)
            self.w(" {\n")
            self.body(s[5])
            self.w("}")
        elif k == "for":
            start = self.ln
            self.w("for " + s[1] + " <- ")
            self.e(s[2])
            self.lines[id(s)] = (start, self.ln)
            self.w(" {\n")
            self.body(s[3])
            self.w("}")
        elif k in ("break", "continue"):
            self.w(k)
        elif k == "return":
            self.w("return ")
            self.seq(s[1] or [("lit", None)])
        elif k == "fndecl":
            self.w(("const " if len(s) > 4 and s[4] else "") + "fn " + s[1])
            self.fnsig(s[2])
            self.body(s[3])
            self.w("}")
        elif k == "tfndecl":
            self.w("fn " + s[1] + "." + s[2])
            self.lines[id(s)] = (self.ln, 1 << 30)
            self.fnsig(s[3])
            self.body(s[4])
            self.w("}")
        elif k == "match":
            start = self.ln
            self.w("match ")
            self.e(s[1])
            self.lines[id(s)] = (start, self.ln)
            self.w(" {\n")
            self.ind += 1
            for pat, guard, b in s[2]:
                self.w(self.indent * self.ind)
                start = self.ln
                self.pat(pat)
                if guard is not None:
                    self.w(" if ")
                    self.e(guard)
                self.lines[id(b)] = (start, self.ln)
                self.w(" {\n")
                self.body(b)
                self.w("}\n")
            self.ind -= 1
            self.w(self.indent * self.ind + "}")
        elif k == "comment":
            self.w("# " + s[1])
        elif k == "raw":
            # text without effect
            self.w(s[1])
        else:
            raise AssertionError(k)

    def pat(self, p, paren=False):
        k = p[0]
        if k == "p*":
            self.w("*")
        elif k == "pbind":
            self.w(p[1] + " " + p[2])
        elif k == "ptype":
            self.w(p[1])
        elif k == "plit":
            v = p[1]
            if type(v) is int and v < 0 or isneg(v):
                self.w("-" + (str(-v) if type(v) is int else floatlit(-v)))
            else:
                self.lit(v)
        elif k == "palt":
            if paren:
                self.w("(")
            self.pat(p[1], p[1][0] == "palt")
            self.w(" | ")
            self.pat(p[2], False)
            if paren:
                self.w(")")
        elif k == "plist":
            self.w("[")
            for i, q in enumerate(p[1]):
                if i:
                    self.w(", ")
                self.pat(q)
            if p[2]:
                self.w(", ..." if p[1] else "...")
            self.w("]")
        elif k == "ptable":
            self.w("{")
            for i, (key, q) in enumerate(p[1]):
                if i:
                    self.w(", ")
                self.pat(key if isinstance(key, tuple) else ("plit", key))  # a tuple: not valid as a key
                self.w(": ")
                self.pat(q)
            if p[2]:
                self.w(", ..." if p[1] else "...")
            self.w("}")
        else:
            raise AssertionError(k)


def source(stmts):
    """-> (text, {id(stmt): (first line, last line)}): of the part before its first block; blocks of arms have an entry for the arm"""
    p = Printer()
    for s in stmts:
        p.stmt(s)
    return p.text(), p.lines


def expr(e):
    p = Printer()
    p.e(e)
    return p.text()
