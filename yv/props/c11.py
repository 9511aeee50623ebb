"""C11: literals, comments, layout."""
import math, struct
from ..engine import Check
from .. import client, common, gen, layout, model, progen, syntax

WORDS = ["if", "for", "fn", "let", "len", "echo", "const", "match", "undef", "true", "in", "no", "do", "use", "int", "str", "a", "x1",
         "_", "$", "b0", "e5", "x", "list", "table", "break", "return", "else", "elseif", "assert", "export", "while"]
RESERVED = {"if", "for", "fn", "let", "len", "echo", "const", "match", "undef", "true", "false", "in", "no", "do", "use", "break",
            "return", "else", "elseif", "assert", "export", "while", "continue", "header", "global", "enum", "struct", "pragma",
            "yield", "ifdef", "elseifdef", "pure", "consteval", "constexpr", "constfold", "extern", "typename"}


def rawfloat(s):
    """A decimal number with a point: text."""
    k = s.draw(4)
    dig = lambda lo, hi: "".join(str(s.draw(10)) for _ in range(s.int(lo, hi)))
    if k == 0:
        return dig(1, 3) + "." + dig(1, 3)
    if k == 1:
        return dig(1, 20) + "." + dig(1, 20)
    if k == 2:
        return dig(1, 4) + "." + dig(1, 18) + "e" + str(s.int(-30, 30))
    return dig(1, 2) + "." + dig(1, 17) + "e" + str(s.int(-330, 308))


BAD = ["echo 'a\nb'\n", "echo 'abc", "echo \"abc\n", "echo `abc", "echo '\\q'\n", "echo '\\xg1'\n", "echo '\\x1'\n", "echo \"\\x\"\n",
       "echo 0x\n", "echo 0b\n", "echo 0xg\n", "echo 0b2\n", "/* x", "echo 1 /* x", "echo 1 /* *", "echo @\n", "echo 'a\\", "echo \"a#{1\"\n",
       "echo \"#{}\"\n", "echo 1 2\n", "echo in\n", "let global = 1\n", "echo 1;;\n"]


class C11(Check):
    id = "C11"
    technique = "property-based testing: respelled literals against their values; programs re-laid-out (metamorphic) against a reference interpreter"
    note = ("Random search: literals in every base, quote and escape; programs re-laid-out with comments, spaces, newlines, "
            "semicolons and parentheses. Newlines are put only where the lexer's rule (not after a token that can end a statement) "
            "or the literal grammar permits them.")
    rule = ("a case is a list of spelled literals, or a generated program in a changed layout; non-trivial: at least 3 literals or "
            "at least 3 kinds of change to the layout")
    quick = 90000
    thorough = 1200000

    def gen(self, s):
        k = s.weighted([(6, "lit"), (10, "layout"), (1, "bad")])
        return getattr(self, "gen_" + k)(s)

    def gen_bad(self, s):
        pre = "".join("echo %d\n" % i for i in range(s.draw(3)))
        return ("bad", pre + s.choice(BAD), None)

    def gen_lit(self, s):
        """Lines of source, each with what it prints."""
        src, want = [], []
        for i in range(s.int(1, 8)):
            k = s.draw(5)
            if k == 0:
                v = s.int(0, 1 << s.int(1, 63)) if s.chance(80) else s.choice([0, 1, (1 << 63) - 1, (1 << 62), 10, 255])
                v = min(v, (1 << 63) - 1)
                src.append(s.choice(["echo ", "echo 0 + ", "echo "]) + layout.intlit(s, v))
                want.append(str(v))
            elif k == 1:
                t = rawfloat(s)
                v = float(t)
                if math.isinf(v):
                    t, v = "1.5", 1.5
                sp = layout.floatlit(s, t)
                if v and (abs(v) > 1e300 or abs(v) < 1e-300):
                    sp = t
                it = model.Interp()
                src.append("echo " + sp)
                want.append(model.ftext(v))
                src.append("echo " + sp + " == " + syntax.floatlit(v))
                want.append("true")
            elif k in (2, 3):
                v = "".join(chr(s.draw(256)) if s.chance(40) else s.choice("abc09fF\\'\"`#{}xn \t/*") for _ in range(s.many(0, 12, 80)))
                sp = layout.strlit(s, v)
                src.append("echo " + sp)
                want.append(v.replace("\0", ""))
                src.append("echo len " + sp)
                want.append(str(len(v)))
                src.append("let s%d = %s\necho s%d == %s" % (i, sp, i, syntax.strlit(v)))
                want.append("true")
            else:
                n = s.choice(WORDS) + "".join(s.choice("aZ_$019ex") for _ in range(s.many(0, 8, 70)))
                if s.chance(10):
                    n += "q" * s.int(30, 300)
                j = s.draw(3)
                if j == 0 and n not in RESERVED and not any(("let " + n + " =") in x for x in src):
                    src.append("let %s = %d\necho %s" % (n, i, n))
                    want.append(str(i))
                elif j == 1:
                    src.append("let t%d = { .%s: %d }\necho t%d.%s" % (i, n, i, i, n))
                    want.append(str(i))
                else:
                    v = s.int(0, 99)
                    src.append("echo \"%s#{%s}%s#{'%s'}\"" % ("a" * s.draw(2), layout.intlit(s, v), "\\#{" * s.draw(2), n))
                    want.append(None)
                    src[-1], want[-1] = self.interp(s, v, n)
        return ("lit", "\n".join(src) + "\n", "".join(w + "\n" for w in want))

    @staticmethod
    def interp(s, v, n):
        src, want = '"', ""
        for _ in range(s.int(1, 4)):
            t = "".join(s.choice("ab\\'\"#{}`\n\0\xff ") for _ in range(s.draw(4)))
            src += layout.strbody(s, t, '"')
            want += t
            j = s.draw(4)
            if j == 0:
                src += "#{" + layout.intlit(s, v) + "}"
                want += str(v)
            elif j == 1:
                src += "#{'" + n + "'}"
                want += n
            elif j == 2:
                src += "#{ [" + str(v) + ", {'a': 1}, 'x}'] }"
                want += "[" + str(v) + ", {a: 1}, x}]"
            else:
                src += "#{" + str(v) + " ? `}` : '#{'}"
                want += "#{" if v is False else "}"
        return "echo " + src + '"', want.replace("\0", "")

    def gen_layout(self, s):
        g = progen.ProgGen(s, {"match": 6, "comp": 3}, size=s.int(4, 18))
        stmts = g.program(s.int(2, 7))
        if s.chance(30):
            stmts = parens(s, stmts)
        text, kinds = layout.program(stmts, s)
        return ("layout", text, (stmts, kinds))

    def show(self, case):
        return case[1]

    def test(self, case, env):
        kind, src, x = case
        r = env.run(client.EXEC, src)
        if kind == "layout":
            stmts, kinds = x
            it, st, _ = common.model_run(stmts)
            f = common.verdict(it, st, r)
            return f, ["layout"] + ["change:" + k for k in sorted(kinds)], len(kinds) >= 3 and len(it.out) > 0
        c = common.crashed(r)
        if c:
            return c, [], True
        if kind == "bad":
            if r.status != 4 or r.out or not r.err:
                return f"invalid: status {r.status}, output {r.out!r}, {r.err!r}", [], True
            return None, ["bad"], False
        out = common.latin(r.out)
        if out != x or r.status != 0 or r.err:
            a, b = x.split("\n"), out.split("\n")
            at = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
            return f"literal: line {at} of the output: expected {a[at:at + 1]!r}, got {b[at:at + 1]!r}; status {r.status}, {r.err!r}", [], True
        return None, ["lit"], x.count("\n") >= 3


def parens(s, x):
    """Redundant parentheses around some operands."""
    if isinstance(x, (list, tuple)):
        if x and x[0] == "lit":
            return ("paren", x) if s.chance(10) else x
        y = type(x)(parens(s, a) for a in x)
        if x and x[0] in ("bin", "un", "tern"):
            return ("paren", y) if s.chance(30) else y
        return y
    return x


check = C11()
