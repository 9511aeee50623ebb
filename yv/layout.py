"""Writes the same program in other words: comments, spaces, newlines, terminators, literals spelled otherwise."""
import re
from . import syntax

MARK = "\x01"       # a newline may come here (before the end of a literal)

TOKEN = re.compile(r"""
 (?P<id>[A-Za-z_$][\w$]*)
|(?P<float>\d+\.\d+(?:e[+-]?\d+)?)
|(?P<int>\d+)
|(?P<str>'(?:[^'\\]|\\.)*')
|(?P<interp>")
|(?P<nl>\n)
|(?P<mark>\x01)
|(?P<ws>[ ]+)
|(?P<op>\.\.\.|<<=|>>=|===|!==|\*\*=|//=|&&=|&\^=|\|\|=|\?\?=|:=|\^=|\+=|-=|->|==|!=|~=|\*=|\*\*|/=|//|%=|<=|<<|<-|>=|>>|
   &=|&&|&\^|\|=|\|\||\?\?|[;()\[\]{}.,^+\-!~*/%<>=&|?:])
""", re.X)


def tokens(t, at=0, inner=False):
    """[(kind, text)]; an interpolated str is ('interp', [str or tokens])."""
    out, depth = [], 0
    while at < len(t):
        if inner and depth == 0 and t[at] == "}":
            return out, at
        m = TOKEN.match(t, at)
        assert m, t[at:at + 40]
        k, x = m.lastgroup, m.group()
        at = m.end()
        if k == "interp":
            parts, text = [], ""
            while t[at] != '"':
                if t[at] == "\\":
                    text += t[at:at + 2]
                    at += 2
                elif t.startswith("#{", at):
                    parts.append(text)
                    text = ""
                    sub, at = tokens(t, at + 2, True)
                    parts.append(sub)
                    at += 1
                else:
                    text += t[at]
                    at += 1
            parts.append(text)
            at += 1
            x = parts
        elif x in ("{", "(", "["):
            depth += 1
        elif x in ("}", ")", "]"):
            depth -= 1
        out.append((k, x))
    return out, at


ENDS = {")", "]", "}", "break", "continue", "undef", "true", "false"}
KEYWORDS = {"if", "elseif", "else", "while", "for", "fn", "return", "let", "const", "echo", "assert", "export", "len", "match"}


def ends(tok):
    """Does a newline after the token end a statement?"""
    k, x = tok
    if k == "op":
        return x in ENDS
    return not (k == "id" and x in KEYWORDS)


JUNK = ["", " ", "x", "echo 1", "*", "**", "/ ", "\"", "'", "`", "#", "#{", "}", "{", "(", ";", "\\", "\\n", "\xe9", "\xff", "\0",
        "0x", "//", "* /", "let", "\t", "??", "\r"]


def junk(s, nl=False):
    t = "".join(s.choice(JUNK + (["\n", "\n\n"] if nl else [])) for _ in range(s.many(0, 4, 60)))
    return t.replace("*/", "* /")


def block(s, nl=False):
    t = junk(s, nl)
    if nl and "\n" not in t:
        t += "\n"
    return "/*" + t + "*/"


def inline(s):
    """Trivia without newline, not empty."""
    k = s.draw(6)
    if k == 0:
        return " "
    if k == 1:
        return "\t"
    if k == 2:
        return "   "
    if k == 3:
        return " " + block(s)
    if k == 4:
        return " " + block(s) + " "
    return " " + block(s) + "\t" + block(s) + " "


def newline(s):
    """Trivia with a newline (that ends up at the start of a line)."""
    k = s.draw(6)
    if k == 0:
        return "\n"
    if k == 1:
        return "\n\n\t\n"
    if k == 2:
        return " # " + junk(s) + "\n"
    if k == 3:
        return "#" + junk(s) + "\n#" + junk(s) + "\n\n "
    if k == 4:
        return " \n" + block(s) + "\n"
    return "\n # " + junk(s) + "\n" + block(s, True) + "\n  "


def seps(s, digits):
    """Separators among digits."""
    if len(digits) < 1 or not s.chance(40):
        return digits
    out = digits[0]
    for c in digits[1:]:
        if s.chance(25):
            out += "_" * s.int(1, 2)
        out += c
    if s.chance(20):
        out += "_"
    return out


def intlit(s, v):
    k = s.draw(5)
    if k == 0:
        return str(v)
    if k == 1:
        return seps(s, "0" * s.draw(3) + str(v))
    if k == 2:
        d = "%x" % v
        d = "".join(c.upper() if s.chance(50) else c for c in d)
        return "0" + s.choice("xX") + ("_" if s.chance(20) else "") + seps(s, "0" * s.draw(3) + d)
    if k == 3:
        return "0" + s.choice("bB") + ("_" if s.chance(20) else "") + seps(s, "0" * s.draw(3) + "{:b}".format(v))
    return seps(s, str(v))


def floatlit(s, t):
    """Another spelling of the decimal number t (d.d[e..])."""
    k = s.draw(6)
    if k == 0:
        return t
    m = re.fullmatch(r"(\d+)\.(\d+)(?:e([+-]?\d+))?", t)
    a, b, e = m.group(1), m.group(2), int(m.group(3) or 0)
    if k == 1:
        b += "0" * s.int(1, 3)
    elif k == 2:
        a = "0" * s.int(1, 3) + a
    elif k == 3:
        # move the point to the left
        n = s.int(1, len(a) + 2)
        d = a.rjust(n + 1, "0")
        a, b, e = d[:-n], d[-n:] + b, e + n
    elif k == 4:
        n = s.int(1, len(b) + 2)
        d = b.ljust(n + 1, "0")
        a, b, e = a + d[:n], d[n:], e - n
    t = seps(s, a) + "." + seps(s, b)
    if e or s.chance(15):
        sign = "-" if e < 0 else s.choice(["", "+"])
        t += s.choice("eE") + sign + "0" * s.draw(2) + str(abs(e))
    return t


ESC = {7: "a", 8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 11: "v", 0: "0", 92: "\\", 39: "'", 34: '"', 35: "#"}


def strbody(s, v, quote):
    out = []
    for c in v:
        o = ord(c)
        must = c in ("\\", "\n") or c == quote or (quote == '"' and c == "#")
        k = s.draw(10)
        if k >= 8 or (must and o not in ESC):
            out.append(("\\x%02x" if s.draw(2) == 0 else "\\x%02X") % o)
        elif must or (k >= 5 and o in ESC):
            out.append("\\" + ESC[o])
        else:
            out.append(c)
    return "".join(out)


def strlit(s, v):
    k = s.draw(3)
    if k == 2 and "`" not in v:
        return "`" + v + "`"
    q = "'" if k == 0 else '"'
    return q + strbody(s, v, q) + q


UNESC = {v: chr(k) for k, v in ESC.items()}


def unescape(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "\\":
            if t[i + 1] == "x":
                out.append(chr(int(t[i + 2:i + 4], 16)))
                i += 4
            else:
                out.append(UNESC[t[i + 1]])
                i += 2
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


class Layout:
    def __init__(self, s, gaps=25, lits=25, ends=30, split=True, semi=True):
        self.s, self.gaps, self.lits, self.endp, self.split, self.semi = s, gaps, lits, ends, split, semi
        self.kinds = set()

    def token(self, tok, instr=False):
        k, x = tok
        s = self.s
        if k == "interp":
            out = []
            for p in x:
                if isinstance(p, str):
                    if p and s.chance(self.lits):
                        p = strbody(s, unescape(p), '"')
                        self.kinds.add("str")
                    out.append(p)
                else:
                    out.append("#{" + self.emit(p, instr=True) + "}")
            return '"' + "".join(out) + '"'
        if k in ("int", "float", "str") and s.chance(self.lits):
            self.kinds.add(k)
            if k == "int":
                return intlit(s, int(x))
            if k == "float":
                return floatlit(s, x)
            if not instr:
                return strlit(s, unescape(x[1:-1]))
            return "'" + strbody(s, unescape(x[1:-1]), "'") + "'"
        return x

    def gap(self, a, b, had, instr):
        """What goes between two tokens that had (or hadn't) a space between them."""
        s = self.s
        if not s.chance(self.gaps):
            return " " if had else ""
        word = lambda t: t[0] in ("id", "int", "float")
        if a[1] == "->" or a[1] == "." or b[1] == "." or b[1] == "->":
            if s.draw(2):
                return " " if had else ""
        if had and s.chance(30):
            # leave it out where the tokens stay apart
            br = lambda t: t[0] in ("str", "interp") or t[1] in ("(", ")", "[", "]", "{", "}", ",", ";")
            if br(a) or br(b) or (word(a) and b[0] == "op" and b[1][0] != "." and a[0] == "id") or \
                    (a[0] == "op" and word(b) and a[1] not in (".", "...")):
                self.kinds.add("tight")
                return ""
        if self.split and not instr and not ends(a) and s.chance(40):
            self.kinds.add("newline")
            return newline(s)
        self.kinds.add("space")
        return inline(s)

    def emit(self, toks, instr=False):
        s = self.s
        out = []
        prev, had = None, False
        i = 0
        while i < len(toks):
            k, x = toks[i]
            i += 1
            if k == "ws":
                had = True
                continue
            if k == "mark":
                if self.split and s.chance(40) and not instr:
                    self.kinds.add("literal newline")
                    out.append(newline(s) if s.chance(70) else " " + block(s, True))
                    prev = None
                continue
            if k == "nl":
                if prev is None:
                    out.append("\n")
                elif not ends(prev):
                    out.append(newline(s) if s.chance(self.endp) else "\n")
                elif not s.chance(self.endp):
                    out.append("\n")
                else:
                    j = s.draw(5) if self.semi else s.draw(2)
                    self.kinds.add("end%d" % j)
                    if j <= 1:
                        out.append(newline(s))
                    elif j == 2:
                        out.append(";")
                    elif j == 3:
                        out.append(" ;" + inline(s))
                    else:
                        out.append(";" + newline(s))
                prev, had = None, False
                # indentation
                if i < len(toks) and toks[i][0] == "ws":
                    out.append(toks[i][1])
                    i += 1
                continue
            tok = (k, x)
            if prev is not None:
                out.append(self.gap(prev, tok, had, instr))
            elif instr and s.chance(self.gaps):
                out.append(inline(s))
            out.append(self.token(tok, instr))
            prev, had = tok, False
        if instr and prev is not None and s.chance(self.gaps):
            out.append(inline(s))
        return "".join(out)


class MarkedPrinter(syntax.Printer):
    close = MARK


def program(stmts, s, **kw):
    """-> (text, kinds of changes made)"""
    p = MarkedPrinter()
    for st in stmts:
        p.stmt(st)
    toks, _ = tokens(p.text())
    l = Layout(s, **kw)
    text = l.emit(toks)
    if s.chance(30):
        text = newline(s) + text
        l.kinds.add("head")
    if s.chance(30):
        text += s.choice([" ", "# end", "/* end */", "\n\n", "\t", "# end\n", "/**/ # x"])
        l.kinds.add("tail")
    return text, l.kinds
