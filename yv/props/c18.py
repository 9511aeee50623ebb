"""C18: any bytes are safe to run as source, and what isn't a program is refused."""
import re
from ..engine import Check
from .. import client, common, progen, syntax

TOKENS = ("echo fn let const if elseif else while for break continue return match undef true false assert export len "
          "<- -> ... .. . == === !== != ! ** * // / /* */ # #{ } { ?? ? : ??= &^= &^ &= && || << >> <<= ~ ~= | |= ^ % [ ] ( ) , ; "
          "\n \n \n x y z f .x 0 1 1.5 0x1f 0b11 1e5 'a' \"b\" \"c#{x}d\" `r` '\\x41' '\\n' '\\q' \" ' ` \\ @ $ int list table str bool float "
          "x->y(1) fn(a){return\ta\n} const\tfn in use header := += -- ++ => 9223372036854775808 1__2 0x 0b 1.e 1e 0xg '\n' \x00 \xff").split(" ")
TOKENS = [t.replace("\t", " ") for t in TOKENS]

SNIPPETS = [
    "let a, b = 1, 2\na, b = b, a\necho a\n", "match [1, 2] {\n[let x, ...] if x > 0 { echo x\n }\n{.a: *, ...} | int { echo 2\n }\n* { }\n}\n",
    "let q = {x: [y, 1] for y <- [1, 2] if y > 1}\n", "for let i = 0; i < 3; i += 1 {\n echo i\n continue\n}\n",
    "const fn f(a, const b) {\n return a, b\n}\necho f(1, 2)\n", "let t = {'a': {.b: 2}, .c: 3}\nfn t.go(x) {\n return x\n}\nt.a.b ??= t->go()\n",
    "echo \"a#{1 + [2][0]}b#{'c'}\\n\\t\\x41\"\n", "echo `raw\n#{x}`[1:][:2]\n", "/* block\n comment */ # line\necho 0x_ff + 0b1_0 // 3\n",
    "while true { if false { break\n } else { break\n } }\nassert 1 == 1\n", "let s = 'it\\'s' ~ \"q\\\"\" ~ '\\0'\n", "export {.a: 1}\n",
    "echo true ? 1 : false ? 2 : 3\necho len 'abc' ** -2\n", "match 'a' { 'a' | 'b' | -1 | -1.5 | undef | true { } }\n",
    "let g = fn(x) { return fn() { return x; }; }\necho g(1)()\n", "if 1 { } elseif 2 { } else { }\n", "x.y.z[1][2](3)->w(4)[:] = 5\n",
]

# No program: wherever a statement can be.
BAD = [
    "echo", "echo 1 +", "echo (1", "echo [1, 2", "echo {1: 2", "echo 'abc", 'echo "abc', 'echo "a#{1"', 'echo "a#{1', "echo @",
    "echo $x", "echo 1 2", "let if = 3", "let 1 = 2", "1 = 2", "f9() = 3", "x9 y9 z9", "const q9 = 1; q9 = 2", "let q9 = 1; let q9 = 2", "const q9 = 1; let q9 = 2",
    "echo undeclared_q9", "undeclared_q9 = 1", "undeclared_q9 += 1", "fn () {", "echo 1 }", ")", "echo ]", "else { }", "elseif true { }", "for x9 { }",
    "for let i9 = 0; i9 < 1 { }", "match 1 { q9 { } }", "match 1 { \"#{1}\" { } }", "echo '\\q'", "echo '\\x4'", "echo '\\xgg'", "echo [1,]", "echo {1}", "echo {1:}",
    "echo [1 2]", "fn f9(1) { }", "fn f9(a {\n }", "echo fn { }", "let q9 = [1, 2][", "echo 1 ? 2", "echo 1 ? 2 :", "echo 'a'->5()", "echo 'a'.5", "echo 'a'.(f(1, 2))",
    "while { }", "while true", "if true echo 1", "if { }", "header = 1", "let in = 2", "use x9", "match 1 {\n1 }", "match 1 {\nlet a9 | let b9 { }\n}", "echo **2", "echo 1 // * 2",
    "let a9, 2 = 1, 2", "assert", "const c9", "let l9 = ", "for x9 <- { }", "for x9 <- [1]", "echo -", "echo len", "echo !", "echo 1 ==", "echo = 1", "a9 ->", "fn a9.(x) { }",
    "fn a9.b.c(x) { }", "(x9 = 1)", "echo (1, 2)", "echo [1 for]", "echo [1 for x9 <-]", "echo [x9 for x9 <- [1] if]", "echo {1: 2 for y9}", "echo {1 for y9 <- [1]}",
    "\x00", "echo \x01", "\x7f\x80", "echo \xff1", "match 1 {\n[..] { }\n}", "match 1 {\n[..., 1] { }\n}", "match 1 {\n{1} { }\n}", "match 1 {\n-'a' { }\n}", "echo 'a\nb'", "let q9 = 1 let r9 = 2",
    "fn f9() { const z9 = 1; z9 = 2; }", "fn f9(const z9) { z9 = 2; }", "fn f9() { let z9 = 1; let z9 = 2; }", "echo fn(x9) { return y9; }", "for const z9 <- [1] { }", "echo 1;; echo 2",
    "fn f9() { fn g9() { return undeclared_q9; }; }", "{ echo 1; ", "echo x9..y9", "echo 0x", "echo 0b2", "echo 1=1", "let q9 = fn", "break 1", "return", "echo \"#{}\"", "echo \"#{1 2}\"",
]
BAD_TOP = ["return 1", "break", "continue", "return 1, 2", "if true { break; }"]
BAD_IN = ["export 1"]  # except at the top


def brackets(src):
    """Places inside an unclosed bracket, str or comment (of well-formed source)."""
    out, depth, i, n = [], 0, 0, len(src)
    while i < n:
        c = src[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c in "'`":
            j = i + 1
            while src[j] != c:
                j += 2 if src[j] == "\\" and c == "'" else 1
            out.extend(range(i + 1, j + 1))
            i = j
        elif c == '"':
            # an interpolated one can hold anything: all of it is inside
            j, d = i + 1, 0
            while src[j] != '"' or d:
                if d:
                    if src[j] in "'\"`":
                        return out  # too hard for this scanner
                    d += (src[j] == "{") - (src[j] == "}")
                    j += 1
                elif src[j] == "\\":
                    j += 2
                elif src[j] == "#" and src[j + 1] == "{":
                    d, j = 1, j + 2
                else:
                    j += 1
            out.extend(range(i + 1, j + 1))
            i = j
        elif src.startswith("/*", i):
            j = src.index("*/", i)
            out.extend(range(i + 2, j + 1))
            i = j + 1
        elif c == "#":
            while i < n and src[i] != "\n":
                i += 1
            continue
        i += 1
        if depth > 0:
            out.append(i)
    return out


def blocks_of(x, out):
    """All blocks (non-empty lists of statements) within x."""
    if isinstance(x, (list, tuple)):
        if isinstance(x, list) and x and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x):
            out.append(x)
        for e in x:
            blocks_of(e, out)
    return out


class C18(Check):
    id = "C18"
    technique = "property-based fuzzing: random, mutated, truncated and known-invalid sources under sanitizers, with an oracle on status and output"
    note = ("Random search under AddressSanitizer and bounds checks. That a source is refused is required of truncations inside a bracket, str or "
            "comment, and of generated programs with one of ~150 known errors planted at a random place; for other bytes only that compiling "
            "and running agree, and that a refused source prints a message and has no effect.")
    rule = ("sources: a third each random tokens and bytes, mutated programs, and programs made invalid; up to ~3 KB, nested up to 50000 deep; "
            "non-trivial: the source is at least 20 bytes and is refused after the first statement, or is invalid by construction")
    quick = 50000
    thorough = 1500000
    variants = ("asan", "msan")

    def program(self, s):
        if s.chance(25):
            return "".join(s.choice(SNIPPETS) for _ in range(s.int(1, 4)))
        g = progen.ProgGen(s, {}, size=8, max_depth=2)
        return syntax.source(g.program())[0]

    def gen(self, s):
        k = s.draw(20)
        if k < 6:
            # a program made invalid
            g = progen.ProgGen(s, {}, size=8, max_depth=3)
            prog = g.program()
            if s.chance(35):
                src = syntax.source(prog)[0]
                at = brackets(src)
                if at:
                    return ["cut", src[:s.choice(at)]]
            inner = [b for b in blocks_of(prog, []) if b is not prog]
            top = not inner or s.chance(40)
            b = prog if top else s.choice(inner)
            bad = s.choice(BAD_TOP) if top and s.chance(10) else s.choice(BAD)
            at = s.draw(len(b) + 1)
            if b and b[-1][0] in ("return", "break", "continue"):
                at = s.draw(len(b))
            b.insert(at, ["raw", bad + ";"])
            return ["bad:" + bad, "echo 'start'\n" + syntax.source(prog)[0]]
        if k < 9:
            n = s.many(1, 60, 95)
            return ["any", (" " if s.chance(60) else "").join(s.choice(TOKENS) for _ in range(n))]
        if k == 9:
            n = s.many(1, 40, 90)
            return ["any", "".join(chr(s.draw(256)) if s.chance(50) else s.choice("()[]{}'\"`#\\/*\n x1.") for _ in range(n))]
        if k == 10:
            # nested deeply
            n = s.choice([10, 200, 900, 1500, 9999, 20001, 50000])
            pre, mid, post = s.choice([("(", "1", ")"), ("[", "1", "]"), ("{1:", "1", "}"), ("-", "1", ""), ("!", "1", ""), ("1+", "1", ""), ("'a'~", "1", ""),
                                       ("1**", "1", ""), ("f(", "1", ")"), ("true?1:", "1", ""), ("1??", "1", ""), ("(1+", "1", ")"), ("f", "()", ""),
                                       ("fn(){return ", "1", ";}"), ("[", "1", " for i <- [1]]"), ("len ", "'a'", ""), ("(", "", ""), ("[", "", ""), ("{", "", "")])
            src = "fn f(x) {\n return f\n}\nlet v = " + pre * n + mid + post * n + "\n"
            if s.chance(40):
                pre, post = s.choice([("if true {\n", "}\n"), ("if false {\n} else", "if 1 { }\n"), ("while false {\n", "}\n"), ("match 1 {\n* {\n", "}\n}\n"), ("fn g() {\n", "}\n"),
                                      ("for x <- [1] {\n", "}\n"), ("{\n", "}\n")])
                n = min(n, 2000)
                src = pre * n + (post * n if "else" not in pre else post)
            elif s.chance(20):
                pre, post = s.choice([("[", "]"), ("(", ")"), ("1|", "1"), ("{1:", "}")])
                src = "match 1 {\n" + pre * n + "1" + post * (1 if pre == "1|" else n) + " { }\n}\n"
            return ["any", src]
        src = list(self.program(s))
        for _ in range(s.many(1, 6, 60)):
            if not src:
                break
            op = s.draw(9)
            i = s.draw(len(src))
            if op == 0:
                del src[i:]
            elif op == 1:
                del src[i]
            elif op == 2:
                src[i] = chr(s.draw(256))
            elif op == 3:
                src[i:i] = list(s.choice(TOKENS))
            elif op == 4:
                j = min(len(src), i + s.int(1, 20))
                src[i:i] = src[i:j] * s.int(1, 3)
            elif op == 5:
                j = min(len(src), i + s.int(1, 20))
                del src[i:j]
            elif op == 6:
                src[i] = s.choice("()[]{}'\"`#\\/*\n .,;:<->=")
            elif op == 7:
                other = list(self.program(s))
                j = s.draw(len(other) + 1)
                src[i:] = other[j:]
            else:
                j = s.draw(len(src))
                src[i], src[j] = src[j], src[i]
        return ["any", "".join(src)]

    def show(self, case):
        src = case[1]
        return (case[0] + "\n" + src) if len(src) < 5000 else f"{case[0]}\n{src[:300]!r}... ({len(src)} bytes)"

    def test(self, case, env):
        kind, src = case
        src = src.encode("latin-1")
        r = env.run(client.COMPILE, src)
        c = common.crashed(r)
        if c:
            return "compile " + c, [], True
        if kind == "any":
            labels = ["accepted" if r.status == 0 else "refused"]
        else:
            labels = ["cut"] if kind == "cut" else ["planted"]
            if r.status == 0:
                return f"accepted: invalid source compiles ({kind})", labels, True
        if sum(src) % 6 == 0:
            c = common.crashed(env.run(client.COMPILE, src, variant="msan"))
            if c:
                return "compile " + c, labels, True
        if r.out:
            return f"output: compiling prints {r.out[:200]!r}", labels, True
        if r.status == 0:
            if r.err:
                return f"stderr: compiles but says {r.err[:200]!r}", labels, True
            r2 = env.run(client.EXEC | client.SHORT, src)
            if r2.crash in ("cpu", "memcap"):
                return None, ["long run"], True
            c = common.crashed(r2)
            if c:
                return "run " + c, labels, True
            labels.append("ran%d" % r2.status)
            if r2.status == 4:
                return f"agree: compiles, but running it is a syntax error {r2.err[:200]!r}", labels, True
            if r2.status > 1 and not r2.err:
                return f"silent: status {r2.status} without a message", labels, True
            if r2.status <= 1 and r2.err:
                return f"stderr: succeeds but says {r2.err[:200]!r}", labels, True
            return None, labels, len(src) >= 20
        r2 = env.run(client.EXEC | client.SHORT, src)
        c = common.crashed(r2)
        if c:
            return "run " + c, labels, True
        if r.status != 4 or r2.status != 4:
            return f"status: {r.status} compiling, {r2.status} running a source that's refused ({r.err[:200]!r})", labels, True
        if r2.out:
            return f"effect: a refused program printed {r2.out[:200]!r}", labels, True
        if not r.err.startswith(b"SyntaxError") or not r2.err.startswith(b"SyntaxError"):
            return f"silent: refused with the message {r.err[:200]!r}, {r2.err[:200]!r}", labels, True
        return None, labels, kind != "any" or len(src) >= 20


check = C18()
