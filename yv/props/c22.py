"""C22: a session of inputs behaves like one program."""
import re
from ..engine import Check, Discard
from ..hist import FNTEXT
from .. import client, common, gen, model, progen, syntax
from . import c17, c18, c21

V = lambda n: ("var", n)
L = lambda v: ("lit", v)

SYNTAX = re.compile(r"SyntaxError|Undeclared")
KEYWORDS = set("echo fn let const if elseif else while for return match assert export len in".split())
BANNER = (" __ __  _____   ____   __   \n|  |  ||     | /    \\ |  |    \n|  |  ||  O  | |  __| |  |  \n|___  ||     | |__  | |  |__ \n"
          "|     ||  |  | |    | |     |\n|_____/|__|__| \\____/ |_____|\n\n")

# Wrong in any session: these names are declared nowhere (else).
BAD = [b for b in c18.BAD if b not in ("\x00", "echo 'a\nb'")] + [
    "echo q9", "q9 = 1", "q9 += 1", "echo [r9, l9]", "f9()", "echo a9", "z9 = 3; echo z9", "fn g9() { return c9; }", "g9()",
    "let q9 = 1; q9 = 2; fn f9() { return q9; }; echo f9(); )", "const q9 = 5; let c9 = 3; echo undeclared_q9", "fn f9() { const z9 = 1; return fn() { z9 = 3; }; }",
    "let z9 = 1; while true { let w9 = 1; let w9 = 2; }", "let q9 = 1; let z9 = 2; let c9 = 3; let q9 = 4",
]


class G(c17.G):
    """A program, input by input."""

    def st_fail(self):
        return super().st_fail() if self.s.chance(self.failing) else None

    def block_here(self, n):
        return progen.ProgGen.block_here(self, n) if self.lines1 else super().block_here(n)


def oneline(src):
    """The same tokens on a line."""
    out = []
    for l in src.split("\n"):
        l = l.rstrip(" ")
        if not l.strip():
            continue
        m = re.search(r"([A-Za-z_]\w*|.)\Z", l)
        w = m.group(1)
        ends = w[-1] in ")]}'\"`" or w[-1].isalnum() or w[-1] == "_"
        out.append(l + (";" if ends and w not in KEYWORDS else " "))
    return "".join(out)


class Session:
    def __init__(self, s, repl, tool):
        self.s, self.repl = s, repl
        self.g = G(s, {"fail": 10, "const": 6, "fndecl": 12, "assign": 20, "call": 16}, size=1, max_depth=3)
        self.g.lines1 = tool
        self.g.failing = s.choice([0, 0, 30, 100])
        self.it = model.Interp(fntext=True, max_steps=40000)
        self.base = self.env = model.base_env(self.it)
        self.lines = {}
        self.inputs = []       # (source, status, output, error)
        self.fields = []
        self.keep = []
        self.nfield = 0
        self.state = repl

    def has(self, name):
        e = self.env
        while e is not None:
            if e[0] == name:
                return True
            e = e[2]
        return False

    def input(self):
        s, g = self.s, self.g
        if s.chance(18):
            return self.bad()
        g.budget = s.choice([4, 10, 16])
        if not self.repl:
            # locals are gone
            g.scopes = [[]]
            for n, t in self.fields:
                if s.chance(60):
                    g.scopes[0].append(progen.Var(n, t, False, True, 0))
        p = []
        new = []
        if not self.repl:
            p = [["let", n.name, ("mem", V("math"), n.name)] for n in g.scopes[0]]
        p += g.block_here(s.choice([1, 1, 1, 2, 3, 6]))
        if not self.repl:
            for v in g.scopes[0][:]:
                if v.typ in ("own", "set") or not s.chance(30) or v.name.startswith("m_"):
                    continue
                self.nfield += 1
                n = "m_%d" % self.nfield
                p.append(["setidx", V("math"), L(n), V(v.name)])
                new.append((n, v.typ))
        elif s.chance(35) or not p:
            # show a value
            t = s.choice(["int", "str", "list", "float", "bool", "undef", "table"])
            vs = [v for v in g.visible() if v.typ == t]
            e = V(s.choice(vs).name) if vs and s.chance(60) else g.gen(t, 2)
            if e[0] not in ("fn", "table", "neg"):
                p.append(["expr", e])
        if not p:
            p = [["echo", L(1)]]
        src, lines = syntax.source(p)
        self.lines.update(lines)
        self.it.line = self.lines
        self.it.out = []
        q = p
        while q[-1][0] == "comment" and len(q) > 1:
            q = q[:-1]
        if self.repl and q[-1][0] == "expr":
            last = ["echo", q[-1][1]]
            self.lines[id(last)] = lines[id(q[-1])]
            q = q[:-1] + [last]
            self.keep.append(last)
        self.keep.append(p)  # ids stay unique
        self.it.native_calls = 0
        try:
            st = self.it.run(q, self.env if self.repl else self.base)
        except RecursionError:
            raise Discard("model recursion")
        if self.repl:
            self.env = self.it.end_env
        self.it.depth = 0
        err = None
        if st > 1:
            err = (self.it.errline, None if self.it.native_calls else self.it.trace[::-1])
            if self.repl:
                g.scopes[0] = [v for v in g.scopes[0] if self.has(v.name)]
        if new:
            e = self.base
            while e[0] != "math":
                e = e[2]
            have = {v for k, v in ((x[0], x[0]) for x in e[1][0].d.values())}
            self.fields += [(n, t) for n, t in new if n in have]
        self.it.trace = []
        self.inputs.append([src, st, model.cat(*self.it.out) if self.it.out else "", err])

    def bad(self):
        """One that isn't a program, and has no effect."""
        s, g = self.s, self.g
        g.budget = 6
        top = g.scopes[0][:] if self.repl else []
        g.scopes[0] = top[:]
        save = g.failing
        p = g.block_here(s.draw(4))
        g.scopes[0] = top
        names = [v.name for v in top if not v.name.startswith("m_")] if self.repl else []
        consts = [v.name for v in top if v.const and not v.reserved and not isinstance(v.typ, tuple)] if self.repl else []
        k = s.draw(12)
        if k == 0 and names:
            raw = s.choice(["let %s = 1", "const %s = 1", "fn %s() { return 1; }", "if true { let z9 = 3; }; let %s = 2"]) % s.choice(names)
        elif k == 1 and consts:
            raw = s.choice(["%s = 1", "%s += 1", "fn f9() { %s = 1; }", "if true { %s = 3; }"]) % s.choice(consts)
        else:
            raw = re.sub(r"\b([a-z])9\b", r"\g<1>9_", s.choice(BAD))  # names that no session has
        inner = [b for b in c18.blocks_of(p, []) if b is not p]
        b = s.choice(inner) if inner and s.chance(40) and k > 1 else p
        at = s.draw(len(b) + 1)
        if b and b[-1][0] in ("return", "break", "continue"):
            at = s.draw(len(b))
        b.insert(at, ["raw", raw + ";"])
        if s.chance(30):
            p.insert(0, ["echo", L("never")])
        if s.chance(15) and k > 1 and b is p:
            src = syntax.source([x for x in p if x[0] != "raw"])[0]
            at = c18.brackets(src)
            if at:
                self.inputs.append([src[:s.choice(at)], 4, "", None])
                return
        self.inputs.append([syntax.source(p)[0], 4, "", None])


class C22(Check):
    id = "C22"
    technique = "stateful model-based testing: generated programs, split into inputs and with failing ones in between, against a model of the whole session"
    rule = ("sessions of up to 12 (a few up to 150) inputs of 1-6 statements that use what earlier inputs left (variables, constants, functions, closures, objects), "
            "inputs that fail at run time and that don't parse (then nothing of them may remain), expressions that show their value; through "
            "YASL_execute_REPL, through the command line tool's prompt, and (values kept in a library table) through YASL_resetstate_bb and "
            "YASL_execute; non-trivial: 4 inputs, 2 of which succeed and print something")
    note = ("Random search. Each input's output, status, error kinds, lines and call traces are compared with the model's; for syntax errors that there's a "
            "message and nothing else happens.")
    quick = 27000
    thorough = 800000
    programs = ("runner", "cli")

    def gen(self, s):
        k = s.draw(20)
        mode = "repl" if k < 12 else "hist" if k < 17 else "tool"
        x = Session(s, mode != "hist", mode == "tool")
        # some sessions are long
        for _ in range(s.int(30, 150) if s.chance(1) else s.many(2, 12, 85)):
            x.input()
        return [mode, x.inputs, s.chance(20)]

    def show(self, case):
        return case[0] + "\n" + "\n---\n".join(x[0] for x in case[1])

    def test(self, case, env):
        mode, inputs, quit = case
        srcs = [x[0] for x in inputs]
        labels = [mode] + (["long"] if len(inputs) > 20 else []) + sorted({"status%d" % x[1] for x in inputs})
        nt = len(inputs) >= 4 and sum(x[1] == 0 and x[2] != "" for x in inputs) >= 2
        if mode == "tool":
            if any("`" in x or "#" in x or "/*" in x for x in srcs):
                raise Discard("not on a line")
            lines = [oneline(x) for x in srcs]
            if any("\n" in x for x in lines):
                raise Discard("not on a line")
            text = "\n".join(lines) + "\n" + ("quit()\necho 'not reached'\n" if quit else "")
            env.ran = True
            r = c21.CLI.run([], env.clean_tmp(), text.encode("latin-1"))
            if r is None:
                return "hang: the tool doesn't end", labels, nt
            if r[0] != 0:
                return f"status: the tool returns {r[0]}", labels, nt
            want = [BANNER, re.compile("YASL v[0-9.]+\n")]
            exp = model.cat(*[y for x in inputs for y in ("yasl> ", x[2])], "yasl> ")
            out = FNTEXT.sub("<fn: ?>", common.latin(r[1]))
            m = want[1].match(out, len(BANNER)) if out.startswith(BANNER) else None
            if not m:
                return f"banner: {out[:300]!r}", labels, nt
            if not model.matches(exp, out[m.end():]):
                return f"output: expected {model.show_text(exp)[-1500:]!r}, got {out[m.end():][-1500:]!r} ({r[2][-500:]!r})", labels, nt
            kinds = re.findall(r"^(\w+Error|StackOverflow)", common.latin(r[2]), re.M)
            exp = ["SyntaxError" if x[1] == 4 else common.KIND[x[1]] for x in inputs if x[1] > 1]
            same = lambda k: [x for i, x in enumerate(k) if x != "SyntaxError" or not i or k[i - 1] != x]  # one may give several messages
            return None if same(kinds) == same(exp) else f"stderr: expected {exp}, got {r[2]!r}", labels, nt
        r = env.run(client.REPL if mode == "repl" else client.HIST, *srcs)
        c = common.crashed(r)
        if c:
            return c, labels, nt
        outs = r.outs()
        if len(outs) != len(inputs):
            return f"steps: {len(outs)} of {len(inputs)} inputs ran", labels, nt
        for i, ((src, st, text, at), out) in enumerate(zip(inputs, outs)):
            out = FNTEXT.sub("<fn: ?>", common.latin(out))
            if not model.matches(text, out):
                return (f"output: input {i}: expected {model.show_text(text)[-1500:]!r} (status {st}), got {out[-1500:]!r} "
                        f"(status {r.statuses[i]}, {r.err[-300:]!r})"), labels, nt
            if r.statuses[i] != st:
                return f"status: input {i}: expected {st}, got {r.statuses[i]} ({r.err[-300:]!r})", labels, nt
            f = self.error(i, st, at, r.errs()[i])
            if f:
                return f, labels, nt
        return None, labels, nt

    def error(self, n, st, at, err):
        """How what input n says about its failure differs."""
        err = common.latin(err)
        if st <= 1:
            return f"stderr: input {n} succeeds but says {err[-300:]!r}" if err else None
        if st == 4:
            return None if err and all(SYNTAX.match(x) for x in err.rstrip("\n").split("\n")) else f"stderr: of input {n}, a syntax error: {err[:500]!r}"
        m = c17.ERR.match(err)
        if not m or not err.startswith(common.KIND[st]):
            return f"stderr: of input {n}, a {common.KIND[st]}: {err[:500]!r}"
        line, calls = int(m.group(3)), [int(x) for x in re.findall(r"line (\d+)", m.group(4))]
        (lo, hi), trace = at
        if not lo <= line <= hi:
            return f"line: the error of input {n} is on line {lo}-{hi}, reported {line}: {err[-500:]!r}"
        if trace is not None and (len(calls) != len(trace) or any(not a <= c <= b for c, (a, b) in zip(calls, trace))):
            return f"trace: calls on lines {trace}, reported {calls} for input {n}"
        return None


check = C22()
