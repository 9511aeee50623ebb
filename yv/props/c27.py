"""C27: states are isolated from each other."""
from ..engine import Check, Discard
from ..hist import FNTEXT
from .. import client, common, progen, syntax, wild
from . import c17, c18


class G(c17.G):
    """Programs that let the host run other states from anywhere in them."""

    def st_other(self):
        return [["raw", "other();"]]

    def st_fail(self):
        return super().st_fail() if self.s.chance(40) else None


class W(wild.Wild):
    def expr(self, d=2):
        if self.s.chance(6):
            return "other()"
        return super().expr(d)

    def stmt(self, inline=False):
        if self.s.chance(10):
            return "other()"
        return super().stmt(inline)


TYPES = ["''", "[]", "{}", "1", "1.5", "true", "undef", "collections.set()", "fn() { return 1; }"]
NAMES = ["pi", "nw", "sqrt", "upper", "push", "tostr", "len", "rep", "keys", "add", "__add", "__len", "__get", "__eq", "__lt", "join"]


class Fx:
    """Steps that change, and look at, everything a state shares among its scripts; and work other() is in the middle of."""

    def __init__(self, s):
        self.s = s

    def val(self):
        s = self.s
        return s.choice(["1", "'v'", "[1]", "2.5", "fn(x) { return 'mine'; }", "fn(x, y) { other(); return 7; }", "undef", "{'k': 1}",
                         "%d" % s.draw(1000), "'%s'" % s.choice("abc")])

    def change(self):
        s = self.s
        k = s.draw(8)
        n = s.choice(NAMES)
        if k < 3:
            return f"{s.choice(['math', 'collections', 'io', 'mt'])}.{n} = {self.val()}"
        if k < 6:
            return f"mt.get({s.choice(TYPES)}).{n} = {self.val()}"
        if k == 6:
            return f"{s.choice(['g1', 'g2', 'math', 'collections'])} = {self.val()}"
        return f"math.keep = {self.val()}"

    def look(self):
        s = self.s
        n = s.choice(NAMES)
        k = s.draw(10)
        if k < 2:
            return f"echo {s.choice(['math', 'collections', 'io', 'mt'])}.{n}"
        if k < 5:
            return f"echo {s.choice(TYPES[:-1] + ['[1, 2]', chr(39) + 'abc' + chr(39), '{1: 2}'])}->{n}({s.choice(['', '1', chr(39) + 'x' + chr(39)])})"
        if k == 5:
            return f"echo {s.choice(['1 + 2', '2.5 + 1', '[1] + [2]', 'len [1]', 'len ' + chr(39) + 'abc' + chr(39), '1 == 1', '1 < 2', '[1][0]', '{1: 2}[1]'])}"
        if k == 6:
            return f"echo {s.choice(['g1', 'g2', 'math.keep', '__VERSION__'])}"
        if k == 7:
            return f"echo {s.choice(['math', 'collections'])}->tostr()" if s.chance(20) else "echo math.pi"
        if k == 8:
            return f"echo ({s.choice(TYPES[:-1])})->tostr()"
        return f"echo mt.get({s.choice(TYPES)}).{n}"

    def work(self):
        s = self.s
        a = s.choice(["'a,b,c'", "'%s'" % ("x" * s.choice([1, 5, 40, 200])), "'q' ~ 12"])
        f = s.choice(["1.5", "0.1", "1e300", "-2.25", "123456.789"])
        i = s.choice(["0", "-1", "9223372036854775807", "12345", "255"])
        any_ = s.choice([a, f, i, "[1, 'a', [2.5]]", "{'k': [1]}", "true", "undef"])
        o = s.choice(["other()", "other()", "(fn() { other(); return 5; })()", "o"])
        k = s.draw(16)
        if k == 0:
            return f"echo {any_} ~ {o} ~ {any_}"
        if k == 1:
            return f"echo [{any_}, {o}, {any_}]"
        if k == 2:
            return f'echo "#{{{any_}}} #{{{o}}} #{{{any_}}}"' if '"' not in any_ + o and "{" not in any_ + o else "echo o"
        if k == 3:
            return f"echo {{{i}: {any_}, 'x': {o}, {f}: {any_}}}[{s.choice([i, f, chr(39) + 'x' + chr(39)])}]"
        if k == 4:
            return f"for x <- {s.choice(['[1, 2.5, ' + a + ']', a + '->split(' + chr(39) + ',' + chr(39) + ')', '[o, o]'])} {{ echo x; {s.choice(['other()', 'echo o'])}; echo x; }}"
        if k == 5:
            return f"echo o; echo [o, {any_}]; echo o ~ {any_}"
        if k == 6:
            return f"echo [o, {any_}]->join({s.choice([chr(39) + ',' + chr(39), chr(39) * 2])})"
        if k == 7:
            return f"echo o {s.choice(['+', '-', '==', '<', '**', '|'])} {s.choice(['o', any_])}"
        if k == 8:
            return f"echo {a}->{s.choice(['split', 'replace', 'search', 'startswith'])}({a}, {s.choice([a, 'o'])})"
        if k == 9:
            return f"echo ({any_})->tostr(); {o}; echo ({any_})->tostr()"
        if k == 10:
            return f"match {any_} {{ let x if other() == undef {{ echo x; }}\n* {{ echo o; }}\n}}"
        if k == 11:
            return f"const r{s.draw(90)} = fn() {{ let u = {any_}; return fn() {{ other(); u = [u]; return u; }}; }}(); other()"
        if k == 12:
            return f"echo (fn(x, y) {{ let z = x; other(); return [x, y, z]; }})({any_}, {o})"
        if k == 13:
            return f"echo {s.choice(['[3, 1, 2]->sort()', 'math.max(1, 2.5, 3)', 'math.pi', 'collections.set(1, o, ' + chr(39) + 'a' + chr(39) + ')', 'math.sqrt(2)'])}; other(); echo math.pi"
        if k == 14:
            return s.choice(["echo 1 + 'x'", "assert false", "echo 1 // 0", "echo undeclared", "o->nosuch()", "(fn() { other(); return 1 + []; })()",
                             "fn deep(n) { other(); return deep(n + 1); }; deep(0)", "echo [1][5]", "let = 3", "}", "echo 'open"])
        return f"for let i = 0; i < {s.choice('1235')}; i += 1 {{ echo i; other(); }}"

    def session(self):
        s = self.s
        setup = ["let o = {'v': 1}", "let g1 = 0", "let g2 = 'two'"]
        ms = []
        for m, ps in (("tostr", "a"), ("__add", "a, b"), ("__eq", "a, b"), ("__lt", "a, b"), ("__len", "a"), ("__get", "a, b"), ("nosuch", "a")):
            if s.chance(50):
                ms.append(f"{m}: fn({ps}) {{ {s.choice(['other(); ', '', 'let q = [1.5]; other(); '])}return {s.choice([chr(39) + 'O' + chr(39), '1', 'true', chr(39) + 'o' + chr(39) + ' ~ 1.25'])}; }}")
        if ms:
            setup.append("mt.set(o, {%s})" % ", ".join("." + m.split(":", 1)[0] + ":" + m.split(":", 1)[1] for m in ms))
        out = ["\n".join(setup) + "\n"]
        for _ in range(s.int(1, 6)):
            out.append("\n".join(self.s.weighted([(5, self.work), (3, self.change), (4, self.look)])() for _ in range(s.int(1, 4))) + "\n")
        return out


def norm(b):
    return FNTEXT.sub("<fn>", b.decode("latin-1"))


def outcome(r, parts):
    """What each step showed: [(status, out, err)], in order."""
    res = [[None, "", ""] for _ in parts]
    at = eat = 0
    stack, k = [], 0
    for st, m, e in zip(r.statuses, r.marks, r.emarks):
        if stack:
            res[stack[-1]][1] += r.out[at:m].decode("latin-1")
            res[stack[-1]][2] += r.err[eat:e].decode("latin-1")
        at, eat = m, e
        if st <= -2000:
            stack.append(k)
            k += 1
        else:
            res[stack.pop()][0] = st
    return [(a, FNTEXT.sub("<fn>", b), FNTEXT.sub("<fn>", c)) for a, b, c in res]


class C(Check):
    id = "C27"
    rule = "at least two states ran scripts, one between two steps of the other or inside a call of the other"
    technique = ("random schedules over up to 4 states of their creation, inputs (generated programs, hostile sessions, library and method changes, errors), output "
                 "capture and deletion, with steps of states nested inside native calls of running scripts of others; differential oracle: each state's steps run alone in a process that ran nothing before")
    note = ("Interleavings are of whole steps and of calls of host functions within scripts (from expressions, metamethods, loops, nested calls), one process "
            "and one thread; values of up to 4 states.")
    quick = 5500
    thorough = 200000
    assumptions = ("Scripts that seed or draw random numbers aren't generated: C rand is shared by the process.",)

    def session(self, s, kind):
        """-> op, sources"""
        if kind == "fx":
            return s.weighted([(6, "r"), (2, "c" if s.chance(30) else "x")]), Fx(s).session()
        if kind == "wild":
            return "r", W(s).session()
        op = s.choice("rrx")
        g = G(s, {"fail": 6, "const": 6, "fndecl": 12, "call": 16, "other": 25}, size=1, max_depth=3)
        out = []
        for _ in range(s.int(1, 5)):
            if op == "x":
                g.scopes = [[]]
            g.budget = s.choice([4, 10, 16])
            p = g.block_here(s.choice([1, 2, 3, 6])) or [["echo", ("lit", 1)]]
            out.append(syntax.source(p)[0])
        return op, out

    def gen(self, s):
        n = s.weighted([(6, 2), (3, 3), (1, 4)])
        queues = []
        sess = []
        for w in range(n):
            if w and s.chance(15):
                op, src = sess[0]  # the same again
            else:
                op, src = self.session(s, s.weighted([(4, "fx"), (3, "prog"), (3, "wild")]))
            sess.append((op, src))
            q = [("n" if not s.chance(4) else "b", "", src[0])]
            if s.chance(15):
                q.append(("o", "", ""))
            for i, x in enumerate(src):
                q.append((op, "", x if i else ""))
                if i == len(src) // 2 and s.chance(3):
                    q.append(("o", "", ""))
            if s.chance(90):
                q.append(("d", "", ""))
            queues.append(q)
        # a schedule: whose step comes next, and how deep
        parts = []
        busy = []  # states running at each level
        left = [list(q) for q in queues]
        while any(left):
            deepest = len(busy)
            k = s.weighted([(5, deepest), (4, 0), (2, s.draw(deepest + 1))])
            lv = min(k, deepest, 5)
            free = [w for w in range(n) if left[w] and w not in busy[:lv]]
            if not free:
                lv = 0
                busy = []
                free = [w for w in range(n) if left[w]]
            w = s.choice(free)
            op, _, text = left[w].pop(0)
            parts.append((w, op, lv, text))
            # only a script can have steps within
            busy = busy[:lv] + ([w] if op in "xr" else [])
        for w in s.shuffle(range(n)):
            if queues[w][-1][0] != "d":
                parts.append((w, "d", 0, ""))
        return parts

    def show(self, case):
        return "\n".join(f"@{w} {op} level {lv}\n{text}" for w, op, lv, text in case)

    def enc(self, parts):
        return [b"%d%s%d" % (w, op.encode(), lv) + text.encode("latin-1") for w, op, lv, text in parts]

    def test(self, case, env):
        ids = sorted({p[0] for p in case})
        alone = {}
        leaked = 0
        for w in ids:
            mine = [(w, op, 0, t) for ww, op, lv, t in case if ww == w]
            r = env.run(client.MULTI | client.FRESH | client.SHORT, *self.enc(mine))
            if r.crash:
                raise Discard("alone " + r.crash)
            alone[w] = outcome(r, mine)
            leaked += r.leaked
        r = env.run(client.MULTI | client.FRESH, *self.enc(case))
        if r.crash == "cpu":
            raise Discard("cpu")
        c = common.crashed(r)
        if c:
            return c, ["crash"], True
        got = outcome(r, case)
        at = {w: 0 for w in ids}
        for (w, op, lv, t), g in zip(case, got):
            want = alone[w][at[w]]
            at[w] += 1
            if g != want:
                for name, a, b in zip(("status", "output", "errors"), g, want):
                    if a != b:
                        return f"{name}: state {w}, step {at[w]} ({op}): {name} {a!r}, alone {b!r}", ["fail"], True
        if r.leaked != leaked:
            return f"leak: {r.leaked} blocks remain, {leaked} do when the states run alone", ["fail"], True
        labels = ["states %d" % len(ids)]
        runs = [(w, lv) for w, op, lv, t in case if op in "xr"]
        nested = any(lv for w, lv in runs)
        # did other() really run any of them?
        stack, deep = 0, 0
        for st in r.statuses:
            stack += 1 if st <= -2000 else -1
            if st == -2000:
                deep = max(deep, stack)
        inter = any(a[0] != b[0] for a, b in zip(runs, runs[1:]))
        if deep > 1:
            labels.append("nested %d" % deep)
        for st in sorted({g[0] for g in got}):
            labels.append("status %d" % st)
        return None, labels, bool(inter and len({w for w, _ in runs}) > 1)


check = C()
