"""C28: compiling doesn't run anything; running is compiling and then running."""
import os
from ..engine import Check, Discard
from .. import client, common, progen, syntax
from . import c18, c27

# Anything these do is seen: they print, call the host, make files, change what scripts share or end the process.
EFFECTS = [
    "echo 'ran'", "other()", "io.open('%TMP%/made', 'w')", "let fh = io.open('%TMP%/made', 'w'); fh->write('x'); fh->close()", "math.pi = 3", "math.keep = 'kept'",
    "collections.list = undef", "mt.get('').upper = fn(x) { return 'mine'; }", "mt.get([]).push = undef", "mt.get(1).__add = fn(a, b) { return 7; }", "assert false",
    "echo 1 // 0", "while true { echo 1; }", "require('%TMP%/nomodule')", "io.stdout->write('ran')", "io.stderr->write('ran')", "print('ran')", "const x9 = (fn() { echo 'ran'; other(); return 1; })()",
    "g1 = 'changed'", "o = undef", "g1 += 1", "io = undef", "let echoed = [echoed_ for echoed_ <- (fn() { echo 'ran'; return [1]; })()]", "for x <- [1, 2] { echo x; other(); }",
    "match (fn() { echo 'ran'; return 1; })() { * { other(); }\n}", "fn g1() { echo 1; }", "let g1 = 5", "const g2 = 6", "fn math() { return 1; }", "let unused9 = 'a' ~ 1", "fn f9(x) { return f9; }",
    "if true { echo 'ran'; }", "echo ('a' ~ 'b') ~ 1.5e3", "echo 2 ** 3 + 4 // 2 - -1 % 3", "'x'; 5", "return 5", "export 5", "export {.a: 1}",
]


class C(Check):
    id = "C28"
    rule = "a session with an input that ran, and sources of at least 20 bytes compiled before or between its inputs"
    technique = ("random sessions (generated programs, hostile sessions, library changes) with compile-only steps of valid, effectful and invalid sources put in between; metamorphic "
                 "oracle: without those steps the same happens; differential oracle: compiling an input shows just what running it then shows of compile time errors")
    note = "Effects looked for: output, host function calls, files, globals, library tables, method tables, later inputs, memory."
    quick = 7000
    thorough = 300000
    variants = ("asan", "msan")

    def source(self, s, src):
        """Something to compile."""
        k = s.draw(14)
        if k < 4:
            x = "\n".join(s.choice(EFFECTS) for _ in range(s.int(1, 4))) + "\n"
        elif k < 6:
            x = s.choice(src)
        elif k < 8:
            x = syntax.source(c27.G(s, {"other": 20}, size=3, max_depth=3).program())[0]
        elif k == 8:
            x = s.choice(c18.BAD) + "\n"
        elif k == 9:
            x = "\n".join([s.choice(EFFECTS) for _ in range(s.int(0, 3))] + [s.choice(c18.BAD)] + [s.choice(EFFECTS) for _ in range(s.draw(3))]) + "\n"
        elif k == 10:
            g = c27.G(s, {"other": 20}, size=3, max_depth=3)
            p = g.program()
            b = s.choice(c18.blocks_of(p, []) or [p])
            b.insert(s.draw(len(b) + 1), ["raw", s.choice(c18.BAD) + ";"])
            x = syntax.source(p)[0]
        elif k == 11:
            x = s.choice(src)
            x = x[:s.draw(len(x) + 1)]
        elif k == 12:
            x = "\n".join(c27.Fx(s).session())
        else:
            x = s.choice(["", "\n", "# nothing\n", "x", "\x00", "\"#{", "/*", "'" + "a" * 3000, "(" * 3000, "[" * 30000, "let a" + "b" * 2000 + " = 1\n",
                          "".join("let v%d = %d\n" % (i, i) for i in range(300)), "".join("echo %d\n" % i for i in range(500))])
        return x

    def gen(self, s):
        op, src = c27.check.session(s, s.weighted([(4, "fx"), (3, "prog"), (3, "wild")]))
        if op == "c":
            op = "x"
        steps = [("n", src[0])]
        if s.chance(10):
            steps.append(("o", ""))
        after = []
        for i, x in enumerate(src):
            for _ in range(s.weighted([(5, 0), (5, 1), (2, 2), (1, 5)])):
                steps.append(("c", self.source(s, src)))
            if s.chance(40):
                steps.append(("C", x))  # what comes next
            steps.append((op, x))
        for _ in range(s.draw(2)):
            steps.append(("c", self.source(s, src)))
        steps.append(("d", ""))
        return steps, "msan" if s.chance(6) else "asan"

    def show(self, case):
        return "\n".join(f"@{op}\n{t[:3000]}" for op, t in case[0])

    def run(self, env, steps, variant, mode):
        tmp = env.tmp()
        parts, first = [], True
        for op, t in steps:
            if op == "n":
                t = "\x00"  # never run
            if op in "cCxr" and first:
                first = False
                parts[0] = b"0n0" + t.replace("%TMP%", tmp).encode("latin-1")
            parts.append(b"0" + op.lower().encode() + b"0" + t.replace("%TMP%", tmp).encode("latin-1"))
        return env.run(client.MULTI | client.FRESH | mode, *parts, variant=variant)

    def test(self, case, env):
        steps, variant = case
        env.clean_tmp()
        alone = [x for x in steps if x[0] not in "cC"]
        r = self.run(env, alone, variant, client.SHORT)
        if r.crash:
            raise Discard("alone " + r.crash)
        want = c27.outcome(r, alone)
        left = r.leaked
        made = sorted(os.listdir(env.tmp()))
        env.clean_tmp()
        r = self.run(env, steps, variant, 0)
        if r.crash == "cpu":
            raise Discard("cpu")
        c = common.crashed(r)
        if c:
            return c, ["crash"], True
        got = c27.outcome(r, steps)
        if sorted(os.listdir(env.tmp())) != made:
            return f"files: {os.listdir(env.tmp())}, without compiling {made}", ["fail"], True
        k, ok, bad = 0, 0, 0
        cap = ("o", "") in steps  # messages come at the end: those of the last input if it was no program, else those of runs
        for i, ((op, t), g) in enumerate(zip(steps, got)):
            if op not in "cC":
                if cap and op == "d":
                    g = (g[0], g[1], want[k][2])
                if g != want[k]:
                    return f"after: step {i} ({op}) {g!r}, without compiling {want[k]!r}", ["fail"], True
                k += 1
                continue
            st, out, err = g
            if out:
                return f"prints: compiling step {i} prints {out!r}", ["fail"], True
            if (st != 0) != (err != "") and not (cap and st):
                return f"message: compiling step {i}: status {st}, {err!r}", ["fail"], True
            if st not in (0, 4, 8):
                return f"status: compiling step {i}: status {st}", ["fail"], True
            if st:
                bad += 1
            else:
                ok += 1
            if op == "C" and steps[i + 1][0] == "x":
                nx = got[i + 1]
                if st and nx != g:
                    return f"compile: step {i} {g!r} but running it {nx!r}", ["fail"], True
                if not st and nx[0] in (4, 8):
                    return f"compile: step {i} {g!r} but running it {nx!r}", ["fail"], True
        # other() has nothing to do here
        if r.statuses.count(-2000) + r.statuses.count(-2001) != len(steps):
            return "steps: not all ran", ["fail"], True
        if not bad and r.leaked != left:
            return f"leak: {r.leaked} blocks remain, {left} without compiling", ["fail"], True
        n = sum(len(t) for op, t in steps if op in "cC")
        labels = ["compiled ok"] * bool(ok) + ["compiled bad"] * bool(bad) + [variant] + ["status %d" % st for st in sorted({g[0] for g in got})]
        return None, labels, bool(n >= 20 and (ok or bad))


check = C()
