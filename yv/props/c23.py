"""C23: files hold what was written to them."""
import os
from ..engine import Check
from ..syntax import strlit
from .. import client, common, gen, syntax
from . import c21

PATHS = ["f0", "f1", "f2", "f 3"]
SIZES = [0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 500, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12000]


class H:
    """An open file."""

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.pos = 0
        self.last = None       # "r" or "w": what it did since it was positioned
        self.eof = False
        self.open = True
        self.dirty = False
        self.reads = mode[0] == "r" or mode.endswith("+")
        self.writes = mode != "r"


class G:
    def __init__(self, s):
        self.s = s
        self.init, self.files = {}, {}
        for p in PATHS:
            if s.chance(60):
                self.init[p] = self.content()
        self.files = dict(self.init)
        self.h = {}            # variable: H, or None for one that was dropped
        self.declared = set()
        self.gone = set()      # paths with a handle that was dropped while open
        self.inputs = []
        self.n = 0
        self.ops = self.reads = self.writes = 0

    def piece(self):
        s = self.s
        k = s.draw(12)
        if k < 4:
            return s.choice(["a", "ab\n", "\n", "hello", "line 1\nline 2\n", "x\0y", "\0", "\r\n", "\xff\xfe", "#{x}", "%s%n", "'\"`\\", "\xc3\xa9\n"])
        if k < 6:
            n = s.choice(SIZES)
            return s.choice("abc\0z\xff") * n
        if k == 6:
            return ("0123456789\n" * 900)[:s.choice(SIZES)]
        return "".join(chr(s.draw(256)) if s.chance(20) else s.choice("abc \n") for _ in range(s.draw(30)))

    def content(self):
        s = self.s
        return "".join(self.piece() + ("\n" if s.chance(50) else "") for _ in range(s.many(0, 6, 70)))

    def strexpr(self):
        """-> (source of a str, the str)"""
        s = self.s
        k = s.draw(10)
        v = self.piece()
        if k < 6:
            return strlit(v), v
        if k == 6:
            pre, post = s.choice(["", "a", "xyz"]), s.choice(["", "b", "\n"])
            v2 = v[:300]
            return "%s[%d:%d]" % (strlit(pre + v2 + post), len(pre), len(pre) + len(v2)), v2
        if k == 7:
            v = v[:40]
            n = s.choice([0, 1, 2, 5, 100, 300]) if s.chance(96) else s.choice([1700, 6554])
            return "%s->rep(%d)" % (strlit(v), n), v * n
        if k == 8:
            a = v[:s.draw(len(v) + 1)]
            return "%s ~ %s" % (strlit(a), strlit(v[len(a):])), v
        if k == 9 and s.chance(50):
            e, v = gen.shared(s)
            return syntax.expr(e), v
        n = s.int(-5, 999)
        return "%d->tostr()" % n if n >= 0 else "(%d)->tostr()" % n, str(n)

    # ---- one operation: appends lines and what they print
    def emit(self, line, out=None):
        self.lines.append(line)
        if out is not None:
            self.out.append(out + "\n")

    def fail(self, line, status):
        self.lines.append(line)
        self.status = status

    def users(self, path):
        return [h for h in self.h.values() if h and h.open and h.path == path]

    def op(self):
        s = self.s
        self.ops += 1
        live = [v for v, h in self.h.items() if h and h.open]
        if not live or s.chance(14) and len(live) < 4:
            return self.op_open()
        v = s.choice(live)
        h = self.h[v]
        k = s.draw(100)
        if k < 32:
            return self.op_write(v, h)
        if k < 57:
            return self.op_read(v, h)
        if k < 75:
            return self.op_seek(v, h)
        if k < 81:
            h.dirty = False
            if h.last == "w":
                h.last = None
            return self.emit("echo %s->flush()" % v, "true")
        if k < 88:
            h.open = False
            return self.emit("echo %s->close()" % v, "true")
        if k < 90:
            # another may see what's flushed
            if not h.dirty and len(self.users(h.path)) == 1:
                self.n += 1
                p = "p%d" % self.n
                self.emit("let %s = io.open(%s)" % (p, self.path(h.path)))
                self.reading(p, "'a'", self.files[h.path])
                self.emit("echo %s->close()" % p, "true")
            return
        if k == 90:
            self.emit("%s = undef" % v)
            self.gone.add(h.path)
            self.h[v] = None
            return
        if k == 91:
            e, x = self.strexpr()
            x = x.replace("\0", "z")[:100]
            self.n += 1
            self.emit("echo io.stdout->write(%s)" % strlit(x))
            self.out.append(x + "%d\n" % len(x))
            return
        return self.op_bad(v, h)

    def path(self, p):
        return "'@DIR@/%s'" % p

    def op_open(self):
        s = self.s
        v = s.choice(["h0", "h1", "h2", "h3"])
        old = self.h.get(v)
        if old and old.open:
            return
        k = s.draw(20)
        let = "" if v in self.declared else "let "
        if k < 3:
            # can't be opened
            p, m = s.choice([("'@DIR@/none'", "r"), ("'@DIR@/none'", "r+"), ("'@DIR@'", "w"), ("'@DIR@'", "a+"), ("'@DIR@/none/x'", "w"), ("''", "r"), ("''", "w"),
                             ("'@DIR@/f0/x'", "a"), ("'@DIR@/" + "n" * 300 + "'", "w")])
            return self.emit("echo io.open(%s, '%s')" % (p, m) if m != "r" or s.chance(50) else "echo io.open(%s)" % p, "undef")
        p = s.choice(PATHS)
        m = s.choice(["r", "w", "a", "r+", "w+", "a+"])
        if p in self.gone or self.users(p):
            return
        if m[0] == "r" and p not in self.files:
            return self.emit("echo io.open(%s, '%s')" % (self.path(p), m), "undef")
        self.declared.add(v)
        h = self.h[v] = H(p, m)
        if m[0] == "w":
            self.files[p] = ""
        self.files.setdefault(p, "")
        self.emit("%s%s = io.open(%s%s)" % (let, v, self.path(p), "" if m == "r" and s.chance(30) else ", '%s'" % m))

    def op_write(self, v, h):
        s = self.s
        if not h.writes:
            if s.chance(20):
                e, x = self.strexpr()
                self.emit("echo %s->write(%s)" % (v, e), "0")
            return
        if h.last == "r" and not h.eof:
            return self.op_seek(v, h)
        e, x = self.strexpr()
        self.writes += len(x) > 0
        self.emit("echo %s->write(%s)" % (v, e), str(len(x)))
        self.put(h, x)
        if s.chance(15):
            # several in a loop
            self.n += 1
            xs = ["".join(s.choice("ab\n\0") for _ in range(s.draw(9))) for _ in range(s.draw(6))]
            self.emit("for x%d <- [%s] {\n %s->write(x%d)\n}" % (self.n, ", ".join(map(strlit, xs)), v, self.n))
            for x in xs:
                self.put(h, x)

    def put(self, h, x):
        if not x:
            return
        h.last, h.dirty, h.eof = "w", True, False
        f = self.files[h.path]
        if h.mode[0] == "a":
            h.pos = len(f)
        f = f + "\0" * (h.pos - len(f))
        self.files[h.path] = f[:h.pos] + x + f[h.pos + len(x):]
        h.pos += len(x)

    def reading(self, v, mode, want):
        """One read, and its result looked at."""
        self.n += 1
        self.reads += want != ""
        self.emit("let r%d = %s->read(%s)" % (self.n, v, mode))
        self.emit("echo len r%d" % self.n, str(len(want)))
        if len(want) > 2000 and len(set(want)) == 1:
            lit = "%s->rep(%d)" % (strlit(want[0]), len(want))
        else:
            lit = strlit(want)
        self.emit("echo r%d == %s" % (self.n, lit), "true")

    def op_read(self, v, h):
        s = self.s
        if s.chance(35):
            # all of it, from wherever we are
            want = self.files[h.path] if h.reads else ""
            if len(want) > 30000:
                return
            self.reading(v, "'a'", want)
            h.pos = len(want) if h.reads else 0
            h.last, h.eof, h.dirty = ("r", True, False) if h.reads else (None, False, False)
            return
        if not h.reads:
            if s.chance(30):
                self.reading(v, "", "")
            return
        if h.last == "w":
            return self.op_seek(v, h)
        for _ in range(s.many(1, 4, 50)):
            f = self.files[h.path]
            i = f.find("\n", h.pos)
            want = f[h.pos:] if i < 0 else f[h.pos:i]
            if i < 0:
                h.eof = True
            h.pos = max(h.pos, len(f)) if i < 0 else i + 1
            h.last = "r"
            self.reading(v, s.choice(["", "'l'", "undef"]), want)

    def op_seek(self, v, h):
        s = self.s
        w = s.choice(["set", "cur", "end"])
        n = len(self.files[h.path])
        base = {"set": 0, "cur": h.pos, "end": n}[w]
        if w == "cur" and h.mode == "a" and h.last != "w":
            return  # where an appending file is before it writes can't be seen
        k = s.draw(10)
        to = s.draw(n + 1) if k < 6 else 0 if k == 6 else n if k == 7 else n + s.choice([1, 3, 100, 5000]) if k == 8 else -s.choice([1, 2, 1 << 40])
        off = to - base
        form = ["'%s', %d" % (w, off)]
        if off == 0:
            form.append("'%s'" % w)
        if w == "set":
            form.append("undef, %d" % off)
            if off == 0:
                form.append("")
        self.emit("echo %s->seek(%s)" % (v, s.choice(form)), "true" if to >= 0 else "false")
        if to >= 0:
            h.pos, h.last, h.eof, h.dirty = to, None, False, False

    def op_bad(self, v, h):
        s = self.s
        shut = [x for x, y in self.h.items() if y and not y.open]
        if shut and s.chance(50):
            x = s.choice(shut)
            return self.fail("echo %s->%s" % (x, s.choice(["read()", "read('a')", "write('abc')", "seek('set', 0)", "seek()", "flush()", "close()", "close()"])), 7)
        p = self.path(s.choice(PATHS))
        line, st = s.choice([
            ("echo %s->read('x')" % v, 7), ("echo %s->read('')" % v, 7), ("echo %s->read('al')" % v, 7), ("echo %s->read(5)" % v, 5), ("echo %s->read(true)" % v, 5),
            ("echo %s->write(5)" % v, 5), ("echo %s->write()" % v, 5), ("echo %s->write(['a'])" % v, 5), ("echo %s->write(1.5)" % v, 5),
            ("echo %s->seek('bad', 1)" % v, 7), ("echo %s->seek('SET')" % v, 7), ("echo %s->seek('set', 'x')" % v, 5), ("echo %s->seek(5, 5)" % v, 5), ("echo %s->seek('set', 1.0)" % v, 5),
            ("echo io.open(%s, 'rw')" % p, 7), ("echo io.open(%s, 'x')" % p, 7), ("echo io.open(%s, '')" % p, 7), ("echo io.open(%s, 'rb')" % p, 7), ("echo io.open(%s, 'r++')" % p, 7),
            ("echo io.open(%s, 'x+')" % p, 7), ("echo io.open(%s, 5)" % p, 5), ("echo io.open(5)", 5), ("echo io.open(undef, 'r')", 5), ("echo io.open()", 5), ("echo io.open(['a'], 'w')", 5),
            ("echo %s.read([])" % v, 5), ("echo %s.close('a')" % v, 5), ("echo %s.write({}, 'x')" % v, 5), ("echo %s.flush()" % v, 5), ("echo %s.seek(1, 'set', 1)" % v, 5),
            ("echo io.open('/dev/full', 'w')->nosuch()", 7)])
        self.fail(line, st)

    def session(self):
        s = self.s
        for _ in range(s.many(3, 12, 90)):
            self.lines, self.out, self.status = [], [], 0
            for _ in range(s.int(1, 6)):
                self.op()
                if self.status:
                    break
            if self.lines:
                if not self.status and s.chance(30):
                    self.emit("echo 'ok'", "ok")
                self.inputs.append(["\n".join(self.lines) + "\n", self.status, "".join(self.out).replace("\0", "")])
        return [self.init, self.inputs, self.files, self.reads, self.writes]


class C23(Check):
    id = "C23"
    technique = "stateful model-based testing: generated histories of file operations against a model of file contents and positions"
    rule = ("histories of up to 60 operations (open in every mode, write, read a line or all, seek, flush, close, drop, misuse) on up to 4 open files "
            "in a scratch directory, contents of any bytes up to ~30 KB with sizes around those of buffers; the files are compared when the state is gone; "
            "and input through a pipe; non-trivial: something was written and something read back")
    note = ("Random search. Reading right after writing, and writing right after reading, without a seek or flush in between is undefined in C and "
            "not generated; a file isn't open twice, except to look at what was flushed.")
    quick = 36000
    thorough = 700000
    programs = ("runner", "cli")

    def gen(self, s):
        if s.chance(3):
            # from a pipe
            g = G(s)
            text = g.content()
            lines, out, pos = [], [], 0
            g.lines, g.out = lines, out
            for _ in range(s.many(1, 6, 75)):
                k = s.draw(4)
                if k == 0:
                    want, pos = text[pos:], len(text)
                    g.reading("io.stdin", "'a'", want)
                else:
                    i = text.find("\n", pos)
                    want = text[pos:] if i < 0 else text[pos:i]
                    pos = len(text) if i < 0 else i + 1
                    g.reading("io.stdin", "", want)
            return ["pipe", text, "\n".join(lines) + "\n", "".join(out)]
        return G(s).session()

    def show(self, case):
        if case[0] == "pipe":
            return f"{case[1]!r} |\n{case[2]}"
        cut = lambda x: x if len(x) < 400 else x[:200] + "..." + x[-100:]
        return "\n".join(f"{p!r}: {cut(c)!r}" for p, c in case[0].items()) + "\n" + "---\n".join("".join(cut(l) + "\n" for l in x[0].split("\n")[:-1]) for x in case[1])

    def test(self, case, env):
        d = env.clean_tmp()
        if case[0] == "pipe":
            env.ran = True
            src = case[2]
            if "\0" in src or len(src) > 100000:
                with open(os.path.join(d, "s"), "w", encoding="latin-1") as f:
                    f.write(src)
                r = c21.CLI.run([os.path.join(d, "s")], d, case[1].encode("latin-1"))
            else:
                r = c21.CLI.run(["-E", src], d, case[1].encode("latin-1"))
            if r is None:
                return "hang: reading a pipe", ["pipe"], True
            f = None
            if r[0] != 0 or r[2] or common.latin(r[1]) != case[3]:
                f = f"pipe: status {r[0]}, output {r[1][-500:]!r}, expected {case[3][-500:]!r} ({r[2][-300:]!r})"
            return f, ["pipe"], len(case[1]) > 0
        init, inputs, files, reads, writes = case
        for p, c in init.items():
            with open(os.path.join(d, p), "wb") as f:
                f.write(c.encode("latin-1"))
        r = env.run(client.REPL, *[x[0].replace("@DIR@", d) for x in inputs])
        labels = sorted({"status%d" % x[1] for x in inputs}) + [m for m in ("'r'", "'w'", "'a'", "'r+'", "'w+'", "'a+'") if any(", %s)" % m in x[0] for x in inputs)]
        nt = reads > 0 and writes > 0
        c = common.crashed(r)
        if c:
            return c, labels, nt
        outs, errs = r.outs(), r.errs()
        if len(outs) != len(inputs):
            return f"steps: {len(outs)} of {len(inputs)} inputs ran", labels, nt
        for i, (src, st, out) in enumerate(inputs):
            got = common.latin(outs[i])
            if got != out:
                return f"output: input {i}: expected {out[-600:]!r}, got {got[-600:]!r} (status {r.statuses[i]}, {errs[i][-300:]!r})", labels, nt
            if r.statuses[i] != st:
                return f"status: input {i}: expected {st}, got {r.statuses[i]} ({errs[i][-300:]!r})", labels, nt
            if bool(st) != bool(errs[i]) or st and not errs[i].startswith(common.KIND[st].encode()):
                return f"stderr: input {i}: status {st}, {errs[i][-300:]!r}", labels, nt
        have = sorted(os.listdir(d))
        if have != sorted(files):
            return f"files: {have} are there, expected {sorted(files)}", labels, nt
        for p, c in files.items():
            with open(os.path.join(d, p), "rb") as f:
                b = common.latin(f.read())
            if b != c:
                i = next((i for i, (x, y) in enumerate(zip(b, c)) if x != y), min(len(b), len(c)))
                return f"content: {p!r} has {len(b)} bytes, expected {len(c)}; at {i} {b[i:i + 60]!r}, expected {c[i:i + 60]!r}", labels, nt
        if r.leaked:
            return f"leak: {r.leaked} blocks", labels, nt
        return None, labels, nt


check = C23()
