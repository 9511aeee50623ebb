"""C21: the same source gives the same results, however it's delivered."""
import os, subprocess
from ..engine import Check, Discard
from ..hist import FNTEXT
from .. import build, client, common, progen, syntax
from . import c17, c18

ENDS = ["", "\n", "\n\n", ";", " ", "\n  ", "\n#x", "\n# x\n", "/* c */", "\n/* c", "\r", "\r\n", "\0", "\n\0", "\n\xff", "\xff", "\xfe\xff", "\n\x1a", "\n\x04", "\n1", "\n'", "\n\"a", "\necho 1",
        "\necho 12", "\necho 'a'", "\necho x", "\necho 1.", "\necho 1.5", "\necho [1]", "\n.", "\n..", "\n...", "\n/", "\n<", "\n<-", "\n\\", "\n`", "\necho 0x", "\n{", "\n}", "\necho 1 #", "\necho 1 /", "\necho __VERSION__\n"]


class CLI:
    exe = None

    @classmethod
    def run(cls, args, cwd, stdin=b""):
        """-> (status, out, err), or None if it takes too long."""
        if cls.exe is None:
            cls.exe = build.build("cli", "plain")
        try:
            p = subprocess.run([cls.exe] + [a if isinstance(a, bytes) else a.encode("latin-1") for a in args], input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=cwd, timeout=20, env={"LC_ALL": "C"})
        except subprocess.TimeoutExpired:
            return None
        return p.returncode, p.stdout, p.stderr


def pad(s):
    """Text that makes what follows it cross the end of a buffer of a usual size."""
    n = s.choice([64, 256, 1024, 4096, 8192, 16384, 65536]) * s.int(1, 2) - s.int(0, 40)
    k = s.draw(5)
    if k == 0:
        return "#" + "x" * n + "\n"
    if k == 1:
        return "/*" + "y\n" * (n // 2) + "*/"
    if k == 2:
        return "echo '" + "z" * n + "'\n"
    if k == 3:
        return " " * n
    return "echo 1\n" * (n // 7)


class C21(Check):
    id = "C21"
    technique = "differential fuzzing: generated valid, failing and invalid sources run every way a source can be delivered"
    rule = ("generated programs (failing anywhere), mutated and random sources, histories of up to 4 sources on one state; every kind of final bytes, and "
            "paddings that put tokens across the ends of buffers; each run from memory, from a file, with captured output, and a part of them through the "
            "command line tool as a file (with arguments), with -E and with -e; non-trivial: 3 or more ways were compared on a source of at least 40 bytes")
    note = ("Random search. The ways are compared with each other; what a program should do is decided by other checks. Texts of functions differ "
            "by address and are compared without it. Sources that run longer than 1 s aren't compared.")
    quick = 30000
    thorough = 500000
    variants = ("asan",)
    programs = ("runner", "cli")

    def prepare(self):
        build.build("cli", "plain")

    def source(self, s):
        k = s.draw(20)
        if k < 13:
            g = c17.G(s, {"fail": s.choice([0, 2, 10]), "fnecho": 0}, size=s.choice([4, 14]), max_depth=s.int(1, 3))
            src = syntax.source(g.program(s.int(1, 12)))[0]
        elif k < 18:
            self.odd = 1
            src = c18.check.gen(s)[1]
            if len(src) > 100000:
                raise Discard("too long")
        else:
            src = c18.check.program(s)
        if s.chance(12):
            p = pad(s)
            at = 0 if s.chance(60) else s.draw(len(src) + 1)
            src = src[:at] + p + src[at:]
        k = s.draw(10)
        if k < 1 and src.endswith("\n"):
            src = src[:-1]
        elif k < 3:
            src = src.rstrip("\n") + s.choice(ENDS)
        elif k == 3 and s.chance(60):
            src = src[:s.draw(len(src) + 1)]
        return src

    def gen(self, s):
        self.odd = 0
        return self.gen1(s) + [self.odd]

    def gen1(self, s):
        k = s.draw(20)
        if k < 15:
            return ["one", [self.source(s)], []]
        if k < 18:
            how = s.choice(["file", "file", "file", "-E", "-E", "-e", "-e", "-C"])
            src = self.source(s)
            args = []
            if how == "file" and s.chance(50):
                args = [s.choice(["", "a", "-E", "-V", "-h", "a b", "\xc3\xa9", "10", "'", "x" * 300]) for _ in range(s.int(1, 4))]
                src = "for a <- args[1:] {\n echo '<' ~ a ~ '>'\n}\necho len args\n" + src
            return [how, [src], args]
        return ["hist", [self.source(s) for _ in range(s.int(2, 4))], []]

    def show(self, case):
        return case[0] + " " + repr(case[2]) + "\n" + "\n---\n".join(x if len(x) < 6000 else repr(x[:3000]) + "..." for x in case[1])

    def test(self, case, env):
        kind, srcs, args = case[:3]
        srcs = [x.encode("latin-1") for x in srcs]
        d = env.clean_tmp()
        names = []
        for i, x in enumerate(srcs):
            names.append(os.path.join(d, "s%d.yasl" % i))
            with open(names[-1], "wb") as f:
                f.write(x)
        ran = []

        def run(what, mode, *parts):
            r = env.run(mode, *parts)
            if r.crash in ("cpu", "memcap") and (not ran or mode & 0xff == client.TOSTR and len(ran[0][1]) + len(ran[0][2]) > 200000):
                raise Discard("long")  # (under the sanitizer every message copies all the text captured so far)
            c = common.crashed(r)
            if c:
                return f"{what}: {c}"
            if mode & 0xff == client.TOSTR:
                want = [x.split(b"\0")[0] for x in ran[0][1:3]] if ran else None
                got = [r.out, r.err]
            else:
                want = None
                got = None
            e = (r.statuses, self.text(r.out), self.text(r.err))
            if ran:
                w = ran[0] if want is None else (ran[0][0], want[0], want[1])
                if e != w:
                    return f"{what}: " + self.diff(w, e)
            ran.append(e)
            return None

        def cli(what, argv, want):
            r = CLI.run(argv, d)
            if r is None:
                return f"{what}: hangs"
            ran.append(None)
            e = ([r[0]], self.text(r[1]), self.text(r[2]))
            w = ([want[0][-1] & 0xff], want[1], want[2])
            return None if e == w else f"{what}: " + self.diff(w, e)

        f = None
        x = srcs[0]
        labels = [kind]
        if kind == "hist":
            f = run("memory", client.HIST | client.SHORT, *srcs) or run("file", client.HISTFILE, *names)
            ran.append(None)
        elif kind == "one":
            f = run("memory", client.EXEC | client.SHORT, x) or run("file", client.FILE, names[0]) or run("captured", client.TOSTR, x)
            if f is None:
                labels.append("status%d" % ran[0][0][0])
        else:
            if kind == "file":
                if args or b"args" not in x:
                    # the tool declares args
                    lst = ", ".join("'" + "".join(c if c.isalnum() or c in " -" else "\\x%02x" % ord(c) for c in a) + "'" for a in ["script"] + args)
                    pre = "let args = [" + lst + "]; "
                    f = run("memory", client.EXEC | client.SHORT, pre.encode("latin-1") + x if args else x)
                    if f is None:
                        if args and ran[0][0][0] == 4:
                            raise Discard("declares args")
                        f = cli("tool", [names[0]] + args, ran[0])
                else:
                    raise Discard("uses args")
            elif kind == "-C":
                if b"args" in x:
                    raise Discard("uses args")
                f = run("memory", client.COMPILE | client.SHORT, x) or cli("tool -C", ["-C", names[0]], ran[0])
            else:
                if b"\0" in x or len(x) > 120000:
                    raise Discard("no argument")
                f = run("memory", (client.EXEC if kind == "-E" else client.REPL) | client.SHORT, x) or cli("tool " + kind, [kind, x], ran[0])
            ran.append(None)
        return f, labels, len(ran) >= 3 and sum(map(len, srcs)) >= 40

    @staticmethod
    def text(b):
        return FNTEXT.sub("<fn: ?>", b.decode("latin-1")).encode("latin-1")

    @staticmethod
    def diff(w, e):
        r = []
        for name, a, b in zip(("status", "output", "stderr"), w, e):
            if a != b:
                if isinstance(a, bytes):
                    i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                    a, b = a[max(0, i - 40):i + 200], b[max(0, i - 40):i + 200]
                r.append(f"{name} {b!r}, but from memory {a!r}")
        return "; ".join(r)


check = C21()
