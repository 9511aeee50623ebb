"""Talks to harness/runner: one process, many cases."""
import os, struct, subprocess, tempfile
from . import build

EXEC, FILE, COMPILE, HIST, REPL, API, TOSTR, BARE, COMPILE_FILE, HISTFILE, MULTI = range(11)
SHORT = 0x100  # with one of the above: at most 1 s
FRESH = 0x200  # with one of the above: in a process that ran nothing before

ASAN = ("abort_on_error=0:exitcode=99:detect_leaks=0:quarantine_size_mb=24:malloc_context_size=6:"
        "allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=0:"
        "handle_abort=1:symbolize=%d")


class Result:
    """What running one case showed.

    crash: None, or why the process died ('cpu', 'memcap', 'sanitizer', 'signal N', 'exit N').
    """
    __slots__ = ("crash", "statuses", "marks", "emarks", "leaked", "out", "err")

    def __init__(self, crash, statuses=(), marks=(), leaked=0, out=b"", err=b"", emarks=()):
        self.emarks = list(emarks)
        self.crash, self.statuses, self.marks = crash, list(statuses), list(marks)
        self.leaked, self.out, self.err = leaked, out, err

    @property
    def status(self):
        return self.statuses[-1] if self.statuses else None

    def outs(self):
        """Output of each step."""
        r, at = [], 0
        for m in self.marks:
            r.append(self.out[at:m])
            at = m
        return r

    def errs(self):
        """Error output of each step."""
        r, at = [], 0
        for m in self.emarks:
            r.append(self.err[at:m])
            at = m
        return r

    def brief(self):
        if self.crash:
            return f"crash={self.crash} err={self.err[-1500:].decode('utf-8', 'replace')}"
        return (f"statuses={self.statuses} leaked={self.leaked} out={self.out[-1500:]!r} "
                f"err={self.err[-600:]!r}")


class Runner:
    def __init__(self, variant="asan", symbolize=False, cwd=None):
        self.exe = build.build("runner", variant)
        self.symbolize = symbolize
        self.cwd = cwd
        self.proc = None
        self.errfile = None

    def _start(self):
        if self.errfile is None:
            fd, self.errfile = tempfile.mkstemp(prefix="yv-err-")
            os.close(fd)
        env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "ASAN_OPTIONS": ASAN % self.symbolize,
               "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
               "MSAN_OPTIONS": "exitcode=99:symbolize=%d" % self.symbolize}
        self.proc = subprocess.Popen([self.exe, self.errfile], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, env=env, bufsize=0, cwd=self.cwd)
        self.count = 0

    def close(self):
        if self.proc:
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            self.proc.kill()
            self.proc.wait()
            self.proc.stdout.close()
            self.proc = None
        if self.errfile:
            os.unlink(self.errfile)
            self.errfile = None

    def _rd(self, n):
        b = bytearray()
        while len(b) < n:
            k = self.proc.stdout.read(n - len(b))
            if not k:
                raise EOFError
            b += k
        return bytes(b)

    def run(self, mode, *parts, fresh=False):
        parts = [p.encode("latin-1") if isinstance(p, str) else bytes(p) for p in parts]
        if self.proc is None or fresh or self.count >= 3000:
            if self.proc is not None:
                e = self.errfile
                self.errfile = None
                self.close()
                self.errfile = e
            self._start()
        self.count += 1
        msg = struct.pack("<II", mode, len(parts)) + b"".join(struct.pack("<I", len(p)) + p for p in parts)
        try:
            try:
                mv = memoryview(msg)
                while mv:
                    mv = mv[self.proc.stdin.write(mv):]
            except BrokenPipeError:
                raise EOFError
            nst, = struct.unpack("<I", self._rd(4))
            st = struct.unpack(f"<{nst}i", self._rd(4 * nst))
            marks = struct.unpack(f"<{nst}I", self._rd(4 * nst))
            emarks = struct.unpack(f"<{nst}I", self._rd(4 * nst))
            leaked, = struct.unpack("<q", self._rd(8))
            n, = struct.unpack("<I", self._rd(4))
            out = self._rd(n)
            n, = struct.unpack("<I", self._rd(4))
            err = self._rd(n)
            return Result(None, st, marks, leaked, out, err, emarks)
        except EOFError:
            rc = self.proc.wait()
            self.proc.stdout.close()
            self.proc.stdin.close()
            self.proc = None
            with open(self.errfile, "rb") as f:
                err = f.read()[-20000:]
            why = {97: "cpu", 98: "memcap", 99: "sanitizer"}.get(rc, f"exit {rc}" if rc >= 0 else f"signal {-rc}")
            return Result(why, err=err)


def run_fresh(mode, *parts, variant="asan", symbolize=True):
    r = Runner(variant, symbolize=symbolize)
    try:
        return r.run(mode, *parts)
    finally:
        r.close()
