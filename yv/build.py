"""Builds the harness programs from /repo's current working tree.

Build products go to /verif/.build (git-ignored), keyed by a digest of the
sources, the harness and the flags, so a rebuild happens exactly when the code
that decides a property changed.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("YV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
INCS = [".", "compiler", "data-structures", "interpreter", "util", "std"]
SAN = ("-fsanitize=address,bounds,null,bool,return,unreachable,integer-divide-by-zero "
       "-fno-sanitize-recover=all").split()
COMMON = "-std=gnu99 -w -g1 -fno-omit-frame-pointer -D_GNU_SOURCE -fwrapv".split()
WRAP = [f"-Wl,--wrap={f}" for f in ("malloc", "calloc", "realloc", "free")]

VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("clang", COMMON + ["-O1"] + SAN, SAN),
    "plain": ("gcc", COMMON + ["-O0"], []),
    "msan": ("clang", COMMON + ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"],
             ["-fsanitize=memory"]),
    "cov": ("clang", COMMON + ["-O1", "-fprofile-instr-generate", "-fcoverage-mapping"],
            ["-fprofile-instr-generate", "-fcoverage-mapping"]),
    "fuzz": ("clang", COMMON + ["-O1", "-fsanitize=fuzzer-no-link"] + SAN, ["-fsanitize=fuzzer"] + SAN),
}


def repo_sources():
    """The library's sources, as CMakeLists.txt lists them for yaslapi."""
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"add_library\(yaslapi(.*?)\)", text, re.S)
    names = [w for w in m.group(1).split() if w.endswith(".c")]
    return sorted(set(names) - {"main.c"})


def _files():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = [d for d in dirs if not d.startswith((".", "_")) and
                   not (rel == "." and d in ("test", "benchmarks"))]
        out += [os.path.join(root, f) for f in files if f.endswith((".c", ".h", ".x", ".inl"))]
    return sorted(out)


def digest(*extra):
    h = hashlib.sha256()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace"))


def build(prog="runner", variant="asan", with_main=False):
    """Path of the built program `prog` (harness/<prog>.c, or the CLI)."""
    cc, cflags, lflags = VARIANTS[variant]
    srcs = repo_sources()
    if prog == "cli":
        main, hfiles = os.path.join(REPO, "main.c"), []
        wrap = []
    else:
        main = os.path.join(HARNESS, prog + ".c")
        hfiles = sorted(glob.glob(os.path.join(HARNESS, "*.inl"))) + [main]
        wrap = WRAP if prog == "runner" and variant != "msan" else []
    hd = [(os.path.basename(f), open(f, "rb").read()) for f in hfiles]
    os.makedirs(BUILD, exist_ok=True)
    lib_key = digest(variant, cc, cflags)
    key = hashlib.sha256(repr((lib_key, prog, hd, lflags, wrap)).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, f"{prog}-{variant}-{key}")
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        objdir = os.path.join(BUILD, f"obj-{variant}-{lib_key}")
        done = os.path.join(objdir, "done")
        inc = [f"-I{os.path.join(REPO, i)}" for i in INCS]
        if not os.path.exists(done):
            _prune()
            os.makedirs(objdir, exist_ok=True)
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                list(ex.map(lambda s: _run([cc, *cflags, *inc, "-c", os.path.join(REPO, s), "-o",
                                            os.path.join(objdir, s.replace("/", "__") + ".o")]), srcs))
            open(done, "w").close()
        objs = [os.path.join(objdir, s.replace("/", "__") + ".o") for s in srcs]
        tmp = exe + ".tmp"
        _run([cc, *cflags, *inc, f"-I{HARNESS}", main, *objs, *lflags, *wrap, "-lm", "-ldl", "-rdynamic", "-o", tmp])
        os.rename(tmp, exe)
    return exe


def _prune(keep=12):
    """Old build products of other trees go away (disk is limited)."""
    ents = sorted((e for e in os.scandir(BUILD) if e.name != "lock"), key=lambda e: e.stat().st_mtime)
    for e in ents[:-keep] if len(ents) > keep else []:
        if e.is_dir():
            shutil.rmtree(e.path, ignore_errors=True)
        else:
            os.unlink(e.path)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "plain"]:
        print(build("runner", v))
