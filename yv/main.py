"""python3-vt -m yv.main check ID [--count N] | replay FILE | show ID [n] | setup"""
import importlib, json, os, sys
from . import build, engine


def load(pid):
    m = importlib.import_module("yv.props." + pid.lower())
    return m.check


def main(argv):
    sys.setrecursionlimit(20000)
    cmd = argv[0]
    if cmd == "setup":
        for prog, v in (("runner", "asan"), ("runner", "plain"), ("cli", "asan")):
            print(build.build(prog, v))
        return 0
    if cmd == "check":
        pid = argv[1]
        tier = os.environ.get("VERIF_TIER") or "quick"
        if "--thorough" in argv:
            tier = "thorough"
        seed = int(os.environ.get("VERIF_SEED") or "1")
        count = int(argv[argv.index("--count") + 1]) if "--count" in argv else None
        return engine.run(load(pid), tier, seed, count=count)
    if cmd == "replay":
        r = json.load(open(argv[1]))
        c = load(r["property"])
        print(c.show(c.gen(engine.Src(fixed=r["choices"]))))
        f = engine.replay_once(c, r["choices"])
        print(f or "no failure")
        return 1 if f else 0
    if cmd == "show":
        c = load(argv[1])
        for i in range(int(argv[2]) if len(argv) > 2 else 3):
            s = engine.Src(engine.rng_for(int(os.environ.get("VERIF_SEED") or "1"), c.id, i))
            try:
                print(f"--- {i}\n{c.show(c.gen(s))}")
            except engine.Discard as e:
                print("discard", e)
        return 0
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
