"""Property-based testing engine: generated cases, shrinking, replay, evidence.

Every random choice of a case is drawn from a Src, which records it as a list
of small ints (0 is always the simplest choice).  A failing case is shrunk by
editing that list and generating again; the shrunk list is the replay file.
"""
import hashlib, json, multiprocessing, os, random, sys, time, traceback
from . import build, client

VERIF = build.VERIF
OUT = os.path.join(VERIF, ".out")
EVID = os.path.join(VERIF, "evidence")
WORKERS = int(os.environ.get("YV_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Discard(Exception):
    """The case can't be judged (counted; kept rare by the generators)."""


class Src:
    __slots__ = ("rng", "fixed", "log", "pos")

    def __init__(self, rng=None, fixed=None):
        self.rng, self.fixed, self.log, self.pos = rng, fixed, [], 0

    def draw(self, n):
        """An int in [0, n)."""
        if self.fixed is None:
            v = self.rng.randrange(n) if n > 1 else 0
        else:
            v = self.fixed[self.pos] if self.pos < len(self.fixed) else 0
            if v >= n:
                v = n - 1
        self.pos += 1
        self.log.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den=100):
        """True with probability num/den; False is the simplest."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def many(self, lo, hi, more=75):
        """A length, mostly short."""
        n = lo
        while n < hi and self.chance(more):
            n += 1
        return n

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Env:
    """What a check's test function runs things with."""

    def __init__(self):
        self._r = {}
        self._tmp = None
        self.ran = False

    def runner(self, variant="asan"):
        if variant not in self._r:
            self._r[variant] = client.Runner(variant)
        return self._r[variant]

    def run(self, mode, *parts, variant="asan"):
        self.ran = True
        return self.runner(variant).run(mode, *parts)

    def tmp(self):
        """A scratch directory of this process (removed at the end)."""
        if self._tmp is None:
            import tempfile
            self._tmp = tempfile.mkdtemp(prefix="yv-scratch-")
        return self._tmp

    def clean_tmp(self):
        d = self.tmp()
        for e in os.listdir(d):
            e = os.path.join(d, e)
            if os.path.isdir(e) and not os.path.islink(e):
                os.rmdir(e)
            else:
                os.unlink(e)
        return d

    def close(self):
        for r in self._r.values():
            r.close()
        self._r = {}
        if self._tmp is not None:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Check:
    """One property's check.

    gen(src) -> case; test(case, env) -> (failure message or None, labels, nontrivial);
    show(case) -> text.  A failure message starts with a short class and ':'; shrinking
    keeps the class.
    """
    id = None
    rule = ""
    level = "exploration"
    technique = ""
    note = ""
    quick = 4000
    thorough = 60000
    variants = ("asan",)
    programs = ("runner",)
    assumptions = ()

    def gen(self, s):
        raise NotImplementedError

    def test(self, case, env):
        raise NotImplementedError

    def show(self, case):
        return repr(case)

    def fixed_cases(self):
        """Cases always run first (hand-picked regressions): choice-free."""
        return []


def rng_for(seed, pid, i):
    h = hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "little"))


def one(check, env, s):
    """Generate and test one case -> (case, fail, labels, nontrivial); discards are (None, None, ...)."""
    env.ran = False
    case = None
    try:
        case = check.gen(s)
        fail, labels, nt = check.test(case, env)
        return case, fail, labels, nt
    except Discard as e:
        return None, None, ["discard:" + str(e)], False
    except Exception as e:
        if not env.ran or isinstance(e, (RecursionError, MemoryError)):
            raise
        # what came back couldn't even be read
        return case, f"unreadable: {type(e).__name__} {e} at {traceback.format_exc()[-400:]}", [], True


def klass(msg):
    return msg.split(":", 1)[0]


def shrink(check, env, choices, fail, deadline, max_tests=1500):
    """Smaller choices that fail the same way."""
    best, want = list(choices), klass(fail)
    bestmsg = fail
    tests = 0
    seen = set()

    def attempt(cand):
        nonlocal best, bestmsg, tests
        key = tuple(cand)
        if key in seen:
            return False
        seen.add(key)
        if tests >= max_tests or time.time() > deadline:
            raise TimeoutError
        tests += 1
        s = Src(fixed=cand)
        try:
            case, f, _, _ = one(check, env, s)
        except (RecursionError, MemoryError):
            return False
        if f is None or klass(f) != want:
            return False
        log = s.log
        while log and log[-1] == 0:
            log = log[:-1]
        if (len(log), log) < (len(best), best):
            best, bestmsg = log, f
            return True
        return False

    try:
        attempt(best)
        improved = True
        while improved:
            improved = False
            size = max(1, len(best) // 2)
            while size >= 1:
                i = 0
                while i < len(best):
                    if attempt(best[:i] + best[i + size:]):
                        improved = True
                    else:
                        i += size
                size //= 2
            size = max(1, min(16, len(best) // 2))
            while size >= 1:
                for i in range(0, len(best), size):
                    if any(best[i:i + size]):
                        if attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                            improved = True
                size //= 2
            for i in range(len(best)):
                if i >= len(best):
                    break
                lo, v = 0, best[i]
                while lo < v and i < len(best):
                    mid = (lo + v) // 2
                    if attempt(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        v = best[i] if i < len(best) else 0
                    else:
                        lo = mid + 1
    except TimeoutError:
        pass
    return best, bestmsg, tests


def _worker(check, seed, todo, w, nw, q, stop, deadline):
    env = Env()
    labels, nts, n, samples = {}, set(), 0, []
    err = None
    shrunk = 0
    try:
        for i in range(w, todo, nw):
            if stop.is_set() or time.time() > deadline:
                break
            s = Src(rng_for(seed, check.id, i))
            case, fail, labs, nt = one(check, env, s)
            n += 1
            for l in labs:
                labels[l] = labels.get(l, 0) + 1
            if case is not None and nt:
                text = check.show(case)
                h = hashlib.sha256(text.encode("utf-8", "replace")).digest()[:8]
                if h not in nts:
                    nts.add(h)
                    if len(samples) < 3 and i >= nw * 2:
                        samples.append(text[:1500])
            if fail is not None:
                # reproduce before believing it
                c2, f2, _, _ = one(check, env, Src(fixed=s.log))
                if f2 is None:
                    labels["unreproduced"] = labels.get("unreproduced", 0) + 1
                    continue
                stop.set()
                best, msg, tests = shrink(check, env, s.log, f2, min(deadline, time.time() + 90))
                q.put(("fail", i, best, msg, tests))
                break
    except Exception:
        err = traceback.format_exc()
    finally:
        env.close()
    q.put(("done", w, n, labels, nts, samples, err))


def run(check, tier, seed, cap=None, count=None):
    t0 = time.time()
    for p in check.programs:
        for v in check.variants:
            build.build(p, v)
    if hasattr(check, "prepare"):
        check.prepare()
    total = count or (check.quick if tier == "quick" else check.thorough)
    cap = cap or (480 if tier == "quick" else 3 * 3600)
    deadline = t0 + cap
    known, kf_lines, n_known = run_known(check)
    ctx = multiprocessing.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    ps = [ctx.Process(target=_worker, args=(check, seed, total, w, WORKERS, q, stop, deadline))
          for w in range(WORKERS)]
    for p in ps:
        p.start()
    done, fails, labels, nts, n, samples, errs = 0, [], {}, set(), 0, [], []
    while done < WORKERS:
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        if m[0] == "fail":
            fails.append(m[1:])
        else:
            _, w, k, labs, s, sm, err = m
            done += 1
            n += k
            nts |= s
            samples += sm
            for l, c in labs.items():
                labels[l] = labels.get(l, 0) + c
            if err:
                errs.append(err)
    for p in ps:
        p.join(10)
    if done < WORKERS and not fails:
        errs.append("a worker died: " + ", ".join(str(p.exitcode) for p in ps))
    violations = []
    if known:
        violations.append(known)
    for i, choices, msg, tests in sorted(fails)[:2]:
        path = save_replay(check, seed, tier, i, choices, msg)
        ok = all(replay_once(check, choices) for _ in range(3))
        if ok:
            violations.append((path, msg))
            break
        labels["unreproduced"] = labels.get("unreproduced", 0) + 1
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level,
          "coverage": {"evaluations": n + n_known, "distinct_nontrivial": len(nts), "rule": check.rule,
                       "samples": samples[:6] or ["(none)"], "planned": total, "labels": dict(sorted(labels.items())),
                       "stopped_early": n < total},
          "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(EVID, check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in kf_lines:
        print(l)
    if violations:
        path, msg = violations[0]
        print(msg)
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if errs:
        print(errs[0])
        return 3
    print(f"{check.id}: {n} cases, {len(nts)} distinct non-trivial, {time.time() - t0:.1f} s, no violation")
    return 0


def save_replay(check, seed, tier, i, choices, msg):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.id}-{seed}-{tier}-{i}.json")
    try:
        case = check.gen(Src(fixed=choices))
        text = check.show(case)
    except Exception as e:
        text = f"(not shown: {e})"
    with open(path, "w") as f:
        json.dump({"property": check.id, "seed": seed, "index": i, "choices": choices, "failure": msg,
                   "case": text}, f, indent=1)
    return path


def replay_once(check, choices):
    """True if the choices fail, in a runner of their own."""
    env = Env()
    try:
        _, f, _, _ = one(check, env, Src(fixed=choices))
        return f
    finally:
        env.close()


KNOWN = os.path.join(VERIF, "known_findings.json")


def run_known(check):
    """Reruns the listed findings of this property: (violation or None, lines, how many)."""
    if not os.path.exists(KNOWN):
        return None, [], 0
    lines, n = [], 0
    bad = None
    env = Env()
    try:
        for k in json.load(open(KNOWN)).get("findings", []):
            if k["property"] != check.id:
                continue
            n += 1
            if known_still_fails(k, env):
                lines.append(f"KNOWN-FINDING: property={check.id} {k['what']}")
    finally:
        env.close()
    return bad, lines, n


def known_still_fails(k, env):
    """A finding's program doesn't (yet) produce what it should."""
    r = env.run(client.EXEC, k["program"])
    if r.crash:
        return True
    want = k["expected"]
    if "leaked" in want:
        return r.leaked != want["leaked"]
    if want.get("err", "") not in r.err.decode("latin-1"):
        return True
    return [r.status, r.out.decode("latin-1")] != [want["status"], want["out"]]
