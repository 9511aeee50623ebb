"""C13: sort yields the ordered permutation."""
import math
from ..engine import Check
from .. import client, common, gen, syntax

SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50]
BIG = [63, 64, 65, 100, 127, 128, 129, 150, 200, 255, 257, 300]
B63 = 1 << 63


def text(v):
    if v is None:
        return "undef"
    if v is True or v is False:
        return str(v).lower()
    if isinstance(v, list):
        return "[" + ", ".join(map(text, v)) + "]"
    return syntax.expr(("lit", v))


def part_text(v):
    """A str as part of one that isn't the script's own, if it can be."""
    for w in ("true", "false", "undef"):
        if v and v in w:
            i = w.index(v)
            return "%s->tostr()[%d:%d]" % (w, i, i + len(v))
    return text(v)


def shown(v):
    from ..model import ftext
    if type(v) is float:
        return ftext(v)
    return str(v)


class C13(Check):
    id = "C13"
    technique = "property-based testing: sorted lists against the permutation/order/idempotence oracle"
    rule = ("lists of 0-300 ints, floats, both or strs in several initial orders and degrees of duplication, built in several "
            "ways and sorted directly, through an alias, in a function or twice; some lists with an element that can't be "
            "sorted; non-trivial: two or more elements that aren't all equal")
    note = ("Random lists; where ints and floats are mixed the ints are within 2**53, so that the numeric order is total; "
            "equal elements may come out in any order; lists with NaN are left out.")
    quick = 100000
    thorough = 3000000

    def num(self, s, kind, spread):
        if kind == "int":
            if s.chance(spread):
                return gen.gint(s)
            return s.int(-9, 9)
        if kind == "float":
            k = s.draw(12)
            if k == 0:
                return s.choice([math.inf, -math.inf, 1e300, -1e300, 1e15, 0.5, -0.0, 0.0, 9007199254740994.0])
            return s.int(-800, 800) / 8 if s.chance(spread) else s.int(-9, 9) / 2
        if s.chance(50):
            return self.num(s, "float", spread)
        v = self.num(s, "int", spread)
        return v if abs(v) <= 1 << 53 else s.int(-100, 100)

    def gen(self, s):
        kind = s.weighted([(3, "int"), (2, "str"), (2, "float"), (3, "mixed")])
        if s.chance(1):
            # computed by the program
            n, m = s.choice([260, 600, 1025, 3000, 6000]), s.choice([7, 1000, 65536, 1 << 40])
            a, b = s.draw(m), s.draw(m)
            div = s.choice([None, None, 2.0])
            return ["float" if div else "int", [(k * a + b) % m / div if div else (k * a + b) % m for k in range(n)], None, None,
                    (n, a, b, m, div), s.draw(6)]
        n = s.choice(SIZES) if s.chance(92) else s.choice(BIG)
        spread = s.choice([0, 5, 40, 100])
        if kind == "str":
            pre = gen.gstr(s, 3)
            few = s.choice([1, 2, 4, 50])
            pool = []
            part = s.chance(20)
            for _ in range(few):
                if part:
                    pool.append(gen.shared(s)[1])
                    continue
                k = s.draw(4)
                pool.append((pre + gen.gstr(s, 2)) if k == 0 else gen.gstr(s, 5) if k == 1 else
                            chr(s.draw(256)) if k == 2 else pre[:s.draw(4)] + s.choice(["", "\0", "\x7f", "\x80", "\xff"]))
            xs = [s.choice(pool) for _ in range(n)]
        else:
            few = s.choice([0, 0, 1, 2, 5])
            pool = [self.num(s, kind, spread) for _ in range(few)]
            xs = [s.choice(pool) if few else self.num(s, kind, spread) for _ in range(n)]
        order = s.weighted([(6, "random"), (1, "sorted"), (1, "reversed"), (1, "pipe"), (1, "almost"), (1, "two"), (1, "saw")])
        if order != "random":
            ys = sorted(xs)
            if order == "reversed":
                ys.reverse()
            elif order == "pipe":
                ys = ys[::2] + ys[1::2][::-1]
            elif order == "two":
                ys = ys[::2] + ys[1::2]
            elif order == "saw":
                ys = [y for i in range(3) for y in ys[i::3]]
            elif order == "almost" and ys:
                i, j = s.draw(len(ys)), s.draw(len(ys))
                ys[i], ys[j] = ys[j], ys[i]
            xs = ys
        bad = None
        if s.chance(15):
            bad = s.choice([None, True, False, [], [1], "fn", "str" if kind != "str" else 0, 1.5 if kind == "str" else "",
                            "table"])
            xs = list(xs)
            where = s.choice([0, len(xs), s.draw(len(xs) + 1)])
        else:
            where = None
        build = s.draw(6)
        how = s.draw(6)
        return kind, xs, where, bad, build, how

    def source(self, case):
        kind, xs, where, bad, build, how = case
        if type(build) is tuple:
            es, xs = [], []
        es = [part_text(x) if i % 2 and type(x) is str else text(x) for i, x in enumerate(xs)]
        full = list(es)
        if where is not None:
            b = "fn() { return 1; }" if bad == "fn" else "'s'" if bad == "str" else "{'a': 1}" if bad == "table" else text(bad)
            full.insert(where, b)
        pre = ""
        if kind == "str":
            # which str each is (echo doesn't show them all)
            ids = {}
            for x in xs:
                ids.setdefault(x, len(ids))
            pre = "let ids = {}\n" + "".join(f"ids[{text(x)}] = {i}\n" for x, i in ids.items())
        h = len(full) // 2
        if type(build) is tuple:
            n, a, b, m, div = build
            mk = f"let l = []\nfor let k = 0; k < {n}; k += 1 {{\n l->push((k * {a} + {b}) % {m}{f' / {div}' if div else ''})\n}}\n"
        else:
          mk = {0: f"let l = [{', '.join(full)}]\n",
              1: f"let l = [{', '.join(full[:h])}] + [{', '.join(full[h:])}]\n",
              2: "let l = []\n" + "".join(f"l->push({e})\n" for e in full),
              3: f"let l = [0, {', '.join(full)}, 0][1:-1]\n" if full else "let l = []\n",
              4: "let l = []\n" + "".join(f"l->insert(0, {e})\n" for e in full[::-1]),
              5: f"let l = [{', '.join(full + full)}]\nfor let k = 0; k < {len(full)}; k += 1 {{\n l->pop()\n}}\n"}[build]
        do = {0: "l->sort()\n", 1: "let m = l\nm->sort()\n", 2: "fn f(q) { q->sort(); }\nf(l)\n".replace("; }", "\n}"),
              3: "[l, 1][0]->sort()\n", 4: "l->sort()\nl->sort()\n", 5: "let o = {'l': l}\no.l->sort()\n"}[how]
        each = "ids[x]" if kind == "str" else "x"
        if where is not None and kind == "str":
            each = "ids[x] ?? 's'"
        if where is not None and bad == "fn":
            show = "echo len l\n"
        elif where is not None:
            show = "for x <- l {\n echo x == [] ? 'L' : (x == [1] ? 'M' : (x == {'a': 1} ? 'T' : %s))\n}\n" % (each)
        else:
            show = "for x <- l {\n echo %s\n}\n" % each
        again = "echo '--'\nlet c = l[:]\nc->sort()\nfor i <- c {\n echo %s\n}\n" % each.replace("x", "i") if where is None else ""
        return [pre + mk + (show if where is not None else ""), do, show + again]

    def show(self, case):
        return "---\n".join(self.source(case))

    def test(self, case, env):
        kind, xs, where, bad, build, how = case
        srcs = self.source(case)
        r = env.run(client.REPL, *srcs)
        c = common.crashed(r)
        nt = len(xs) > 1 and any(x != xs[0] for x in xs)
        labels = [kind, "bad" if where is not None else "good"] + (["big"] if len(xs) > 50 else [])
        if c:
            return c, labels, nt
        outs = [common.latin(o) for o in r.outs()]
        if r.statuses[0] != 0 or r.statuses[2] != 0:
            return f"status: {r.brief()}", labels, nt
        sortable = where is None or not xs and bad in ("str", 1.5, 0, "") and bad is not False
        if not sortable:
            if r.statuses[1] != 7 or not r.err.startswith(b"ValueError"):
                return f"unsortable: no ValueError: {r.brief()}", labels, nt
            if outs[2] != outs[0]:
                return f"unsortable: the list changed from {outs[0]!r} to {outs[2]!r}", labels, nt
            return None, labels, nt
        if r.statuses[1] != 0 or r.err:
            return f"status: {r.brief()}", labels, nt
        if where is not None:
            return None, labels, nt
        a, b = outs[2].split("--\n")
        if a != b:
            return f"again: sorting again gave {b!r} for {a!r}", labels, nt
        got = a.split("\n")[:-1]
        if kind == "str":
            ids = []
            for x in xs:
                if x not in ids:
                    ids.append(x)
            if not all(g.isdigit() and int(g) < len(ids) for g in got):
                return f"elements: {got} aren't all of the list", labels, nt
            vals = [ids[int(g)] for g in got]
            if sorted(xs) != vals:
                return f"order: {vals} from {xs}", labels, nt
            return None, labels, nt
        if sorted(got) != sorted(shown(x) for x in xs):
            return f"elements: {got} from {xs}", labels, nt
        vals = [float(g) if "." in g or "inf" in g else int(g) for g in got]
        if any(x > y for x, y in zip(vals, vals[1:])):
            return f"order: {got}", labels, nt
        return None, labels, nt


check = C13()
