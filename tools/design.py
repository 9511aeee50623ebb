"""Fills the tables of /verif/DESIGN.md (between the marker lines) from the checks, seeds and known findings."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def checks():
    for i in range(1, 30):
        m = importlib.import_module("yv.props.c%02d" % i)
        for v in vars(m).values():
            if getattr(v, "id", None) == "C%02d" % i:
                yield v() if isinstance(v, type) else v
                break


def plan():
    titles = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        titles[d["id"]] = d["title"]
    out = []
    for c in checks():
        try:
            ev = json.load(open(os.path.join(V, "evidence", c.id + ".json")))
            cost = f" The last quick run took {ev['wall_s']:.0f} s." if ev["tier"] == "quick" else ""
        except OSError:
            cost = ""
        extra = EXTRA.get(c.id, "")
        out.append(f"### {c.id} {titles[c.id]}\n\n*Method:* {c.technique}.\n\n*Cases:* {c.rule}. "
                   f"{c.quick} cases in a quick run, {c.thorough} in a thorough one.\n\n"
                   f"*Bounds and trust:* {c.note}" + (f"\n\n*Beyond the tests:* {extra}" if extra else "") + "\n")
    return "\n".join(out)


EXTRA = {}


def seeds():
    out = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        cell = m["needs"].replace("|", "\\|")
        out.append(f"| {n} | {m['property']} | {cell} | {CAUGHT.get(n, m['property'])} |")
    return "\n".join(out)


CAUGHT = {}
p = os.path.join(V, "tools", "caught.json")
if os.path.exists(p):
    CAUGHT = json.load(open(p))


def known():
    k = json.load(open(os.path.join(V, "known_findings.json")))
    out = ["Recorded, not repaired:", ""]
    for f in k["findings"]:
        out.append(f"- {f['property']}: {f['what']}.")
    out += ["", "Repaired (each a `fix:` commit in /repo):", ""]
    for f in k["fixed"]:
        out.append("- " + f[len("fixed: property="):])
    return "\n".join(out)


path = os.path.join(V, "DESIGN.md")
s = open(path).read()
for name, f in (("plan", plan), ("seeds", seeds), ("known", known)):
    a, b = f"<!-- {name} -->\n", f"<!-- end {name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + f() + "\n" + s[j:]
open(path, "w").write(s)
