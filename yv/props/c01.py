"""C01: operators and precedence, against the model's evaluation of the tree."""
from ..engine import Check
from .. import client, common, gen, model, syntax

# prints a value with its type; w is the value it should have (to see floats exactly)
SHOW = '''fn show(v, w) {
  match v {
    int {
      echo 'int ' ~ v
    }
    float {
      echo 'float ' ~ v ~ ' ' ~ (v == w)
    }
    str {
      echo 'str ' ~ len v ~ ' ' ~ v
    }
    bool {
      echo 'bool ' ~ v
    }
    undef {
      echo 'undef'
    }
    * {
      echo 'other'
    }
  }
}
'''


def shown(v):
    t = model.typename(v)
    if t == "undef":
        return "undef\n"
    if t == "str":
        return f"str {len(v)} {v}\n".replace("\0", "")
    if t == "float":
        return f"float {model.ftext(v)} {'false' if v != v else 'true'}\n"
    return f"{t} " + ("true" if v is True else "false" if v is False else str(v)) + "\n"


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, tuple))


def evaluate(decls, exprs):
    """Model values of the exprs until one fails: (values, status, interp)."""
    it = model.Interp()
    env = model.base_env(it)
    for n, e in decls:
        env = (n, [it.ev(e, env)], env)
    vals = []
    for e in exprs:
        try:
            vals.append(it.ev(e, env))
        except model.YErr as x:
            return vals, x.status, it
    return vals, model.OK, it


class C01(Check):
    id = "C01"
    technique = "property-based testing: generated typed expression trees against a reference evaluator"
    note = ("Random search over expression trees of depth up to 6 with boundary operands; trusts the reference "
            "evaluator (yv/model.py) written from the language definition and C's double arithmetic.")
    rule = ("programs of 1-6 generated expressions (depth <= 6, boundary operands, printed with minimal parentheses, "
            "operands both literals and variables); non-trivial: some expression has 3 or more operators")
    quick = 80000
    thorough = 400000

    def gen(self, s):
        decls, scope = [], {}
        for i in range(s.many(0, 8, 85)):
            t = s.weighted([(4, "int"), (3, "float"), (2, "bool"), (2, "str"), (1, "undef")])
            n = "v%d" % i
            decls.append((n, ("lit", gen.scalar(s, t))))
            scope.setdefault(t, []).append(n)
        g = gen.ExprGen(s, scope, leaf_lit=40, wrong=1)
        exprs = [g.gen("any", s.int(1, 6)) for _ in range(s.many(1, 6, 70))]
        if s.chance(20):
            exprs.append(self.side(s, g))
        return decls, exprs

    def side(self, s, g):
        """Operands with effects: which are evaluated, and in what order."""
        def tr(d):
            k = s.draw(5)
            if d <= 0 or k == 0:
                return ("call", ("var", "tr"), [("lit", s.int(0, 99)), g.leaf(s.choice(gen.TYPES))])
            if k == 1:
                return ("tern", tr(d - 1), tr(d - 1), tr(d - 1))
            if k == 2:
                return ("bin", "==", tr(d - 1), tr(d - 1))
            return ("bin", s.choice(["&&", "||", "??", "~"]), tr(d - 1), tr(d - 1))
        return ("bin", "~", ("lit", "<"), tr(s.int(1, 4)))

    def source(self, case, vals):
        decls, exprs = case
        out = [SHOW, "fn tr(n, v) {\n  echo 'tr ' ~ n\n  return v\n}\n"]
        for n, e in decls:
            out.append(f"let {n} = {syntax.expr(e)}\n")
        for i, e in enumerate(exprs):
            w = syntax.expr(("lit", vals[i])) if i < len(vals) and type(vals[i]) is float else "undef"
            out.append(f"show({syntax.expr(e)}, {w})\n")
        return "".join(out)

    def show(self, case):
        return self.source(case, evaluate_all(case)[0])

    def test(self, case, env):
        vals, st, it = evaluate_all(case)
        it.err = None
        r = env.run(client.EXEC, self.source(case, vals))
        ops = max([size(e) for e in case[1]] or [0])
        labels = ["status%d" % st] + ["type:" + model.typename(v) for v in vals]
        c = common.crashed(r)
        if c:
            return c, labels, ops >= 7
        exp = it.text_out
        out = common.latin(r.out)
        if out != exp:
            return f"output: expected {exp!r} (status {st}), got {out!r} (status {r.status}, {r.err[:200]!r})", labels, ops >= 7
        if r.status != st:
            return f"status: expected {st}, got {r.status} ({r.err[:200]!r})", labels, ops >= 7
        err = common.latin(r.err)
        if (st == model.OK) != (err == "") or (st and not err.startswith(common.KIND[st])):
            return f"stderr: {err[:200]!r} for status {st}", labels, ops >= 7
        return None, labels, ops >= 7


def evaluate_all(case):
    decls, exprs = case
    it = model.Interp()
    env = model.base_env(it)
    trf = model.Native("tr", 2, lambda i, a: (i.out.append("tr %d\n" % a[0]), [a[1]])[1])
    env = ("tr", [trf], env)
    for n, e in decls:
        env = (n, [it.ev(e, env)], env)
    vals, st = [], model.OK
    for e in exprs:
        try:
            v = it.ev(e, env)
        except model.YErr as x:
            st = x.status
            break
        vals.append(v)
        it.out.append(shown(v))
    it.text_out = "".join(it.out)
    return vals, st, it


check = C01()
