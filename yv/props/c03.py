"""C03: control flow, against the model."""
from ..progcheck import ProgCheck

V = lambda n: ("var", n)
L = lambda v: ("lit", v)
B = lambda op, a, b: ("bin", op, a, b)


def long_loop(s):
    """Loops that go round many times."""
    m = s.weighted([(4, 200), (4, 260), (4, 300), (4, 1100), (1, s.choice([33000, 66000]))]) + s.int(0, 9)
    q, i, n, h, e = V("lq"), V("li"), V("ln"), V("lh"), V("le")
    cfor = lambda body: ["cfor", "li", L(0), B("<", i, L(m)), ["aug", "+", i, L(1)], body]
    add = lambda x, y: ["aug", "+", x, y]
    k = s.draw(5)
    brk = s.chance(40) and s.choice([m - 1, m // 2, 130, 257, m + 1])
    step = [add(n, L(1)), ["if", [(B("==", B("%", n, L(s.int(2, 7))), L(1)), [["continue"]])], None], add(h, L(1))]
    if brk:
        step.append(["if", [(B(">=", n, L(brk)), [["break"]])], None])
    runaway = ["if", [(B(">", n, L(m + 5)), [["echo", L("too long")], ["break"]])], None]
    out = [["let", "ln", L(0)], ["let", "lh", L(0)]]
    if k == 0:
        out += [["let", "lq", ("list", [])], cfor([["expr", ("mcall", q, "push", [B("%", i, L(s.int(2, 9)))])]]),
                ["for", "le", q, [runaway] + step + [add(h, e)]]]
    elif k == 1:
        out += [["let", "lq", ("mcall", L("ab"), "rep", [L(min(m // 2, 30000))])], ["for", "le", q, [runaway] + step]]
    elif k == 2:
        # (in no particular order)
        out += [["let", "lq", ("table", [])], cfor([["setidx", q, i, L(1)]]),
                ["for", "le", q, [["echo", ("idx", q, e)]]]]
    elif k == 3:
        out += [["while", B("<", n, L(m)), step]]
    else:
        # left by return, with a loop around it
        out = [["fndecl", "lf", ["lq"], [["let", "ln", L(0)], ["cfor", "li", L(0), B("<", i, L(3)), ["aug", "+", i, L(1)],
                                                          [["for", "le", q, [add(n, L(1)),
                                                                             ["if", [(B("==", n, L(brk or m)), [["return", [n, i, e]]])], None]]]]],
                                         ["return", [n]]], False],
               ["let", "lq", ("list", [])], cfor([["expr", ("mcall", q, "push", [i])]]),
               ["mlet", [("let", "ln"), ("let", "lh"), ("let", "lj")], [("call", V("lf"), [q])]]]
    return out + [["echo", ("interp", ["", n, " ", h, ""])]]


class C03(ProgCheck):
    id = "C03"
    technique = "property-based testing: generated programs of nested control flow against a reference interpreter"
    note = ("Random search over terminating programs of up to ~40 statements and 5 levels of nesting, a few of them with loops that go round up to 66000 times; trusts the "
            "reference interpreter (yv/model.py).")
    rule = ("generated programs that print at every step; non-trivial: at least 3 of if/while/for/break/continue/"
            "return/match statements, and something is printed")
    quick = 30000
    thorough = 900000
    kinds = ("if", "while", "cfor", "for", "break", "continue", "return", "match")
    least = 3
    weights = {"if": 14, "while": 8, "cfor": 9, "for": 9, "brk": 18, "match": 4, "fndecl": 5, "closures": 1, "pair": 0,
               "listop": 2, "tableop": 1, "mlet": 2, "massign": 2, "assign": 12, "aug": 10, "tfn": 1, "comp": 1}
    opts = {"size": 40, "max_depth": 5, "closures": 10}

    def gen(self, s):
        if s.chance(1):
            p = long_loop(s)
            return p + p[-1:] if s.chance(50) else [["if", [(L(True), p + [["echo", L("in")]])], None], ["echo", L("out")]]
        return super().gen(s)

    def steps(self, case):
        return 1200000 if case[-1] == ["echo", L("out")] or case[-1][0] == "echo" and case[0][:2] in (["let", "ln"], ["fndecl", "lf"]) else 20000


check = C03()
