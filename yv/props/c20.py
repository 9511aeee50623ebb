"""C20: each embedding call has exactly its documented effect on the stack."""
from ..engine import Check
from .. import api, client


class C20(Check):
    id = "C20"
    technique = "stateful model-based testing of call sequences of the C API, on the host's stack and inside host functions"
    rule = ("sequences of up to 60 calls (some on a stack of up to 900 values) of 50 API functions, with up to 3 host functions; "
            "non-trivial: at least 15 calls and 5 observations of the stack")
    note = "Calls outside their preconditions (popping an empty stack, throwing with no script running, a table changed during iteration) aren't made."
    quick = 40000
    thorough = 1200000

    def gen(self, s):
        g = api.ApiGen(s, nfns=s.int(0, 3))
        g.emit(("libs",))
        if s.chance(3):
            # a high stack
            g.base = s.choice([100, 126, 250, 500, 900]) + s.int(0, 9)
            for i in range(g.base):
                g.emit(s.choice([("int", i), ("lstr", "k%d" % i), ("list",), ("undef",)]) if s.chance(10) else ("int", i))
        for _ in range(s.many(3, 60, 96)):
            g.step()
        if s.chance(50):
            # everything that's left
            for i in range(len(g.st)) if len(g.st) < 100 else (0, 1, 2, len(g.st) // 2, len(g.st) - 2, len(g.st) - 1):
                g.emit(("nlook", i))
            while g.st and s.chance(97):
                if g.showable():
                    g.emit(("show",))
                g.emit(("pop",))
        return g.finish(), g.api

    def show(self, case):
        return api.show(case[0])

    def test(self, case, env):
        blocks, a = case
        r = env.run(client.API, api.text(blocks))
        f = api.compare(a, r)
        host = blocks[0]
        labels = ["exec%d" % x for x in a.statuses] + (["hostfn"] if a.calls else []) + (["userdata"] if a.uds else [])
        seen = sum(o[0] in ("look", "nlook", "show") or o[0].startswith("pop") for o in host)
        return f, labels, len(host) >= 15 and seen >= 5


check = C20()
