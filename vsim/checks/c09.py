"""C09: calls nested inside calls of the same thread, at any instruction."""
from ..base import LibCheck, pick_occurrence
from ..textgen import SUPPORTED


class C09(LibCheck):
    id = "C09"
    quick_runs = 3500
    thorough_runs = 200000
    batch = 25
    rule = ("One run: a call is interrupted at a chosen bytecode instruction and occurrence (uniform over the distinct instructions it "
            "executes) and one to three other calls run to completion on top of it in the same thread, as from a signal handler, destructor or "
            "trace callback; up to three such interruptions, also nested in one another; first use and warm. Every outcome, the nested ones' and the "
            "interrupted ones', is compared with the call alone. Non-trivial: a nested call ran; distinct: by calls, location and occurrence.")
    stub = "the interrupting handler (run by the simulator at the chosen instruction), locks (a wait that could never end is reported), clocks and randomness"
    assumptions = ["interruptions happen before bytecode instructions of package code"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c09/%d" % (seed // 4000), 300)
        near = self.ops_near(rng, pool, rng.choice([1, 2, 6, 20]))
        if rng.random() < 0.2:
            near = ctx.gen.mixed(rng, 6)
        op = near[0]
        setup = [op] if rng.random() < 0.6 else []
        if rng.random() < 0.3:
            setup.append(rng.choice(pool))
        targets = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            locs = ctx.locs(op, bool(setup))
            if not locs:
                break
            f, q, line, off, cnt = rng.choice(locs)
            ops = [rng.choice(near) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.2:
                ops[0] = rng.choice(pool)
            targets.append({"loc": [f, q, line, off, pick_occurrence(rng, cnt) + (rng.randint(0, cnt) if targets else 0)], "act": "nested", "ops": ops})
        return {"setup": setup, "threads": [[op, rng.choice(near)]], "targets": targets,
                "after": [op] + rng.sample(ctx.battery, min(len(ctx.battery), 6))}

    def verdict(self, ctx, case, r):
        v = ctx.wrong(r)
        if v and r["ph"] == "nested" and r["importing"] and r["out"][0] == "exc" and v["class"] != "hang":
            loading = [m.rsplit(".", 1)[1] for m in r["importing"] if m.startswith("number_parser.data.")]
            if loading and (r["op"][2] is None or r["op"][2] in loading):
                return None
        return v

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        nested = [r for r in res["rec"] if r["ph"] == "nested"]
        stats["probe:nested calls"] += len(nested)
        stats["probe:interrupted a first load"] += any(r["importing"] for r in nested)
        stats["probe:nested two deep"] += len(res["fired"]) > 1

    def signature(self, ctx, case, res):
        return (case["targets"], case["threads"], case["setup"]) if res["fired"] else None


CHECK = C09()
