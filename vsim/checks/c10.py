"""C10: fork while other threads are in the middle of calls."""
from ..base import LibCheck, pick_occurrence


class C10(LibCheck):
    id = "C10"
    quick_runs = 2200
    thorough_runs = 100000
    batch = 20
    rule = ("One run: 2-4 simulated threads under the seeded scheduler; one or two of them fork while the others stand at a chosen instruction "
            "inside a call (chosen location and occurrence, or wherever the random schedule left them); the child, a real forked process without "
            "those threads, makes several calls; the parent's calls go on. First use and warm. Non-trivial: a fork happened with at least one "
            "other thread inside a call; distinct: by schedule, forking point and calls.")
    stub = "the thread scheduler (seeded), locks (scheduler-aware; a lock held by a vanished thread is a wait that never ends), clocks and randomness"
    assumptions = ["threads stand at bytecode boundaries of package code when the fork happens"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c10/%d" % (seed // 4000), 240)
        near = self.ops_near(rng, pool, rng.choice([2, 6, 20]))
        if rng.random() < 0.2:
            near = ctx.gen.mixed(rng, 6)
        n = rng.choice([2, 2, 3, 4])
        warm = rng.random() < 0.7
        threads = [[rng.choice(near) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
        ops = [rng.choice(near) for _ in range(rng.randint(1, 4))] + rng.sample(ctx.battery, 5)
        if rng.random() < 0.5:
            ops.insert(0, threads[0][0])
        threads[-1].insert(rng.choice([0, 0, 1]), {"do": "fork", "ops": ops})
        if n > 2 and rng.random() < 0.3:
            threads[1].insert(0, {"do": "fork", "ops": [rng.choice(near) for _ in range(3)]})
        setup = []
        if warm:
            setup = [t for th in threads for t in th if isinstance(t, list)][:4]
            if rng.random() < 0.5:
                setup.append(["parse", "one dos", None, 0])
        case = {"setup": setup, "threads": threads, "targets": [], "after": [rng.choice(near)] + rng.sample(ctx.battery, 4)}
        sc = {"mode": "rand", "seed": rng.getrandbits(48), "first": 0, "lim": 2, "max": 2000, "rare": 0.0, "hot": 0.0}
        if rng.random() < 0.75:
            op = threads[0][0]
            locs = ctx.locs(op, bool(setup))
            if locs:
                f, q, line, off, cnt = rng.choice(locs)
                to = n - 1
                if n > 2 and rng.random() < 0.5:      # two threads inside calls at the fork
                    op2 = [s for s in threads[1] if isinstance(s, list)][0]
                    l2 = ctx.locs(op2, bool(setup))
                    if l2:
                        g = rng.choice(l2)
                        case["targets"].append({"loc": list(g[:4]) + [pick_occurrence(rng, g[4])], "act": "switch", "to": to})
                        to = 1
                case["targets"].insert(0, {"loc": [f, q, line, off, pick_occurrence(rng, cnt)], "act": "switch", "to": to})
        if not case["targets"] or rng.random() < 0.2:
            sc.update(rare=rng.choice([0.02, 0.3]), hot=10 ** rng.uniform(-4, -2), first=rng.randrange(n))
        case["sched"] = sc
        return case

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        forks = [f for f in res["fired"] if f[0] == "fork"]
        stats["probe:forks with threads inside calls"] += sum(f[2] > 0 for f in forks)
        stats["probe:forks during a first load"] += sum(f[1] > 0 for f in forks)
        stats["probe:calls judged in children"] += sum(r["ph"] == "child" for r in res["rec"])

    def signature(self, ctx, case, res):
        if not any(f[0] == "fork" and f[2] > 0 for f in res["fired"]):
            return None
        return (case["targets"], case["threads"], case["setup"], res["switches"])


CHECK = C10()
