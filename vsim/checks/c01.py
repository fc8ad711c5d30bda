"""C01: threads under a seeded scheduler that switches at any instruction."""
from ..base import LibCheck, pick_occurrence


class C01(LibCheck):
    id = "C01"
    quick_runs = 2500
    thorough_runs = 120000
    batch = 25
    rule = ("One run: 2-5 (sometimes up to 24) simulated caller threads, each making 1-5 calls taken from a pool of related calls, cold "
            "(importing the package inside the threads) or warm, under a seeded scheduler that may switch threads before "
            "any bytecode instruction of the package and wherever a lock is taken or given back; afterwards a few calls in the same process. Non-trivial: at least one "
            "context switch happened inside a call; distinct: by the sequence of switches and the calls made.")
    stub = "the thread scheduler (seeded), locks (scheduler-aware), clocks and randomness"
    assumptions = ["thread switches are placed at bytecode boundaries of package code; code inside one C-level operation is atomic, as under the interpreter lock"]

    def churn(self, ctx, rng, pool):
        """some threads make a great many calls never made before while others repeat theirs: what is remembered is replaced all the time"""
        n = rng.choice([2, 2, 3])
        ops = [o for o in pool if o[2] is not None and isinstance(o[1], str) and 0 < len(o[1]) < 60] or ctx.battery
        few = [rng.choice(ops) for _ in range(rng.choice([1, 3, 20]))]
        kinds = ["cheap", "distinct", "distinct", "detect", "flood"]
        flood = rng.random() < 0.4
        threads = []
        for t in range(n):
            if t == n - 1 or rng.random() < 0.3:
                threads.append([rng.choice(few) for _ in range(40 if flood else rng.choice([10, 30]))])
            else:
                threads.append([dict(rng.choice([{"kind": "cheap", "n": 150}, {"kind": "distinct", "n": 150}, {"kind": "detect", "n": 25}]) if not flood else {"kind": "flood", "n": 30}, do="bulk", seed=rng.getrandbits(30))])
        setup = [rng.choice(few) for _ in range(2)]
        if rng.random() < 0.7:
            setup.append({"do": "bulk", "kind": rng.choice(kinds), "n": rng.choice([60, 120, 250, 500, 1000, 2000]), "seed": rng.getrandbits(30)})
        if flood:
            setup.append({"do": "bulk", "kind": "flood", "n": rng.choice([5, 25, 60, 220]), "seed": rng.getrandbits(30)})
        p = 10 ** (rng.uniform(-3.3, -2) if flood else rng.uniform(-3, -1))
        sc = {"mode": "rand", "seed": rng.getrandbits(48), "first": rng.randrange(n)}
        if flood:
            sc.update(rare=p, hot=p, lim=1, max=20000)
        elif rng.random() < 0.6:
            sc.update(rare=p, hot=p, lim=1, max=6000)
        else:
            sc.update(rare=p, hot=p / 50, lim=rng.choice([20, 200]), max=6000)
        return {"cold": False, "limit": 400_000_000, "setup": setup, "threads": threads, "sched": sc, "targets": [], "after": [rng.choice(few)] + [rng.choice(ctx.battery) for _ in range(4)]}

    def brim(self, ctx, rng, pool):
        """few new short texts after many others: what is remembered fills up while several threads are inside calls"""
        n = rng.choice([2, 2, 3])
        g = ctx.gen
        langs = sorted(g.vocab)
        detect = rng.random() < 0.6
        size = rng.choice([8, 10, 16, 20, 32, 40, 50, 64, 100, 128, 200, 256] if detect else [16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024])
        k = rng.choice([3, 6, 10])
        total = max(1, size - rng.randint(0, n * k + 2)) * rng.choice([1, 1, 1, 2])
        l = rng.choice(langs)
        threads = [[[rng.choice(["parse", "parse", "parse_number", "parse_ordinal"]), "%s t%d%s" % (g.word(rng, l), t, "x" * rng.randint(1, 30) if rng.random() < 0.5 else rng.randrange(10**6)),
                     None if detect else l, 0] for _ in range(k)] for t in range(n)]
        p = 10 ** rng.uniform(-3.5, -1.5)
        sc = {"mode": "rand", "seed": rng.getrandbits(48), "first": rng.randrange(n), "rare": p, "hot": p / rng.choice([1, 10, 100]), "lim": rng.choice([1, 4, 20, 200]), "max": 3000}
        setup = [{"do": "bulk", "kind": "detect" if detect else "distinct", "n": total, "seed": rng.getrandbits(30)}]
        return {"cold": False, "setup": setup, "threads": threads, "sched": sc, "targets": [], "after": [rng.choice(threads[0])] + [rng.choice(ctx.battery) for _ in range(3)]}

    def crowd(self, ctx, rng, pool):
        """many threads at once, each with a short call or two, that give way to one another early and at every lock"""
        n = rng.choice([6, 8, 10, 12, 16, 24])
        guess = rng.choice([0.1, 1])
        ops = [o for o in pool if isinstance(o[1], str) and len(o[1]) < 60 and (o[2] is not None or rng.random() < guess)] or ctx.battery
        few = [rng.choice(ops) for _ in range(rng.choice([1, 2, 6, 24]))]
        threads = [[rng.choice(few) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        cold = rng.random() < 0.3
        if cold and rng.random() < 0.5:
            threads = [[{"do": "import"}] + x for x in threads]
        p = 10 ** rng.uniform(-3, -0.5)
        sc = {"mode": "rand", "seed": rng.getrandbits(48), "first": rng.randrange(n), "rare": p, "hot": p / 200, "lim": rng.choice([1, 1, 2, 4]), "max": 1500,
              "sync": rng.choice([0, 0.3, 0.8, 1, 1])}
        return {"cold": cold, "setup": [], "threads": threads, "sched": sc, "targets": [], "after": [rng.choice(few) for _ in range(2)] + [rng.choice(ctx.battery) for _ in range(3)]}

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c01/%d" % (seed // 1000), 160)
        if rng.random() < 0.05:
            return self.churn(ctx, rng, pool)
        if rng.random() < 0.08:
            return self.brim(ctx, rng, pool)
        if rng.random() < 0.07:
            return self.crowd(ctx, rng, pool)
        n = rng.choice([2, 2, 2, 3, 3, 4, 5])
        k = rng.choice([1, 1, 2, 3, 5])
        lo = rng.randrange(len(pool))
        near = [pool[(lo + d) % len(pool)] for d in range(rng.choice([2, 6, 20]))]
        if rng.random() < 0.3:
            near = ctx.gen.mixed(rng, rng.choice([2, 3, 5]))
        same = rng.random() < 0.2
        cheap = rng.random() < 0.5
        if cheap:
            near = [o for o in near if o[2] is not None] or near
        threads = []
        for t in range(n):
            threads.append([near[0] if same else rng.choice(near) for _ in range(k)])
        cold = rng.random() < 0.35
        imp = cold and rng.random() < 0.5
        if imp:
            threads = [[{"do": "import"}] + x for x in threads]
        setup = []
        if not cold and rng.random() < 0.6:
            setup = [rng.choice(near) for _ in range(rng.randint(1, 3))]
        if not cold and rng.random() < 0.08:                 # something remembered may be about to fill up
            kind = rng.choice(["distinct", "detect", "detect"])
            setup.append({"do": "bulk", "kind": kind, "n": int(10 ** rng.uniform(0.5, 2.2 if kind == "detect" else 3)), "seed": rng.getrandbits(30)})
        style = rng.randrange(7)
        targets = []
        p = 10 ** rng.uniform(-3.5, -0.7)
        sc = {"mode": "rand", "seed": rng.getrandbits(48), "first": rng.randrange(n)}
        if style == 0:
            sc.update(rare=p, hot=p, lim=1, max=4000)            # uniform over instructions
        elif style in (1, 2):
            sc.update(rare=p, hot=p / 200, lim=rng.choice([1, 2, 4]), max=2000)   # favour rarely executed instructions
        elif style == 3:
            sc.update(rare=0.01, hot=0.0001, lim=3, max=rng.choice([1, 2, 3, 4]))  # few switches
        elif style == 4:
            sc.update(rare=0.5, hot=0.002, lim=rng.choice([2, 6]), max=4000)      # near round-robin
        else:                                    # switch at chosen instructions: uniform over the distinct instructions of a call
            sc.update(rare=0, hot=0, lim=1, max=1, first=0)
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = rng.randrange(n) if targets else 0
                ops = [s for s in threads[t] if isinstance(s, list)]
                locs = ctx.locs(rng.choice(ops), rng.random() < 0.5, cold and not imp)
                if locs:
                    f, q, line, off, cnt = rng.choice(locs)
                    targets.append({"loc": [f, q, line, off, pick_occurrence(rng, cnt) * rng.choice([1, 1, 1, 2])], "act": "switch", "to": rng.choice([x for x in range(n) if x != t])})
        if rng.random() < 0.3:
            sc["sync"] = rng.choice([0.05, 0.3, 1])
        after = [rng.choice(near) for _ in range(2)] + [rng.choice(ctx.battery) for _ in range(4)]
        return {"cold": cold, "setup": setup, "threads": threads, "sched": sc, "targets": targets, "after": after}

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        stats["fault:preemption"] += len(res["switches"])
        if case.get("cold"):
            stats["probe:cold start"] += 1
        if any(isinstance(s, dict) and s["do"] == "import" for t in case["threads"] for s in t):
            stats["probe:import raced"] += 1
        if any(isinstance(s, dict) and s["do"] == "bulk" for t in case["threads"] for s in t):
            stats["probe:churn"] += 1
        stats["fault:switch at a lock"] += len(res.get("sync", ()))
        stats["probe:crowd"] += len(case["threads"]) > 5
        if len(res["switches"]) > 50:
            stats["probe:dense interleaving"] += 1
        stats["probe:calls that raise"] += sum(r["out"][0] == "exc" for r in res["rec"])

    def signature(self, ctx, case, res):
        if not res["switches"] and not any(f[0] == "switch" for f in res["fired"]):
            return None
        return (res["switches"], res["fired"], case["targets"], case["threads"])


CHECK = C01()
