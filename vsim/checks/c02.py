"""C02: long histories of calls with clock jumps; each outcome against the call alone."""
from ..base import LibCheck, log_uniform
from ..textgen import SUPPORTED

YEAR = 365.25 * 86400


class C02(LibCheck):
    id = "C02"
    quick_runs = 450
    thorough_runs = 40000
    batch = 5
    rule = ("One run: one process and a history of 10 to some 10,000 calls - related texts, all functions, explicit, detected and "
            "rejected languages, failing calls, bulk stretches of distinct texts - with simulated clock jumps (forward and back, "
            "microseconds to decades) and garbage collections in between; each recorded outcome is compared with the same call alone in a "
            "fresh process. Non-trivial: at least 10 calls; distinct: by the whole history.")
    stub = "clocks (wall and monotonic, virtual), randomness (seeded)"

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c02/%d" % (seed // 1000), 260)
        x = rng.random()
        n = rng.randint(10, 60) if x < 0.6 else rng.randint(100, 500) if x < 0.92 else rng.randint(1000, 3000)
        near = self.ops_near(rng, pool, rng.choice([3, 8, 30, 120]))
        jumps = rng.random() < 0.6
        steps = []
        bulk = 0.0 if n > 500 else rng.choice([0, 0, 0.01, 0.02])
        while len(steps) < n:
            y = rng.random()
            if jumps and y < 0.08:
                steps.append(self.jump(rng))
            elif y < 0.09:
                steps.append({"do": "gc"})
            elif y < 0.09 + bulk:
                steps.append(bulk_step(rng, log_uniform(rng, 20, 2000)))
            elif y < 0.25:
                steps.append(rng.choice(pool))
            elif y < 0.4 and steps and isinstance(steps[-1], list):
                steps.append(list(steps[-1]))
            else:
                steps.append(rng.choice(near))
        for _ in range(rng.choice([0, 1, 2, 4])):    # texts that agree over a long stretch, one right after the other or not
            i = rng.randrange(len(steps))
            for o in ctx.gen.twins(rng):
                steps.insert(i, o)
                i = i + 1 if rng.random() < 0.7 else rng.randrange(len(steps))
        if rng.random() < 0.4:                       # texts with very many number words, their language detected
            for _ in range(rng.choice([1, 1, 2, 4])):
                steps.insert(rng.randrange(len(steps)), ctx.gen.long_op(rng))
        if seed % 150 == 3:
            steps.insert(rng.randrange(5), {"do": "bulk", "n": 70000 if ctx.cfg["tier"] == "quick" else 400000, "seed": seed, "kind": "cheap"})
        after = rng.sample(ctx.battery, min(len(ctx.battery), 12)) if rng.random() < 0.7 else ctx.battery
        ties = [o for o in ctx.battery if o[2] is None]
        after = after + rng.sample(ties, min(len(ties), 8))
        if jumps:
            after = [self.jump(rng)] + after
        return {"threads": [steps], "after": after}

    def jump(self, rng):
        wall = rng.choice([1, 1, 1, -1]) * 10 ** rng.uniform(-3, 9)
        mono = abs(wall) if rng.random() < 0.7 else 10 ** rng.uniform(-6, 9)
        return {"do": "clock", "wall": max(wall, -1.6e9), "mono": mono}

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        steps = case["threads"][0] + case["after"]
        for s in steps:
            if isinstance(s, dict):
                if s["do"] == "clock":
                    stats["fault:clock jump"] += 1
                    stats["simulated seconds"] += int(s["mono"])
                    stats["fault:clock set back"] += s["wall"] < 0
                elif s["do"] == "bulk":
                    stats["bulk calls"] += s["n"]
                elif s["do"] == "gc":
                    stats["fault:gc"] += 1
        stats["probe:failing calls in history"] += sum(r["out"][0] == "exc" for r in res["rec"])
        stats["probe:history over 1000 calls"] += len(steps) > 1000

    def signature(self, ctx, case, res):
        return case["threads"] if len(case["threads"][0]) >= 10 else None


def bulk_step(rng, n):
    return {"do": "bulk", "n": n, "seed": rng.getrandbits(32), "kind": rng.choice(["distinct", "distinct", "rejected", "failing", "same", "detect", "long", "longdetect", "flood"])}


CHECK = C02()
