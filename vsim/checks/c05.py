"""C05: some vocabularies cannot be read at all; the other languages work."""
from ..base import LibCheck, read_fault
from ..textgen import SUPPORTED


class C05(LibCheck):
    id = "C05"
    quick_runs = 5000
    thorough_runs = 100000
    batch = 25
    rule = ("One run: a fresh process in which the data files of one to four languages can never be read (missing, I/O error, no permission, cut off), "
            "which imports the package and makes calls naming the intact languages, interleaved with failing calls for the broken ones and detecting calls; the "
            "import and every call naming an intact language must have their normal outcome. Non-trivial: a fault fired or a call named a broken language; "
            "distinct: by faults and calls.")
    stub = "the file system's answers (errors and early end of file injected at libc calls), clocks and randomness"
    assumptions = ["the package's own modules (parser.py, __init__.py, VERSION) are readable"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c05/%d" % (seed // 4000), 300)
        broken = rng.sample(SUPPORTED, rng.choice([1, 1, 2, 3, 4]))
        intact = [l for l in SUPPORTED if l not in broken]
        rules = []
        for l in broken:
            r = read_fault(rng, "/number_parser/data/%s.py" % l, -1)
            rules.append(r)
        good = [o for o in self.ops_near(rng, pool, 80) if o[2] in intact]
        other = [o for o in self.ops_near(rng, pool, 80) if o[2] not in intact]
        bat = [o for o in ctx.battery if o[2] in intact]
        steps = [{"do": "import"}]
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < 0.35 and other:
                o = list(rng.choice(other))
                if rng.random() < 0.5:
                    o[2] = rng.choice(broken)
                steps.append(o)
            elif x < 0.8 and good:
                steps.append(rng.choice(good))
            else:
                steps.append(rng.choice(bat))
        return {"cold": True, "source": True, "broken": broken, "rules": rules, "threads": [steps], "after": []}

    def verdict(self, ctx, case, r):
        if r["op"] != "import" and r["op"][2] not in [l for l in SUPPORTED if l not in case["broken"]]:
            return None
        return ctx.wrong(r)

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        stats["probe:calls naming an intact language"] += sum(r["op"] != "import" and r["op"][2] in SUPPORTED and r["op"][2] not in case["broken"] for r in res["rec"])
        stats["probe:calls on a broken language that raised"] += sum(r["op"] != "import" and r["op"][2] in case["broken"] and r["out"][0] == "exc" for r in res["rec"])

    def signature(self, ctx, case, res):
        return (case["rules"], case["threads"])


CHECK = C05()
