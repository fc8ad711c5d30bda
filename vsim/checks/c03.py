"""C03: exceptions from outside, at any instruction of a call; then everything else must be normal."""
from ..base import FATAL, HANGS, LibCheck, pick_occurrence

ASYNC = ["KeyboardInterrupt", "SystemExit", "SimKill", "SimTimeout"]
RAISES = {"SigInt": "KeyboardInterrupt", "SigAlrm": "SimTimeout"}


def kinds_of(inj):
    return [RAISES.get(k, k) for k in inj]


class C03(LibCheck):
    id = "C03"
    quick_runs = 3500
    thorough_runs = 200000
    batch = 25
    rule = ("One run: in one process (first use or warm; one thread, or 2-3 under the seeded scheduler) one to three calls are each hit "
            "by an exception from outside - a signal handler's, an asynchronous thread kill or timeout, exhausted memory or recursion "
            "depth - at a chosen bytecode instruction and occurrence (drawn uniformly over the distinct instructions the call executes), "
            "then the same call, related calls and a battery covering every vocabulary run in the same process. Non-trivial: an injection fired; "
            "distinct: by injected kind, instruction, occurrence, call and starting state.")
    stub = "the thread scheduler (seeded), signal delivery, memory and recursion exhaustion (injected), clocks and randomness"
    assumptions = ["asynchronous exceptions are delivered where the interpreter checks for them, at bytecode boundaries of package code",
                   "exhausted memory is injected as a MemoryError at any instruction of package code (failing the interpreter's own allocator makes CPython 3.12.3 itself crash)"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c03/%d" % (seed // 4000), 300)
        good = [o for o in pool if isinstance(o[1], str)]
        spread = self.ops_near(rng, good, rng.choice([2, 6]))
        if rng.random() < 0.2:
            spread = ctx.gen.mixed(rng, 6)
        op = spread[0]
        warm = rng.random() < 0.55
        x = rng.random()
        setup = [op] if warm else []
        if rng.random() < 0.25:
            setup.append(rng.choice(good))
        threads = [[op]]
        case = {"setup": setup, "threads": threads, "after": []}
        if x < 0.09:                            # recursion: the call starts near the limit
            warm = bool(setup)
            threads[0] = [{"do": "deep", "op": op, "room": rng.randint(1, 45)}]
            if rng.random() < 0.4:
                threads[0].append({"do": "deep", "op": rng.choice(spread), "room": rng.randint(1, 45)})
        else:
            n = 1
            if x > 0.80:                        # other callers are in progress
                n = rng.choice([2, 2, 3])
                for _ in range(n - 1):
                    threads.append([rng.choice(spread) for _ in range(rng.randint(1, 2))])
                case["sched"] = {"mode": "rand", "seed": rng.getrandbits(48), "first": rng.randrange(n), "rare": rng.choice([0.02, 0.2]),
                                 "hot": 10 ** rng.uniform(-4, -2), "lim": 2, "max": 2000}
            case["targets"] = []
            prev = None
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                o = op if rng.random() < 0.8 or n == 1 else rng.choice(threads[1])
                locs = ctx.locs(o, bool(setup) and o is op)
                if not locs:
                    continue
                f, q, line, off, cnt = rng.choice(locs)
                if prev and rng.random() < 0.5:      # cleanup code of the first one is hit again
                    near = [l for l in locs if l[:3] == prev[:3]]
                    f, q, line, off, cnt = rng.choice(near or locs)
                prev = [f, q, line, off, cnt]
                act = rng.choice(ASYNC + ["MemoryError", "MemoryError"] + (["SigInt", "SigAlrm"] if n == 1 else []))
                occ = pick_occurrence(rng, cnt) + (cnt if case["targets"] and rng.random() < 0.3 else 0)
                case["targets"].append({"loc": [f, q, line, off, occ], "act": act, "direct": rng.random() < 0.3})
            for _ in range(rng.choice([0, 0, 1, 2])):
                threads[0].append(rng.choice(spread))
        case["after"] = [op, rng.choice(spread)] + rng.sample(ctx.battery, min(len(ctx.battery), 14)) + [rng.choice(good), op]
        return case

    def verdict(self, ctx, case, r):
        inj = r.get("inj")
        if not inj:
            return ctx.wrong(r)
        kinds = kinds_of(inj)
        out = r["out"]
        if out[0] == "exc" and out[1] in HANGS:
            return ctx.wrong(r)
        if out[0] == "exc" and out[1] in kinds:
            return None
        if "RecursionError" in inj and out[0] == "exc" and out[1] == "MemoryError":
            return None
        v = ctx.wrong(r)
        if v:
            v["class"] = "interrupted call: " + v["class"]
            v["injected"] = inj
            return v
        # the normal outcome although the exception was delivered inside the call
        if [k for k in kinds if k in FATAL] and r.get("late") not in kinds:
            return {"class": "exception swallowed", "call": r["op"], "injected": inj, "got": out, "phase": r["ph"], "thread": r["t"], "index": r["i"]}
        return None

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        for r in res["rec"]:
            for k in r.get("inj", []):
                if k in ("RecursionError",) and r["out"][1] != "RecursionError":
                    stats["fault:recursion headroom sufficed"] += 1
                elif k == "RecursionError":
                    stats["fault:RecursionError"] += 1
            if r.get("late"):
                stats["probe:delivered after the call"] += 1
        stats["probe:first use interrupted"] += bool(res["fired"]) and not case["setup"]
        stats["probe:other threads in progress"] += bool(res["fired"]) and len(case["threads"]) > 1
        if not any(r.get("inj") for r in res["rec"]):
            stats["probe:nothing injected"] += 1

    def signature(self, ctx, case, res):
        inj = [r for r in res["rec"] if r.get("inj")]
        if not inj:
            return None
        return (case.get("targets"), case["threads"], case["setup"], res["switches"])


CHECK = C03()
