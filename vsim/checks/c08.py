"""C08: long-lived processes; what is retained must stop growing."""
from .. import leak
from ..base import LibCheck, read_fault, shorter_texts
from ..textgen import SUPPORTED

KINDS = ["distinct", "distinct", "distinct", "same", "rejected", "failing", "deep", "aborted", "aborted", "threads", "mixed", "io faults"]


class C08(LibCheck):
    id = "C08"
    quick_runs = 360
    thorough_runs = 8000
    batch = 3
    rule = ("One run: one long-lived process repeats calls of one kind - texts never seen before derived from a drawn call, the same call, rejected languages, wrong types, calls cut short "
            "by exhausted recursion or by an exception at a random instruction, calls from short-lived threads, failing vocabulary loads - and after warming up measures live objects, "
            "allocated memory, file handles and threads over windows of calls; growth that goes on is followed over doubling windows up to 60,000 calls (quick; fewer where calls are long), so that bounded caches may fill. "
            "Non-trivial: always; distinct: by kind and call.")
    stub = "clocks and randomness (virtual), the file system's answers in the failing-load runs"
    assumptions = ["retention under 0.001 objects and 8 bytes per call over the last window counts as none", "a cache that is still growing after the longest history counts as unbounded"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c08/%d" % (seed // 400), 200)
        kind = KINDS[seed % len(KINDS)]
        op = rng.choice(pool)
        if not isinstance(op[1], str) and kind != "same":
            op = [op[0], "two thousand", op[2], op[3]]
        slow = kind in ("aborted", "threads", "mixed", "deep") or op[2] is None
        case = {"kind": kind, "op": op, "n": rng.getrandbits(30), "window": 300 if slow else 900, "tick": rng.random() < 0.3,
                "most": 60000 if ctx.cfg["tier"] == "quick" else 300000}
        if kind == "io faults":
            lang = rng.choice(SUPPORTED)
            case["op"] = [op[0], op[1], rng.choice([lang, None]), op[3]]
            case["rules"] = [read_fault(rng, "/number_parser/data/%s.py" % lang, -1)]
            case["window"] = 300
            case["most"] = min(case["most"], 12000)
        if isinstance(op[1], str) and len(op[1]) > 200:
            case["window"] = 100
            case["no memory"] = True        # long texts: a bounded cache takes too long to fill with them
        # about half a minute's worth of calls (quick)
        each = (0.0006 + 4e-6 * len(str(op[1]))) * (5 if op[2] is None else 1) * (2 if kind in ("aborted", "io faults") else 1)
        case["most"] = min(case["most"], int((25 if ctx.cfg["tier"] == "quick" else 120) / each))
        if kind == "aborted":
            case["reach"] = rng.choice([3, 4, 5])
        return case

    def execute(self, ctx, case):
        kind, v = ctx.in_child(lambda: leak.run(case, ctx.env()), 300)
        if kind == "ok":
            return v
        return {"hang": True, "rec": []} if kind == "hang" else {"died": v, "rec": []}

    def judge(self, ctx, case, res):
        if res.get("hang") or res.get("died") is not None:
            return super().judge(ctx, case, res)
        if res["growing"]:
            return [{"class": "retained: " + res["growing"][0], "growing": res["growing"], "after calls": res["stats"]["calls"],
                     "before [objects, bytes, handles, threads]": res["base"], "windows [calls, objects, bytes, handles, threads]": res["samples"], "kind": case["kind"], "call": case["op"]}]
        return []

    def measure(self, ctx, case, res, stats):
        if "stats" in res:
            stats["calls made"] += res["stats"]["calls"]
            stats["fault:call aborted"] += res["stats"]["aborted"] + (res["stats"]["raised"] if case["kind"] == "deep" else 0)
            stats["fault:load failed"] += res["stats"]["raised"] if case["kind"] == "io faults" else 0
            stats["probe:kind " + case["kind"]] += 1
            stats["probe:growth that stopped"] += len(res["samples"]) > 2

    def signature(self, ctx, case, res):
        return (case["kind"], case["op"], case["n"])

    def shrink(self, ctx, case):
        for o in shorter_texts(case["op"]):
            c = dict(case)
            c["op"] = o
            yield c


CHECK = C08()
