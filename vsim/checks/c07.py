"""C07: what a call does to the process and the system, and what the system does to a call."""
import os
import shutil

from ..base import LibCheck, pick_occurrence
from .c03 import ASYNC

OPENW, WRITE, SOCKET, SPAWN, RENAME, MKDIR, UNLINK = 21, 3, 18, 19, 5, 7, 6
WRITES = (1 << OPENW) | (1 << WRITE) | (1 << RENAME) | (1 << MKDIR) | (1 << UNLINK)
EPERM, EIO, EAGAIN, ENOSPC, EROFS, EPIPE, ENETDOWN, EACCES, EBADF = 1, 5, 11, 28, 30, 32, 100, 13, 9


class C07(LibCheck):
    id = "C07"
    quick_runs = 1500
    thorough_runs = 60000
    batch = 15
    rule = ("One run: an application with unusual process-wide settings takes a snapshot of everything process-wide (about 90 settings and the functions of some 60 standard "
            "modules), makes calls - first use or warm, failing, aborted at a chosen instruction, or by 2-3 threads under the seeded scheduler - while every libc call that writes, connects, "
            "spawns or prints is logged and, in most runs, fails (read-only or full disk, no network, no processes, closed or failing output), and compares. Non-trivial: a fault, abort or "
            "first use was part of the run; distinct: by faults, calls and settings.")
    stub = "the file system's, network's and process calls' answers (errors at libc calls), clocks and randomness"
    assumptions = ["bytecode files the interpreter itself writes for modules are not counted as writes of the call"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c07/%d" % (seed // 4000), 300)
        near = self.ops_near(rng, pool, 12)
        calls = [rng.choice(near) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.3:
            calls += rng.sample(ctx.battery, 3)
        if rng.random() < 0.2:
            calls[rng.randrange(len(calls))] = ctx.gen.long_op(rng)
        rules = []
        x = rng.random()
        if x < 0.35:
            rules.append([WRITES, "", 0, -1, 1, rng.choice([EROFS, ENOSPC, EACCES, EIO])])
        elif x < 0.45:
            rules.append([1 << WRITE, "", 0, -1, 1, rng.choice([ENOSPC, EIO, EPIPE, EBADF])])
        if rng.random() < 0.6:
            rules.append([1 << SOCKET, "", 0, -1, 1, rng.choice([EPERM, ENETDOWN])])
        if rng.random() < 0.6:
            rules.append([1 << SPAWN, "<fork>", 0, -1, 1, EAGAIN])
        case = {"source": True, "setup": [], "threads": [calls], "targets": [], "after": []}
        if rng.random() < 0.5:
            case["setup"] += calls[:2] + ([["parse", "one dos", None, 0]] if rng.random() < 0.5 else [])
        warm = bool(case["setup"])
        y = rng.random()
        if y < 0.3:
            op = calls[0]
            locs = ctx.locs(op, warm)
            if locs:
                f, q, line, off, cnt = rng.choice(locs)
                case["targets"].append({"loc": [f, q, line, off, pick_occurrence(rng, cnt)], "act": rng.choice(ASYNC + ["MemoryError"]), "direct": rng.random() < 0.3})
        elif y < 0.5:
            n = rng.choice([2, 3])
            case["threads"] += [[rng.choice(near) for _ in range(rng.randint(1, 3))] for _ in range(n - 1)]
            case["sched"] = {"mode": "rand", "seed": rng.getrandbits(48), "first": 0, "rare": rng.choice([0.02, 0.3]), "hot": 10 ** rng.uniform(-4, -2), "lim": 2, "max": 2000}
            if rng.random() < 0.4:
                locs = ctx.locs(calls[0], warm)
                if locs:
                    f, q, line, off, cnt = rng.choice(locs)
                    case["targets"].append({"loc": [f, q, line, off, pick_occurrence(rng, cnt)], "act": "switch", "to": 1})
        streams = rng.choice([None, None, "closed", "none", "fds closed", "ascii"])
        case["setup"] += [{"do": "perturb", "seed": rng.getrandbits(30), "streams": streams, "bytecode": rng.random() < 0.3}, {"do": "snap"}]
        case["setup"] += [{"do": "rule", "args": r} for r in rules]
        case["after"] = [{"do": "snap"}, rng.choice(near)] + rng.sample(ctx.battery, 2) + [{"do": "snap"}]
        return case

    def execute(self, ctx, case):
        cold = os.path.join(ctx.scratch, "cold")      # where the interpreter may put bytecode in this run
        shutil.rmtree(cold, ignore_errors=True)
        os.makedirs(cold)
        return ctx.run(case)

    def verdict(self, ctx, case, r):
        if r["op"] == "snap":
            if not r["out"]:
                return None
            # the class is the first thing that changed, so that shrinking keeps to it
            return {"class": "side effect: " + r["out"][0].split(":")[0], "changes": r["out"], "phase": r["ph"]}
        if r.get("inj"):
            if r["out"][0] == "exc" or ctx.wrong(r) is None:
                return None
        return ctx.wrong(r)

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        for s in case["setup"]:
            if isinstance(s, dict) and s["do"] == "rule":
                m = s["args"][0]
                stats["fault:" + ("no network" if m == 1 << SOCKET else "no processes" if m == 1 << SPAWN else "writes fail")] += 1
            elif isinstance(s, dict) and s["do"] == "perturb" and s["streams"]:
                stats["fault:output streams " + s["streams"]] += 1
        stats["probe:snapshots compared"] += sum(r["op"] == "snap" for r in res["rec"])

    def signature(self, ctx, case, res):
        return (case["setup"], case["threads"], case["targets"], case.get("sched"))


CHECK = C07()
