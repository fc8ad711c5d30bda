"""C12: the package import fails or is interrupted at any point, and is retried."""
from ..base import (EACCES, EIO, EMFILE, ENFILE, ENOENT, ENOMEM, FATAL, HANGS, OP_OPEN, OP_OPENDIR, OP_READ, OP_STAT, LibCheck, pick_occurrence)
from .c03 import ASYNC, kinds_of
from ..textgen import SUPPORTED

FILES = ["number_parser/__init__.py", "number_parser/parser.py", "number_parser/VERSION", "/number_parser/"]


class C12(LibCheck):
    id = "C12"
    quick_runs = 4000
    thorough_runs = 100000
    batch = 25
    rule = ("One run: a fresh process imports the package one to three times under faults - read, open, stat and directory errors on any of its files, "
            "at the n-th occurrence, or an interrupt, kill, timeout or MemoryError at a chosen instruction of the package's import - then, with the faults gone, "
            "imports it again and makes calls covering all functions and vocabularies; version and outcomes are compared with an undisturbed import. "
            "Non-trivial: a fault fired; distinct: by fault and point.")
    stub = "the file system's answers (errors injected at libc calls), signal delivery, clocks and randomness"
    assumptions = ["a directory that cannot be listed fails with EIO, EMFILE or ENOMEM (CPython itself remembers an EACCES listing as empty)",
                   "stat of the package's __init__.py does not fail: CPython then makes an empty namespace package without running any of the package's code",
                   "asynchronous exceptions are delivered at bytecode boundaries of package code"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c12/%d" % (seed // 4000), 120)
        imp = {"do": "import"}
        steps, targets, rules = [], [], []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                locs = ctx.locs(imp, False, True)
                f, q, line, off, cnt = rng.choice(locs)
                targets.append({"loc": [f, q, line, off, pick_occurrence(rng, cnt) + len(targets) * cnt * rng.choice([0, 1])],
                                "act": rng.choice(ASYNC + ["MemoryError", "SigInt", "SigAlrm"]), "direct": rng.random() < 0.4})
            steps = [imp] * rng.choice([1, 1, 2])
        if not targets or rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 1, 2])):
                x = rng.random()
                sub = rng.choice(FILES)
                if x < 0.4:
                    r = [1 << OP_OPEN, sub, rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2, -1]), 1, rng.choice([EIO, EMFILE, ENFILE, ENOMEM, EACCES])]
                elif x < 0.75:
                    r = [1 << OP_READ, sub, rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 1, 2, -1]), 1, rng.choice([EIO, ENOMEM])]
                elif x < 0.9:
                    r = [1 << OP_STAT, rng.choice(FILES[1:3]), rng.choice([0, 0, 1, 2]), rng.choice([1, 2, -1]), 1, rng.choice([EIO, ENOENT, EACCES])]
                else:
                    r = [1 << OP_OPENDIR, sub, 0, rng.choice([1, -1]), 1, rng.choice([EIO, EMFILE, ENOMEM])]
                if rng.random() < 0.15:          # an import that already looks at the language files
                    r[1] = "/number_parser/data/%s.py" % rng.choice(SUPPORTED)
                rules.append(r)
            steps = [imp] * rng.choice([1, 1, 2, 3])
            if rng.random() < 0.2:
                steps.append({"do": "gc"})
        near = self.ops_near(rng, pool, 8)
        after = [imp] + rng.sample(near, 5) + rng.sample(ctx.battery, min(len(ctx.battery), 14))
        return {"cold": True, "rules": rules, "source": rng.random() < 0.8, "threads": [steps], "targets": targets, "after": after}

    def verdict(self, ctx, case, r):
        if r["op"] == "import" and (r.get("faults") or r.get("inj")):
            out = r["out"]
            if out[0] == "exc" and out[1] not in HANGS:
                return None
            kinds = kinds_of(r.get("inj") or [])
            if out[0] == "ok" and [k for k in kinds if k in FATAL] and r.get("late") not in kinds:
                return {"class": "exception swallowed by the import", "injected": kinds, "got": out}
        return ctx.wrong(r)

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        stats["probe:imports that failed"] += sum(r["op"] == "import" and r["out"][0] == "exc" for r in res["rec"])
        stats["probe:fault survived by the import"] += sum(r["op"] == "import" and r["out"][0] == "ok" and bool(r.get("faults") or r.get("inj")) for r in res["rec"])

    def signature(self, ctx, case, res):
        if not any(r.get("faults") or r.get("inj") for r in res["rec"]):
            return None
        return (case["targets"], case["rules"], len(case["threads"][0]))


CHECK = C12()
