"""C04: reading a vocabulary fails; the call raises, and recovers when reads work again."""
from ..base import HANGS, LibCheck, read_fault
from ..textgen import SUPPORTED


class C04(LibCheck):
    id = "C04"
    quick_runs = 2500
    thorough_runs = 120000
    batch = 25
    rule = ("One run: in one process with none, some or all languages already loaded, the data files of one to five languages fail to be read - open, "
            "read and stat errors, end of file inside the vocabulary, missing files, exhausted file handles or memory, for one, two or all attempts - while "
            "related calls with explicit and detected languages are made, also by 2-3 threads; then reads succeed and the calls are repeated along with a "
            "battery over every vocabulary. A call must give its normal outcome or raise while faults last, and its normal outcome afterwards. "
            "Non-trivial: a fault fired; distinct: by faults, calls and starting state.")
    stub = "the file system's answers (errors and early end of file injected at libc calls), clocks and randomness"
    assumptions = ["files are cut off inside the vocabulary's dictionary, not in trailing comments",
                   "a directory that cannot be listed fails with EIO, EMFILE or ENOMEM (CPython itself remembers an EACCES listing as empty)"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c04/%d" % (seed // 4000), 300)
        broken = rng.sample(SUPPORTED, rng.choice([1, 1, 1, 2, 3, 5]))
        near = [o for o in self.ops_near(rng, pool, 60) if o[2] in broken or (o[2] is None)] or pool[:6]
        near = rng.sample(near, min(len(near), rng.choice([2, 4, 10])))
        if rng.random() < 0.08:
            return self.out_of_memory(ctx, rng, near)
        rules = []
        for l in broken:
            cnt = rng.choice([1, 1, 2, -1])
            rules.append(read_fault(rng, "/number_parser/data/%s.py" % l, cnt, True))
        setup, steps, n = [], [], rng.randint(1, 6)
        steps = [rng.choice(near) for _ in range(n)]
        if rng.random() < 0.3:
            setup = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        threads = [steps]
        case = {"source": True, "setup": setup, "threads": threads, "after": []}
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 2])):
                threads.append([rng.choice(near) for _ in range(rng.randint(1, 3))])
            case["sched"] = {"mode": "rand", "seed": rng.getrandbits(48), "first": 0, "rare": rng.choice([0.02, 0.3]), "hot": 10 ** rng.uniform(-4, -2.5), "lim": 2, "max": 1000}
        if setup or rng.random() < 0.5:      # faults start after the set-up calls
            case["setup"] = setup + [{"do": "rule", "args": r} for r in rules]
        else:
            case["cold"] = True
            case["rules"] = rules
            threads[0].insert(0, {"do": "import"})
            if len(threads) > 1:
                case["threads"] = threads = threads[:1]
                case.pop("sched")
        if rng.random() < 0.3:               # a second outage after a recovery
            extra = [{"do": "clear"}] + [rng.choice(near)] + [{"do": "rule", "args": read_fault(rng, "/number_parser/data/%s.py" % rng.choice(SUPPORTED), rng.choice([1, -1]))}]
            case["after"] += extra + [rng.choice(near) for _ in range(3)]
        case["after"] += [{"do": "clear"}] + [o for o in threads[0] if isinstance(o, list)] + [rng.choice(near)] + rng.sample(ctx.battery, min(len(ctx.battery), 12))
        return case

    def out_of_memory(self, ctx, rng, near):
        """memory is exhausted while a vocabulary is read: one instruction of the load raises MemoryError, once or several times"""
        op = rng.choice(near)
        locs = [l for l in ctx.locs(op, False) if l[0].startswith("data/")]
        steps = [op] + [rng.choice(near) for _ in range(rng.randint(0, 3))]
        case = {"source": True, "setup": [], "threads": [steps], "after": [op, rng.choice(near)] + rng.sample(ctx.battery, min(len(ctx.battery), 12)), "targets": []}
        for _ in range(rng.choice([1, 1, 2])):
            if locs:
                f, q, line, off, cnt = rng.choice(locs)
                case["targets"].append({"loc": [f, q, line, off, rng.choice([1, 1, cnt])], "act": "MemoryError", "direct": True})
        return case

    def judge(self, ctx, case, res):
        if res.get("hang") or res.get("died") is not None:
            return super().judge(ctx, case, res)
        out = []
        threaded = len(case["threads"]) > 1
        active, dirty = bool(case.get("rules")), False
        status = {}
        # whether faults could still be in force when a step ran
        for ph, steps in (("setup", case["setup"]), ("run", case["threads"][0]), ("after", case["after"])):
            for i, s in enumerate(steps):
                if isinstance(s, dict) and s["do"] == "rule":
                    active = True
                elif isinstance(s, dict) and s["do"] == "clear":
                    active = False
                status[ph, i] = active
            if ph == "run":
                if threaded:
                    for t in range(1, len(case["threads"])):
                        for i in range(len(case["threads"][t])):
                            status[ph, i] = active or status.get((ph, i), False)
                active = False               # the engine clears the rules here
        for r in res["rec"]:
            v = ctx.wrong(r)
            if not v:
                continue
            if (status.get((r["ph"], r["i"]), False) or r.get("inj")) and r["out"][0] == "exc" and r["out"][1] not in HANGS:
                continue
            if not status.get((r["ph"], r["i"]), False):
                v["class"] = "after the faults: " + v["class"]
            out.append(v)
        return out

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        stats["probe:calls that raised under a fault"] += sum(r["out"][0] == "exc" and bool(r.get("faults")) for r in res["rec"])
        stats["probe:fault survived by the call"] += sum(r["out"][0] == "ok" and bool(r.get("faults")) for r in res["rec"])

    def signature(self, ctx, case, res):
        if not any(f[0] == "MemoryError" or f[0] == "rule" and f[1] for f in res["fired"]):
            return None
        return (case["setup"], case.get("rules"), case.get("targets"), case["threads"], case["after"][:4], res["switches"])


CHECK = C04()
