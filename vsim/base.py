"""Base class of the checks: how a case is made, run, judged, measured and shrunk."""
import copy
import json


class Check:
    id = "?"
    level = "exploration"
    quick_runs = 400
    thorough_runs = 8000
    batch = 10
    quick_wall = 240          # hard cap on exploration, seconds
    thorough_wall = 3000
    rule = ""
    real = "number_parser (parser.py, __init__.py, data modules), CPython's import system, re and unicodedata"
    stub = ""
    assumptions = []
    locales = False           # whether runs use locales that have to be compiled first

    # ---- life cycle, in each worker
    def setup(self, ctx):
        pass

    def teardown(self, ctx):
        pass

    # ---- one run
    def gen(self, ctx, rng, seed):
        raise NotImplementedError

    def execute(self, ctx, case):
        return ctx.run(case)

    def judge(self, ctx, case, res):
        raise NotImplementedError

    def freeze(self, case, res):
        """the case with every decision explicit, so that replay needs no generator"""
        case = copy.deepcopy(case)
        if case.get("sched", {}).get("mode") == "rand" and res.get("switches") is not None:
            case["sched"] = {"mode": "list", "switches": res["switches"], "first": case["sched"].get("first", 0)}
            if res.get("sync"):
                case["sched"]["at_locks"] = res["sync"]
        return case

    # ---- reporting
    def measure(self, ctx, case, res, stats):
        pass

    def signature(self, ctx, case, res):
        return None

    def sample(self, case, res):
        c = copy.deepcopy(case)
        s = json.dumps(c, ensure_ascii=False)
        return c if len(s) < 3000 else {"seed": case.get("seed"), "abridged": s[:2500]}

    # ---- minimisation
    def shrink(self, ctx, case):
        yield from shrink_lib(case)


def _drop_chunks(lst):
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            if size < n or n == 1 or size == n:
                yield lst[:i] + lst[i + size:]
        size //= 2


def _with(case, path, value):
    c = copy.deepcopy(case)
    x = c
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = value
    return c


def shorter_texts(op):
    """smaller versions of one call"""
    if not isinstance(op, list) or not isinstance(op[1], str):
        return
    words = op[1].split(" ")
    if len(words) > 1:
        h = len(words) // 2
        for w in (words[:h], words[h:]):
            yield [op[0], " ".join(w), op[2], op[3]]
        if len(words) <= 12:
            for i in range(len(words)):
                yield [op[0], " ".join(words[:i] + words[i + 1:]), op[2], op[3]]
    if op[3]:
        yield [op[0], op[1], op[2], 0]


def shrink_steps(case, path, steps):
    for smaller in _drop_chunks(steps):
        if len(smaller) < len(steps):
            yield _with(case, path, smaller)


def shrink_texts(case, path, steps):
    if len(steps) > 12:
        return
    for i, s in enumerate(steps):
        if isinstance(s, list):
            for o in shorter_texts(s):
                yield _with(case, path + [i], o)
        elif isinstance(s, dict) and "op" in s:
            for o in shorter_texts(s["op"]):
                yield _with(case, path + [i, "op"], o)


def shrink_lib(case):
    for key in ("setup", "after"):
        if case.get(key):
            yield from shrink_steps(case, [key], case[key])
    for key in ("targets", "rules"):
        if case.get(key):
            yield from shrink_steps(case, [key], case[key])
    for t, steps in enumerate(case.get("threads", [])):
        if steps:
            yield from shrink_steps(case, ["threads", t], steps)
        for i, s in enumerate(steps):
            if isinstance(s, dict) and s.get("do") == "bulk" and s["n"] > 20:
                yield _with(case, ["threads", t, i, "n"], s["n"] // 2)
            if isinstance(s, dict) and s.get("do") == "fork" and len(s["ops"]) > 1:
                for smaller in _drop_chunks(s["ops"]):
                    if smaller and len(smaller) < len(s["ops"]):
                        yield _with(case, ["threads", t, i, "ops"], smaller)
    for i, tg in enumerate(case.get("targets", [])):
        if len(tg.get("ops", [])) > 1:
            for smaller in _drop_chunks(tg["ops"]):
                if smaller and len(smaller) < len(tg["ops"]):
                    yield _with(case, ["targets", i, "ops"], smaller)
    sw = case.get("sched", {}).get("switches")
    if sw:
        for smaller in _drop_chunks(sw):
            if len(smaller) < len(sw):
                yield _with(case, ["sched", "switches"], smaller)
    at = case.get("sched", {}).get("at_locks")
    if at:
        for smaller in _drop_chunks(at):
            if len(smaller) < len(at):
                yield _with(case, ["sched", "at_locks"], smaller)
    for key in ("setup", "after"):
        if case.get(key):
            yield from shrink_texts(case, [key], case[key])
    for t, steps in enumerate(case.get("threads", [])):
        if not case.get("targets") and not (sw and len(sw) > 6):
            yield from shrink_texts(case, ["threads", t], steps)


# ------------------------------------------------------------------ library checks
FATAL = ("KeyboardInterrupt", "SystemExit", "SimKill")
HANGS = ("SimDeadlock", "SimLimit")


class LibCheck(Check):
    """A case of lib_child: some calls, some faults; every outcome is compared with the
    same call alone in a fresh process."""

    def judge(self, ctx, case, res):
        if res.get("hang"):
            return [{"class": "hang", "detail": "the run never ends"}]
        if res.get("died") is not None:
            return [{"class": "process died", "detail": "status %s" % res["died"]}]
        if res.get("failed"):
            return [{"class": "process failed", "detail": res["failed"]}]
        out = []
        for r in res["rec"]:
            v = self.verdict(ctx, case, r)
            if v:
                out.append(v)
        return out

    def verdict(self, ctx, case, r):
        return ctx.wrong(r)

    def measure(self, ctx, case, res, stats):
        stats["calls judged"] += len(res["rec"])
        stats["instructions stepped"] += res.get("events", 0)
        stats["context switches"] += len(res.get("switches", []))
        for f in res.get("fired", []):
            if f[0] == "rule":
                if f[1]:
                    stats["fault:io"] += f[1]
            else:
                stats["fault:" + f[0]] += 1

    def ops_near(self, rng, pool, spread):
        lo = rng.randrange(len(pool))
        return [pool[(lo + d) % len(pool)] for d in range(spread)]


def log_uniform(rng, lo, hi):
    import math
    return int(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def pick_occurrence(rng, count):
    x = rng.random()
    if x < 0.4:
        return 1
    if x < 0.6:
        return count
    return rng.randint(1, count)


# ------------------------------------------------------------------ I/O faults on the package's files
EIO, EMFILE, ENFILE, ENOMEM, EACCES, ENOENT, EINTR = 5, 24, 23, 12, 13, 2, 4
OP_OPEN, OP_READ, OP_OPENDIR, OP_STAT = 1, 2, 14, 16


def read_fault(rng, sub, count, opendir=False):
    """one rule: (mask, substring, skip, count, act, arg)"""
    x = rng.random()
    if x < 0.30:
        return [1 << OP_OPEN, sub, 0, count, 1, rng.choice([EIO, EMFILE, ENFILE, ENOMEM, EACCES, ENOENT])]
    if x < 0.62:
        return [1 << OP_READ, sub, 0, count, 1, rng.choice([EIO, ENOMEM])]
    if x < 0.80:
        return [1 << OP_READ, sub, 0, count, 7, rng.choice([0, 0, log_uniform(rng, 1, 30), log_uniform(rng, 20, 1500), log_uniform(rng, 20, 1500)])]     # the file ends early
    if x < 0.88:
        return [(1 << OP_STAT) | (1 << OP_OPEN), sub, 0, count, 1, rng.choice([EIO, ENOMEM, EACCES])]
    if x < 0.94 or not opendir:
        return [(1 << OP_STAT), sub, 0, count, 1, rng.choice([ENOENT, EACCES, EIO])]
    return [1 << OP_OPENDIR, "/number_parser" if "number_parser" in sub else sub, 0, count, 1, rng.choice([EIO, EMFILE, ENOMEM])]
