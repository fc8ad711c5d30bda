"""What the generation-script checks share: scratch repositories, fault plans, shrinking."""
import copy
import errno
import random
import signal

from . import gen_engine as G
from .base import Check, _drop_chunks, _with

FAMILIES = [["en", "en-IN"], ["fr", "fr-BE", "fr-CH"], ["de", "de-CH"], ["fa", "fa-AF"], ["pt", "pt-PT"], ["sr", "sr-Latn"], ["yue", "yue-Hans"], ["zh", "zh-Hant"]]
MAIN = ["en", "es", "hi", "ru", "uk"]
DECOYS = ["repo/number_parser/data/notes.txt", "repo/number_parser/data/xx.py", "repo/number_parser/data/en.json", "repo/number_parser/data/en_backup.py",
          "repo/number_parser/data/sub/keep.py", "repo/number_parser_data/supplementary_translation_data/xx.json", "repo/number_parser_data/README.md",
          "repo/number_parser_scripts/notes.json", "repo/number_parser/data/.keep", "repo/data/en.py", "repo/en.py"]
ERRS = {G.OPEN: ["EIO", "EMFILE", "ENFILE", "EACCES", "ENOENT", "ENOMEM"], G.READ: ["EIO", "ENOMEM"], G.OPENW: ["EIO", "ENOSPC", "EACCES", "EROFS", "EMFILE", "EDQUOT"],
        G.WRITE: ["EIO", "ENOSPC", "EDQUOT"], G.FSYNC: ["EIO", "ENOSPC"], G.RENAME: ["EIO", "EACCES", "ENOSPC", "EROFS"], G.CLOSE: ["EIO", "ENOSPC"],
        G.OPENDIR: ["EIO", "EMFILE", "EACCES"], G.STAT: ["EIO", "EACCES"]}
LATE = G.MUTATES | {G.FSYNC, G.CLOSE}


class GenCheck(Check):
    level = "fault_enumeration"
    batch = 5
    real = "number_parser_scripts/write_complete_language_data.py on real files in a scratch repository, CPython, the standard library"
    stub = "the answers of the file system (each libc file operation is decided by the simulator), directory order, clocks, randomness"
    assumptions = ["a file's unsynced contents may be lost or torn by a power failure; names and completed renames are not lost",
                   "one generation run at a time"]

    def setup(self, ctx):
        self.engine = G.Engine(ctx)

    # ------------------------------------------------------------ worlds
    def world(self, rng, lo=1, hi=5, decoys=True, olds=None):
        langs = self.engine.source.langs
        pick = []
        n = rng.randint(lo, hi)
        while len(pick) < n:
            x = rng.random()
            more = [rng.choice(MAIN)] if x < 0.4 else list(rng.choice(FAMILIES)) if x < 0.65 else [rng.choice(langs)]
            for l in more:
                if l in langs and l not in pick:
                    pick.append(l)
        w = {"langs": {l: self.language(rng, l, olds) for l in pick}, "listing": rng.getrandbits(16)}
        if rng.random() < 0.5:
            w["skipped"] = rng.choice([["root"], ["es-419"], ["root", "es-419"]])
        if decoys:
            w["decoys"] = {d: "decoy %d\n" % rng.getrandbits(20) for d in DECOYS if rng.random() < 0.4}
            for d in list(w["decoys"]):                     # never an input or a target
                if any(d in (G.target(l), G.SUP + l + ".json") for l in pick):
                    del w["decoys"][d]
        return w

    def language(self, rng, lang, olds=None):
        s = {"old": self.old(rng, lang, olds)}
        if rng.random() < 0.3:
            s["src"] = {"edit": rng.randrange(40)} if rng.random() < 0.8 else "norules"
        if rng.random() < 0.4:
            s["sup"] = {"edit": rng.randrange(40)}
        if rng.random() < 0.15:
            s[rng.choice(["src", "sup"])] = {"format": rng.choice(["crlf", "crlf", "escaped", "compact", "tabs"])}
        if rng.random() < 0.5:
            s["old_age"] = rng.choice([-1000, 1000, 10**6])
        if rng.random() < 0.12:
            s["old_age"] = s.get("old_age", 0) + G.READ_ONLY
        return s

    def old(self, rng, lang, olds=None):
        x = rng.choice(olds or ["repo", "repo", "lines", "padded", "missing", "missing", "empty", "garbage", "trunc", "of"])
        if x == "lines":
            return {"lines": rng.randrange(100)}
        if x == "padded":
            return {"padded": rng.choice([1, 100, 9000, 70000])}
        if x == "trunc":
            return {"trunc": rng.randint(1, 999)}
        if x == "of":
            return {"of": rng.choice(MAIN)}
        return x

    # ------------------------------------------------------------ faults
    def plan(self, rng, ops, kills=True, errors=True):
        """one fault sequence aimed at a run that makes the operations `ops`"""
        n = len(ops)
        late = [i + 1 for i, o in enumerate(ops) if o[0] in LATE]
        writes = [i + 1 for i, o in enumerate(ops) if o[0] == G.WRITE]
        reads = [i + 1 for i, o in enumerate(ops) if o[0] == G.READ]

        def point():
            return rng.choice(late) if late and rng.random() < 0.75 else rng.randint(1, n)

        plan = []
        x = rng.random()
        if not errors:
            x *= 0.42
        elif not kills:
            x = 0.38 + x * 0.62
        if x < 0.16:
            plan.append({"at": point(), "act": G.KILL})
        elif x < 0.28:
            plan.append({"at": point(), "act": G.KILL_AFTER})
        elif x < 0.38 and writes:
            plan.append({"at": rng.choice(writes), "ops": [G.WRITE], "act": G.SHORT_KILL, "arg": rng.choice([1, 500, 999, rng.randint(0, 1000)])})
        elif x < 0.42:
            plan.append({"at": point(), "act": "signal", "sig": int(rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGHUP]))})
        elif x < 0.48:
            plan.append({"at": point(), "act": "signal", "sig": int(signal.SIGINT)})
        elif x < 0.58 and reads:
            k = rng.choice(reads)
            plan.append({"at": k, "ops": [G.READ], "path": ops[k - 1][1], "act": G.EOF, "arg": int(10 ** rng.uniform(0, 4)) if rng.random() < 0.8 else 0, "count": -1})
        elif x < 0.66 and writes:                              # the disk fills up
            k = rng.choice(writes)
            if rng.random() < 0.6:
                plan.append({"at": k, "ops": [G.WRITE], "act": G.SHORT, "arg": rng.randint(0, 999)})
                k += 1
            plan.append({"at": k, "ops": [G.WRITE, G.FSYNC, G.OPENW][:rng.choice([1, 1, 2, 3])], "act": G.ERR, "arg": errno.ENOSPC, "count": rng.choice([1, 3, -1, -1])})
        else:
            k = point()
            op = ops[k - 1][0]
            e = rng.choice(ERRS.get(op, ["EIO", "EACCES", "ENOSPC"]))
            y = rng.random()
            f = {"at": k, "act": G.ERR, "arg": getattr(errno, e), "count": 1}
            if y < 0.3:
                f["ops"], f["count"] = [op], rng.choice([2, 3, -1])
            elif y < 0.45 and ops[k - 1][1]:
                f["path"], f["count"] = ops[k - 1][1], rng.choice([2, -1])
            plan.append(f)
        y = rng.random()
        if plan[0]["act"] not in (G.KILL, G.KILL_AFTER, G.SHORT_KILL):
            if y < 0.2 and kills:                              # killed while it deals with the first fault
                plan.append({"at": plan[0]["at"] + rng.choice([1, 1, 2, 3, 4, 6]), "act": rng.choice([G.KILL, G.KILL_AFTER])})
            elif y < 0.4 and errors:
                plan.append({"at": plan[0]["at"] + rng.choice([1, 1, 2, 3, 5, 8]), "act": G.ERR, "arg": rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES]), "count": rng.choice([1, 1, 2])})
        elif y < 0.15 and errors:                              # something small went wrong before
            k = max(1, plan[0]["at"] - rng.choice([1, 2, 3, 5, 9]))
            plan.insert(0, {"at": k, "act": G.ERR, "arg": rng.choice([errno.EIO, errno.ENOSPC]), "count": 1})
        if reads and rng.random() < 0.1:                       # harmless: reads return less than asked for
            plan.insert(0, {"at": rng.choice(reads), "ops": [G.READ], "act": G.SHORT, "arg": rng.randint(1, 400), "count": 3})
        return plan

    def usable(self, tree, ref, langs):
        """the undisturbed run completed and left a vocabulary for each language"""
        status, after, ops, outside = ref
        return status == 0 and all(G.is_vocabulary(after.get(G.target(l))) for l in langs)

    def inputs(self, tree, world):
        """the same tree with the inputs of another world"""
        out = {k: v for k, v in tree.items() if not k.startswith((G.SRC, G.SUP))}
        for k, v in G.build_tree(self.engine.source, world).items():
            if k.startswith((G.SRC, G.SUP)):
                out[k] = v
        return out

    def edits(self, rng, w):
        """what a maintainer changes in the inputs between two runs"""
        return {l: {rng.choice(["src", "sup"]): {rng.choice(["edit", "edit", "swap"]): rng.randrange(40, 80)}} for l in w["langs"] if rng.random() < 0.6}

    def edited(self, w, s):
        w = copy.deepcopy(w)
        for l, e in (s.get("edits") or {}).items():
            if l in w["langs"]:
                w["langs"][l].update(copy.deepcopy(e))
        return w

    # ------------------------------------------------------------ judging and reporting
    def judge(self, ctx, case, res):
        return res["violations"]

    def measure(self, ctx, case, res, stats):
        stats["generation runs"] += res.get("runs", 0)
        stats["file operations decided"] += res.get("ops", 0)
        for f in res.get("fired", []):
            stats["fault:" + self.fault_name(f)] += 1
        for k, v in res.get("probes", {}).items():
            stats["probe:" + k] += v

    def fault_name(self, f):
        n, op, path, act = f
        if act == G.KILL:
            return "killed before an operation"
        if act == G.KILL_AFTER:
            return "killed after an operation"
        if act == G.SHORT_KILL:
            return "killed inside a write"
        if act == "signal":
            return "signal"
        if act == G.EOF:
            return "input cut off"
        if act == G.SHORT:
            return "short " + op
        return "%s fails" % op

    def signature(self, ctx, case, res):
        if not res.get("fired"):
            return None
        return [(f[1], f[2], f[3]) for f in res["fired"]] + [sorted(case["world"]["langs"]), case.get("power") is not None]

    def freeze(self, case, res):
        return copy.deepcopy(case)

    def shrink(self, ctx, case):
        w = case["world"]
        for l in sorted(w["langs"]):
            if len(w["langs"]) > 1:
                c = copy.deepcopy(case)
                del c["world"]["langs"][l]
                for s in c.get("steps", []):
                    if s.get("edits"):
                        s["edits"].pop(l, None)
                yield from self.shifted(case, c, l)
        for k in ("decoys", "skipped"):
            if w.get(k):
                c = copy.deepcopy(case)
                del c["world"][k]
                yield c
        for i, s in enumerate(case.get("steps", [])):
            if len(case["steps"]) > 1:
                c = copy.deepcopy(case)
                del c["steps"][i]
                yield c
            for smaller in _drop_chunks(s["plan"]):
                if len(smaller) < len(s["plan"]):
                    yield _with(case, ["steps", i, "plan"], smaller)
            if s.get("edits"):
                yield _with(case, ["steps", i, "edits"], {})
        for l, s in w["langs"].items():
            for k in ("src", "sup", "old_age"):
                if k in s:
                    c = copy.deepcopy(case)
                    del c["world"]["langs"][l][k]
                    yield c
            if s.get("old") not in ("repo", None):
                yield _with(case, ["world", "langs", l, "old"], "repo")

    def shifted(self, case, c, lang):
        """the same faults in a run without one language: their positions move"""
        if not c.get("steps") or len(c["steps"]) > 3:
            return
        a = self.engine.reference(G.build_tree(self.engine.source, case["world"]), case["world"]["listing"])[2]
        for listing in range(6):
            c2 = copy.deepcopy(c)
            c2["world"]["listing"] = listing
            b = self.engine.reference(G.build_tree(self.engine.source, c2["world"]), listing)[2]
            ok = True
            for s in c2["steps"]:
                for f in s["plan"]:
                    if not 1 <= f["at"] <= len(a):
                        ok = False
                        break
                    want = a[f["at"] - 1]
                    nth = sum(o == want for o in a[:f["at"]])
                    at = [i + 1 for i, o in enumerate(b) if o == want]
                    if len(at) < nth:
                        ok = False
                        break
                    f["at"] = at[nth - 1]
            if ok:
                yield c2


class CrashSequence(GenCheck):
    """Runs that crash or fail one after the other, inputs edited in between."""
    max_steps = 3

    def gen(self, ctx, rng, seed):
        w = self.world(rng)
        tree = G.build_tree(self.engine.source, w)
        steps = []
        for _ in range(rng.choice([1, 1, 2, 2, 2, 3][:2 + self.max_steps])):
            steps.append(self.step(rng, w, bool(steps)))
        return {"world": w, "steps": steps, "power": rng.getrandbits(32) if rng.random() < 0.5 else None}

    def step(self, rng, w, later):
        s = {"keeps_power": True} if rng.random() < 0.3 else {}
        world = w
        if later and rng.random() < 0.6:
            s["edits"] = self.edits(rng, w)
            world = self.edited(w, s)
        if later and rng.random() < 0.35:                    # nothing goes wrong this time
            return dict(s, plan=[])
        ops = self.engine.reference(G.build_tree(self.engine.source, world), w["listing"])[2]
        s["plan"] = self.plan(rng, ops) if ops else []
        return s

    def execute(self, ctx, case):
        E = self.engine
        res = {"violations": [], "fired": [], "ops": 0, "runs": 0, "probes": {}}
        w = case["world"]
        tree = G.build_tree(E.source, w)
        rng = random.Random("power/%s" % case["power"])
        first, unsynced = tree, None
        for i, s in enumerate(case["steps"]):
            if s.get("edits"):
                w = self.edited(w, s)
                tree = self.inputs(tree, w)
            ref = E.reference(tree, w["listing"])
            if not self.usable(tree, ref, w["langs"]):
                res["probes"]["no reference"] = 1
                return res
            if i:                                            # what is new is decided by the inputs, not by what earlier runs left
                clean = self.inputs(first, w)
                new = E.reference(clean, w["listing"])
                if self.usable(clean, new, w["langs"]):
                    ref = new
            E.fresh(tree)
            r = E.run(s["plan"], w["listing"], power=rng if case["power"] is not None and not s.get("keeps_power") else None, unsynced=unsynced, **self.run_args(tree, w))
            unsynced = r.unsynced
            after = G.read_state(E.top, tree, i)
            res["fired"] += r.fired
            res["ops"] += r.n
            res["runs"] += 1
            for k, c in (("runs killed", r.killed), ("runs that failed", r.status > 0), ("runs that survived a fault", r.status == 0 and bool(r.fired))):
                res["probes"][k] = res["probes"].get(k, 0) + c
            if r.hang:
                res["violations"].append({"class": "hang", "step": i, "fired": r.fired})
                return res
            res["violations"] += self.after_run(case, i, w, tree, ref, r, after)
            tree = after
        res["violations"] += self.at_end(case, w, first, tree, res)
        return res

    def run_args(self, tree, w):
        return {}

    def after_run(self, case, i, w, before, ref, r, after):
        return []

    def at_end(self, case, w, first, tree, res):
        return []


def describe(b, before, new):
    if b is None:
        return "missing"
    if b == before:
        return "as before"
    if b == new:
        return "complete and new"
    if not b:
        return "empty"
    if new and new.startswith(b):
        return "the first %d of %d bytes" % (len(b), len(new))
    return "%d bytes: %s ... %s" % (len(b), ascii(b[:60]), ascii(b[-60:]))
