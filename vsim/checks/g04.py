"""G04: what a run that reports success has left."""
import copy
import random

from .. import gen_engine as G
from ..gencheck import GenCheck, describe


class G04(GenCheck):
    id = "G04"
    quick_runs = 3600
    thorough_runs = 80000
    rule = ("One run: a generation run over a scratch repository of 1-6 languages that meets I/O errors (once, repeatedly, persistently) at chosen file operations, a full disk, short "
            "reads and writes, interrupts, termination signals, or input files cut off or supplementary files missing, also among inputs without spell-out rules or after earlier runs on other inputs; if it exits with status 0, every language file is compared with the one made from "
            "intact inputs without faults. Non-trivial: a fault fired or an input is bad; distinct: by operations hit, languages, bad inputs.")

    def gen(self, ctx, rng, seed):
        w = self.world(rng, olds=["repo", "lines", "lines", "missing", "missing", "padded", "trunc", "empty"])
        for s in w["langs"].values():
            s.setdefault("old", "missing")
        case = {"world": w, "steps": [], "bad": {}, "ruleless": []}
        if rng.random() < 0.15 and len(w["langs"]) > 1:        # inputs that are not of a language with spell-out rules
            for l in rng.sample(sorted(w["langs"]), rng.choice([1, 1, len(w["langs"]) - 1])):
                w["langs"][l]["src"] = {"of": rng.choice(["root", "es-419"])}
                case["ruleless"].append(l)
        if rng.random() < 0.25:
            l = rng.choice([l for l in sorted(w["langs"]) if l not in case["ruleless"]])
            case["bad"][l] = rng.choice([{"sup": "missing"}, {"sup": {"trunc": rng.choice([0, 1, 500, 990, rng.randint(0, 999)])}}, {"src": {"trunc": rng.choice([0, 1, 500, 990, rng.randint(0, 999)])}},
                                         {"src": "empty"}, {"sup": "empty"}])
        if not case["bad"] or rng.random() < 0.3:
            ops = self.engine.reference(G.build_tree(self.engine.source, w), w["listing"])[2]
            case["steps"] = [{"plan": self.plan(rng, ops, kills=False)}] if ops else []
        if rng.random() < 0.3:                               # a run some time ago, on the inputs of that time
            p = {"inputs": self.edits(rng, w), "plan": []}
            if rng.random() < 0.5:
                ops = self.engine.reference(G.build_tree(self.engine.source, self.edited(w, {"edits": p["inputs"]})), w["listing"])[2]
                p["plan"] = self.plan(rng, ops) if ops else []
            case["before"] = p
        return case

    def execute(self, ctx, case):
        E = self.engine
        res = {"violations": [], "fired": [], "ops": 0, "runs": 0, "probes": {}}
        w = case["world"]
        good = G.build_tree(E.source, w)
        judged = dict(w, langs={l: s for l, s in w["langs"].items() if l not in case["ruleless"]})
        ref = E.reference(G.build_tree(E.source, judged), w["listing"])
        if not self.usable(good, ref, judged["langs"]):
            res["probes"]["no reference"] = 1
            return res
        if case["bad"]:
            wb = copy.deepcopy(w)
            for l, b in case["bad"].items():
                if l in wb["langs"]:
                    wb["langs"][l].update(b)
            tree = G.build_tree(E.source, wb)
        else:
            tree = good
        p = case.get("before")
        if p:
            earlier = G.build_tree(E.source, self.edited(w, {"edits": p["inputs"]}))
            E.fresh(earlier)
            r = E.run(p["plan"], w["listing"])
            res["runs"] += 1
            if r.hang:
                res["violations"].append({"class": "hang", "fired": r.fired})
                return res
            left = G.read_state(E.top, earlier, 0)
            good = dict({k: v for k, v in left.items() if not k.startswith((G.SRC, G.SUP))}, **{k: v for k, v in good.items() if k.startswith((G.SRC, G.SUP))})
            tree = dict({k: v for k, v in left.items() if not k.startswith((G.SRC, G.SUP))}, **{k: v for k, v in tree.items() if k.startswith((G.SRC, G.SUP))})
        E.fresh(tree)
        plan = case["steps"][0]["plan"] if case["steps"] else []
        r = E.run(plan, w["listing"])
        res["fired"], res["ops"] = r.fired, r.n
        res["runs"] += 1
        res["probes"] = {"runs that reported failure": r.status != 0, "runs that reported success": r.status == 0}
        if r.hang:
            res["violations"].append({"class": "hang", "fired": r.fired})
        elif r.status == 0:
            after = G.read_tree(E.top)
            for l in G.languages_of(judged):
                t = G.target(l)
                if after.get(t) != ref[1][t]:
                    res["violations"].append({"class": "success reported, but a language file is not the complete new one", "file": t, "bad input": case["bad"],
                                              "found": describe(after.get(t), good.get(t, (None,))[0], ref[1][t]), "fired": r.fired})
        return res

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        for b in case["bad"].values():
            for k, v in b.items():
                stats["fault:%s file %s" % ({"src": "source", "sup": "supplementary"}[k], "missing" if v == "missing" else "cut off")] += 1

    def signature(self, ctx, case, res):
        if not res.get("fired") and not case["bad"] and not case["ruleless"]:
            return None
        return [(f[1], f[2], f[3]) for f in res["fired"]] + [sorted(case["world"]["langs"]), case["bad"], case["ruleless"]]

    def shrink(self, ctx, case):
        if case.get("before"):
            c = copy.deepcopy(case)
            del c["before"]
            yield c
            if case["before"]["plan"]:
                c = copy.deepcopy(case)
                c["before"]["plan"] = []
                yield c
        if case["bad"] and case["steps"]:
            c = copy.deepcopy(case)
            c["steps"] = []
            yield c
            c = copy.deepcopy(case)
            c["bad"] = {}
            yield c
        yield from super().shrink(ctx, case)
        if not case["steps"]:
            for l in sorted(case["world"]["langs"]):
                if len(case["world"]["langs"]) > 1:
                    c = copy.deepcopy(case)
                    del c["world"]["langs"][l]
                    c["bad"].pop(l, None)
                    c["ruleless"] = [x for x in c["ruleless"] if x != l]
                    yield c


CHECK = G04()
