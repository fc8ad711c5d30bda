"""G05: which files a generation run touches."""
from .. import gen_engine as G
from ..gencheck import CrashSequence


class G05(CrashSequence):
    id = "G05"
    quick_runs = 2800
    thorough_runs = 60000
    rule = ("One run: one to three generation runs, undisturbed, killed or failing as for G01, sometimes with damaged inputs, over a scratch repository full of other files (other "
            "vocabularies, backups, notes, same-named files elsewhere); every modifying file operation is checked as it is made, the whole repository is compared afterwards. "
            "Non-trivial: a fault fired or other files lay around; distinct: by operations hit, languages and other files.")

    def gen(self, ctx, rng, seed):
        case = super().gen(ctx, rng, seed)
        if rng.random() < 0.25:
            case["steps"] = [{"plan": []}]
        if rng.random() < 0.25:
            l = rng.choice(sorted(case["world"]["langs"]))
            case["damaged"] = {l: rng.choice([{"src": "garbage"}, {"sup": "missing"}, {"sup": {"trunc": 500}}, {"src": {"trunc": 300}}, {"sup": "empty"}])}
        there = sorted(d for d in case["world"].get("decoys", {}) if d.endswith(".py"))
        if there and rng.random() < 0.2:           # a language file that is a symbolic link to a file of somebody else's
            case["world"]["langs"][rng.choice(sorted(case["world"]["langs"]))].update(old={"link": rng.choice(there)}, old_age=0)
        return case

    def execute(self, ctx, case):
        if not case.get("damaged"):
            return super().execute(ctx, case)
        E = self.engine
        res = {"violations": [], "fired": [], "ops": 0, "runs": 0, "probes": {"damaged inputs": 1}}
        w = case["world"]
        w = self.edited(w, {"edits": case["damaged"]})
        tree = G.build_tree(E.source, w)
        for i, s in enumerate(case["steps"]):
            E.fresh(tree)
            r = E.run(s["plan"], w["listing"], **self.run_args(tree, w))
            after = G.read_state(E.top, tree, i)
            res["fired"] += r.fired
            res["ops"] += r.n
            res["runs"] += 1
            res["violations"] += self.after_run(case, i, w, tree, None, r, after)
            tree = after
        return res

    def targets(self, w):
        return {G.target(l) for l in w["langs"]}

    def run_args(self, tree, w):
        T = self.targets(w)
        return {"protected": {k for k in G.build_tree(self.engine.source, w) if k not in T}}

    def after_run(self, case, i, w, before, ref, r, after):
        out = []
        T = self.targets(w)
        for op, f in r.touched[:3]:
            out.append({"class": "a file that is not the script's to change is changed", "file": f, "operation": op, "step": i, "fired": r.fired})
        for o in r.outside[:2]:
            out.append({"class": "something outside the repository would be changed", "file": o[1], "operation": o[0], "step": i, "fired": r.fired})
        P = self.run_args(before, w)["protected"]
        for k in sorted(P):
            if k in before and (k not in after or after[k][0] != before[k][0]):
                out.append({"class": "a file that is not the script's to change is changed", "file": k, "operation": "gone" if k not in after else "different", "step": i, "fired": r.fired})
        if r.status == 0 and not r.fired and not r.hang:
            for k in sorted(after):
                if k not in before and k not in T:
                    out.append({"class": "a completed run leaves an extra file", "file": k, "step": i})
        return out

    def signature(self, ctx, case, res):
        if not res.get("fired") and not case["world"].get("decoys"):
            return None
        return [(f[1], f[2], f[3]) for f in res["fired"]] + [sorted(case["world"]["langs"]), sorted(case["world"].get("decoys", {})), case.get("damaged")]


CHECK = G05()
