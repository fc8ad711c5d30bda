"""G06: one language's file, whatever the others are."""
import copy
import errno

from .. import gen_engine as G
from ..gencheck import GenCheck, describe


class G06(GenCheck):
    id = "G06"
    quick_runs = 2800
    thorough_runs = 60000
    rule = ("One run: a generation run over 2-7 languages (often of one family) in a shuffled order, with previous outputs of every kind; in half of the runs some languages' inputs "
            "are damaged, cut off, missing, lack their spell-out rules or cannot be read. Each intact language's file is compared with the one made in a repository of its own. "
            "Non-trivial: always; distinct: by languages, order, damage and previous outputs.")

    def gen(self, ctx, rng, seed):
        w = self.world(rng, 2, 6)
        bad, plan = {}, []
        if rng.random() < 0.5:
            for l in rng.sample(sorted(w["langs"]), rng.choice([1, 1, 2, len(w["langs"]) - 1])):
                x = rng.random()
                if x < 0.7:
                    bad[l] = rng.choice([{"src": "garbage"}, {"src": "norules"}, {"sup": "missing"}, {"sup": "garbage"}, {"sup": "empty"}, {"src": {"trunc": rng.randint(0, 990)}}, {"sup": {"trunc": rng.randint(0, 990)}},
                                         {"src": {"of": "root"}}, {"src": {"of": "es-419"}}, {"sup": {"of": rng.choice(["en", "fr", "ru"])}}])
                else:
                    bad[l] = {}
                    d = rng.choice([G.SRC, G.SUP]) + l + ".json"
                    if rng.random() < 0.5:
                        plan.append({"at": 1, "path": d, "ops": [G.OPEN], "act": G.ERR, "arg": rng.choice([errno.EACCES, errno.EIO, errno.ENOENT]), "count": -1})
                    else:
                        plan.append({"at": 1, "path": d, "ops": [G.READ], "act": G.ERR, "arg": errno.EIO, "count": -1})
        return {"world": w, "bad": bad, "steps": [{"plan": plan}]}

    def execute(self, ctx, case):
        E = self.engine
        res = {"violations": [], "fired": [], "ops": 0, "runs": 0, "probes": {}}
        w = copy.deepcopy(case["world"])
        for l, b in case["bad"].items():
            if l in w["langs"]:
                w["langs"][l].update(b)
        tree = G.build_tree(E.source, w)
        alone = {}
        for l in w["langs"]:
            one = {"langs": {l: dict(w["langs"][l], old="missing")}, "listing": w["listing"] & 1}
            t = G.build_tree(E.source, one)
            if l in case["bad"]:                         # what its bad inputs give on their own, if anything
                E.fresh(t)
                E.run(case["steps"][0]["plan"], one["listing"])
                alone[l] = G.read_tree(E.top).get(G.target(l))
                continue
            ref = E.reference(t, one["listing"])
            if self.usable(t, ref, [l]):
                alone[l] = ref[1][G.target(l)]
        E.fresh(tree)
        r = E.run(case["steps"][0]["plan"], w["listing"])
        after = G.read_tree(E.top)
        res["fired"], res["ops"], res["runs"] = r.fired, r.n, 1
        res["probes"] = {"languages judged": len(alone), "languages left as before": 0}
        if r.hang:
            res["violations"].append({"class": "hang", "fired": r.fired})
            return res
        for l, want in sorted(alone.items()):
            t = G.target(l)
            old = tree[t][0] if t in tree else None
            now = after.get(t)
            if now == want:
                continue
            if case["bad"] and now == old:
                res["probes"]["languages left as before"] += 1
                continue
            res["violations"].append({"class": "a language file depends on other languages", "file": t, "status": r.status, "bad": case["bad"], "found": describe(now, old, want), "differs": first_difference(now, want)})
        return res

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        for b in case["bad"].values():
            stats["fault:bad inputs of another language"] += bool(b)

    def signature(self, ctx, case, res):
        return (case["world"]["langs"], case["world"]["listing"], case["bad"], case["steps"])

    def shrink(self, ctx, case):
        for l in sorted(case["world"]["langs"]):
            if len(case["world"]["langs"]) > 1:
                c = copy.deepcopy(case)
                del c["world"]["langs"][l]
                c["bad"].pop(l, None)
                for listing in range(4):
                    c2 = copy.deepcopy(c)
                    c2["world"]["listing"] = listing
                    yield c2
        for l in sorted(case["bad"]):
            c = copy.deepcopy(case)
            del c["bad"][l]
            yield c
        for k in ("decoys", "skipped"):
            if case["world"].get(k):
                c = copy.deepcopy(case)
                del c["world"][k]
                yield c


def first_difference(a, b):
    if a is None or b is None:
        return None
    x, y = a.split(b"\n"), b.split(b"\n")
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return {"line": i + 1, "found": ascii(p[:100]), "expected": ascii(q[:100])}
    return {"line": min(len(x), len(y)) + 1}


CHECK = G06()
