"""G02: crashed and failed runs, then one that completes."""
from .. import gen_engine as G
from ..gencheck import CrashSequence, describe


class G02(CrashSequence):
    id = "G02"
    quick_runs = 2400
    thorough_runs = 60000
    rule = ("One run: one to three generation runs killed (with or without loss of unsynced data) or failed as for G01, inputs edited in between, then one undisturbed run; the whole "
            "repository afterwards is compared, byte for byte, with what the same undisturbed run leaves when the earlier ones never happened. "
            "Non-trivial: a fault fired; distinct: by operations hit, languages, power.")

    def at_end(self, case, w, first, tree, res):
        E = self.engine
        clean = self.inputs(first, w)
        ref = E.reference(clean, w["listing"])
        if not self.usable(clean, ref, w["langs"]):
            return []
        E.fresh(tree)
        r = E.run((), w["listing"])
        res["ops"] += r.n
        res["runs"] += 1
        if r.hang or r.status != 0:
            return [{"class": "regeneration no longer completes", "status": "hang" if r.hang else r.status, "fired": res["fired"]}]
        got, want = G.read_tree(E.top), ref[1]
        out = []
        for k in sorted(set(got) | set(want)):
            if k.startswith("tmp") or got.get(k) == want.get(k):
                continue
            if k not in want:
                out.append({"class": "leftover of an earlier run", "file": k, "fired": res["fired"]})
            else:
                out.append({"class": "file not repaired", "file": k, "found": describe(got.get(k), first.get(k, (None,))[0], want[k]), "fired": res["fired"]})
        return out


CHECK = G02()
