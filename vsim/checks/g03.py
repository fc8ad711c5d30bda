"""G03: the same inputs in other circumstances, and the shipped vocabularies."""
import ast
import copy

from .. import build
from .. import gen_engine as G
from ..gencheck import GenCheck, describe
from .g06 import first_difference


class G03(GenCheck):
    id = "G03"
    level = "exploration"
    locales = True
    quick_runs = 1500
    thorough_runs = 40000
    stub = GenCheck.stub + ", the locale's character set"
    rule = ("One run: a new interpreter in a generated environment (hash seed, locale, default text encoding also of locales not installed here, UTF-8 mode, clock, time zone, randomness, "
            "working directory, way of invocation, optimisation options, directory order) runs the script over 1-6 languages, or in every 40th run over all the repository's inputs, with previous "
            "targets of every kind, newer or older than the inputs; the targets are compared byte for byte with those of a reference run, and, over all the repository's inputs, their "
            "vocabularies with the shipped ones. Non-trivial: always; distinct: by environment, languages and previous targets.")
    assumptions = ["one interpreter version (the installed CPython) and one operating system"]

    def gen(self, ctx, rng, seed):
        full = seed % 40 == 0
        if full:
            w = {"langs": {l: {"old": self.old(rng, l)} for l in self.engine.source.langs}, "listing": rng.getrandbits(16), "skipped": ["root", "es-419"]}
        else:
            w = self.world(rng, 1, 5)
        if full and seed % 80 == 0:
            for s in w["langs"].values():
                s["old"] = "missing"
        v, flags = {}, ["-s"]
        if rng.random() < 0.85:
            v["PYTHONHASHSEED"] = str(rng.choice([0, 1, 2, rng.randrange(4294967295)]))
        x = rng.random()
        if x < 0.35:
            v[rng.choice(["LC_ALL", "LC_ALL", "LANG", "LC_CTYPE"])] = rng.choice(["C", "POSIX", "C.UTF-8", "fr_FR.utf8", "xx_XX", "ru", "es_MX"])
        elif x < 0.8:            # one of the locales compiled for the check
            v["LOCPATH"] = "@@/locales"
            for k in rng.choice([["LC_ALL"], ["LC_ALL"], ["LANG"], ["LC_CTYPE"], ["LANG", "LC_COLLATE"]]):
                v[k] = rng.choice(build.LOCALES)
        if rng.random() < 0.5:
            v["PYTHONUTF8"] = rng.choice(["0", "0", "1"])
        if rng.random() < 0.4:
            v["PYTHONCOERCECLOCALE"] = "0"
        if rng.random() < 0.5:
            v["SIM_CODESET"] = rng.choice(["ANSI_X3.4-1968", "ISO-8859-1", "ISO-8859-15", "CP1252", "KOI8-R", "EUC-JP", "UTF-8"])
            if rng.random() < 0.8:
                v["PYTHONUTF8"] = "0"
                if "LOCPATH" not in v:
                    v["LC_ALL"] = "fr_FR.utf8"
        if rng.random() < 0.7:
            v["SIM_CLOCK"] = str(rng.choice([0, 1, 951782400, 1582934400, 2147483647, 4102444800, rng.randrange(2 * 10**9)]))
        if rng.random() < 0.5:
            v["TZ"] = rng.choice(["UTC", "America/St_Johns", "Pacific/Kiritimati", "XYZ-13:37"])
        if rng.random() < 0.5:
            v["SIM_HOST"] = rng.choice(["a", "build-7.example.org", "localhost", "0", "x" * 63])
        if rng.random() < 0.4:
            v["SIM_CPUS"] = rng.choice(["1", "2", "3", "256"])
        v["SIM_RAND"] = str(rng.getrandbits(30))
        for k, vs in (("LANGUAGE", ["fr", "ru", "es:en", "uk"]), ("PYTHONINTMAXSTRDIGITS", ["0"]), ("DEBUG", ["1"]), ("HOME", ["/nonexistent"]), ("COLUMNS", ["1"]), ("USER", ["es", "root"]), ("CI", ["true"]), ("PYTHONIOENCODING", ["ascii", "latin-1"])):
            if rng.random() < 0.12:
                v[k] = rng.choice(vs)
        for f, p in ((["-O"], 0.15), (["-OO"], 0.1), (["-X", "dev"], 0.05), (["-u"], 0.1), (["-bb"], 0.1)):
            if rng.random() < p:
                flags += f
        return {"world": w, "env": {"vars": v, "flags": flags, "cwd": rng.choice(["", "repo", "tmp", "repo/number_parser", "repo/number_parser/data", "repo/number_parser_scripts"]),
                                    "relative": rng.random() < 0.5}, "full": full}

    def execute(self, ctx, case):
        E = self.engine
        res = {"violations": [], "fired": [], "ops": 0, "runs": 1, "probes": {}}
        w = case["world"]
        tree = G.build_tree(E.source, w)
        plain = copy.deepcopy(w)
        plain["listing"] = 0
        for s in plain["langs"].values():
            s["old"] = "missing"
        plain.pop("decoys", None)
        ref = E.reference(G.build_tree(E.source, plain), 0)
        if not self.usable(tree, ref, w["langs"]):
            if case["full"]:
                res["violations"].append({"class": "the script does not generate all languages", "status": ref[0],
                                          "missing": [l for l in w["langs"] if G.target(l) not in ref[1]][:5]})
            res["probes"]["no reference"] = 1
            return res
        E.fresh(tree)
        r = E.run((), w["listing"], mode="exec", env=case["env"])
        res["ops"] = r.n
        if r.hang or r.status != 0:
            res["violations"].append({"class": "the script fails in another environment", "status": "hang" if r.hang else r.status})
            return res
        after = G.read_tree(E.top)
        for l in G.languages_of(w):
            t = G.target(l)
            if after.get(t) != ref[1][t]:
                res["violations"].append({"class": "not reproducible", "file": t, "found": describe(after.get(t), tree.get(t, (None,))[0], ref[1][t]),
                                          "differs": first_difference(after.get(t), ref[1][t])})
        if case["full"]:
            res["probes"]["shipped vocabularies compared"] = 0
            for l in G.languages_of(w):
                t = G.target(l)
                shipped, made = vocabulary(E.source.file(t)), vocabulary(after.get(t))
                res["probes"]["shipped vocabularies compared"] += 1
                if shipped != made:
                    res["violations"].append({"class": "the shipped vocabulary is not what its inputs give", "file": t, "differs": differences(shipped, made)})
        return res

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        e = case["env"]["vars"]
        for k, n in (("PYTHONHASHSEED", "hash seed"), ("SIM_CODESET", "default text encoding"), ("TZ", "time zone"), ("SIM_CLOCK", "clock"), ("SIM_RAND", "randomness"), ("SIM_HOST", "host name"), ("SIM_CPUS", "number of processors")):
            stats["fault:" + n] += k in e
        stats["fault:locale"] += any(k in e for k in ("LC_ALL", "LANG", "LC_CTYPE"))
        stats["fault:directory order"] += 1
        stats["fault:previous contents"] += any(s.get("old") != "missing" for s in case["world"]["langs"].values())

    def signature(self, ctx, case, res):
        return (case["env"], case["world"])

    def shrink(self, ctx, case):
        w = case["world"]
        ls = sorted(w["langs"])
        halves = [ls[:len(ls) // 2], ls[len(ls) // 2:]] if len(ls) > 3 else []
        for drop in halves + [[l] for l in ls]:
            if len(ls) > len(drop) and len(ls) < 20 or len(drop) > 3:
                c = copy.deepcopy(case)
                for l in drop:
                    del c["world"]["langs"][l]
                yield c
        for k in sorted(case["env"]["vars"]):
            c = copy.deepcopy(case)
            del c["env"]["vars"][k]
            yield c
        if case["env"]["flags"] != ["-s"] or case["env"]["cwd"] or case["env"]["relative"]:
            c = copy.deepcopy(case)
            c["env"].update(flags=["-s"], cwd="", relative=False)
            yield c
        for l in ls[:8]:
            for k in ("src", "sup", "old_age"):
                if k in w["langs"][l]:
                    c = copy.deepcopy(case)
                    del c["world"]["langs"][l][k]
                    yield c
        for k in ("decoys", "skipped"):
            if w.get(k):
                c = copy.deepcopy(case)
                del c["world"][k]
                yield c


def vocabulary(b):
    """the data of a language file"""
    if b is None:
        return "missing"
    try:
        mod = ast.parse(b.decode("utf-8"))
        vals = {}
        for s in mod.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    vals[t.id] = ast.literal_eval(s.value)
        return vals
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def differences(a, b):
    if isinstance(a, str) or isinstance(b, str) or "info" not in a or "info" not in b:
        return {"shipped": str(a)[:200], "generated": str(b)[:200]}
    out = {}
    for k in sorted(set(a["info"]) | set(b["info"])):
        x, y = a["info"].get(k), b["info"].get(k)
        if x == y:
            continue
        if isinstance(x, dict) and isinstance(y, dict):
            out[k] = {"only shipped": sorted(set(x) - set(y))[:6], "only generated": sorted(set(y) - set(x))[:6], "different numbers": sorted(w for w in x if w in y and x[w] != y[w])[:6]}
        else:
            out[k] = {"shipped": str(x)[:200], "generated": str(y)[:200]}
    return out


CHECK = G03()
