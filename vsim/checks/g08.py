"""G08: the library, in processes started before, during and after generation runs."""
import copy
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import time

from .. import gen_engine as G
from ..gencheck import MAIN, GenCheck
from .g03 import vocabulary

NOW = 1600000000


class G08(GenCheck):
    id = "G08"
    quick_runs = 500
    thorough_runs = 30000
    real = GenCheck.real + "; number_parser/ imported from that repository, with the interpreter's bytecode cache"
    rule = ("One run: one to three generation runs, undisturbed, killed or failing as for G01, inputs edited in between (also without changing a file's length), over a scratch repository in which "
            "library processes that keep compiled files are started before, between file operations of, and after the runs; what they convert is compared, language by language, with a library that "
            "has the complete previous or new file of that language and no compiled files. Non-trivial: an edited input; distinct: by edits, faults and processes.")
    assumptions = GenCheck.assumptions + ["runs that change a file are at least a second apart (the interpreter tells versions of a file of one length apart by its time stamp in seconds)"]

    def gen(self, ctx, rng, seed):
        E = self.engine
        w = self.world(rng, 1, 1, decoys=False)
        extra = [l for l in w["langs"] if l not in MAIN and rng.random() < 0.3]
        w["langs"] = {l: {"old": self.old(rng, l, ["repo", "repo", "repo", "lines", "padded", "missing"])} for l in MAIN + extra}
        for s in w["langs"].values():
            if rng.random() < 0.2:
                s["old_age"] = rng.choice([-1000, 1000, 10**6])
        steps, world = [], w
        for i in range(rng.choice([1, 2, 2, 3])):
            s = {"edits": {}, "plan": []}
            for l in rng.sample(sorted(w["langs"]), rng.choice([1, 1, 2, 5])):
                s["edits"][l] = {rng.choice(["src", "sup"]): {rng.choice(["edit", "swap"]): rng.randrange(80)}}
            world = self.edited(world, s)
            ops = E.reference(G.build_tree(E.source, world), w["listing"])[2]
            if ops and rng.random() < 0.4:
                s["plan"] = self.plan(rng, ops)
            if ops and rng.random() < 0.5:
                s["during"] = sorted(rng.randint(1, len(ops)) for _ in range(rng.choice([1, 1, 2])))
            s["after"] = rng.random() < 0.85
            steps.append(s)
        return {"world": w, "steps": steps, "before": rng.random() < 0.8, "calls": rng.getrandbits(20)}

    def edited(self, w, s):
        w = copy.deepcopy(w)
        for l, e in (s.get("edits") or {}).items():
            if l in w["langs"]:
                w["langs"][l].update(copy.deepcopy(e))
        return w

    # ---------------------------------------------------------------- one run
    def execute(self, ctx, case):
        E = self.engine
        res = {"violations": [], "fired": [], "ops": 0, "runs": 0, "probes": {"library processes judged": 0, "same-length changes": 0}}
        w = case["world"]
        tree = G.build_tree(E.source, w)
        worlds, refs = [], []
        for s in case["steps"]:
            w = self.edited(w, s)
            worlds.append(w)
            t = self.inputs(tree, w)
            ref = E.reference(t, w["listing"])
            if not self.usable(t, ref, w["langs"]):
                res["probes"]["no reference"] = 1
                return res
            refs.append(ref[1])
        langs = [l for l in MAIN if l in w["langs"]]
        names = [G.target(l) for l in langs]
        states = [{t: tree[t][0] for t in names if t in tree}] + [{t: r[t] for t in names} for r in refs]
        calls = self.calls(case["calls"], langs, states)
        E.fresh(tree)
        if case["before"]:
            self.library(E.top, calls)
        for i, s in enumerate(case["steps"]):
            self.put_inputs(E.top, worlds[i], i)
            old = self.read(E.top, names)
            seen = []

            def look(disk, op, r1, r2, s=s, seen=seen):
                for k in s.get("during", ()):
                    if disk.n == k:
                        seen.append(("during step %d, before operation %d (%s %s)" % (i, k, G.NAME[op], r1), self.library(E.top, calls)))
            r = E.run(s["plan"], w["listing"], env={"clock": 1700000000 + 10**6 * i}, observer=look)
            res["fired"] += r.fired
            res["ops"] += r.n
            res["runs"] += 1
            if r.hang:
                res["violations"].append({"class": "hang", "step": i, "fired": r.fired})
                return res
            self.settle(E.top, i)
            new = {t: refs[i][t] for t in names}
            res["probes"]["same-length changes"] += sum(old.get(t) not in (None, new[t]) and len(old[t]) == len(new[t]) for t in names)
            done = r.status == 0
            if s["after"]:
                seen.append(("after step %d" % i, self.library(E.top, calls)))
            for when, got in seen:
                res["probes"]["library processes judged"] += 1
                res["violations"] += self.compare(when, got, calls, langs, old, new, done and when.startswith("after"), r)
            if res["violations"]:
                return res
        return res

    def compare(self, when, got, calls, langs, old, new, done, r):
        out = []
        if isinstance(got, str):
            return [{"class": "the library cannot be used", "when": when, "found": got, "fired": r.fired}]
        for l in langs + ([None] if done else []):
            mine = [k for k, c in enumerate(calls) if c[2] == l]
            have = [got[k] for k in mine]
            want = self.oracle(calls, mine, new, l)
            if have == want:
                continue
            if not done and have == self.oracle(calls, mine, old, l):
                continue
            k = next((k for k, a, b in zip(mine, have, want) if a != b), mine[0])
            out.append({"class": "the library does not use the new vocabulary" if done else "the library uses neither the previous nor the new vocabulary", "language": l, "when": when,
                        "call": calls[k], "found": got[k], "expected": want[mine.index(k)], "status": r.status, "fired": r.fired})
        return out[:2]

    # ---------------------------------------------------------------- the library
    def calls(self, seed, langs, states):
        rng = random.Random("g08/%s" % seed)
        out = []
        for l in langs:
            words = set()
            prev = None
            for st in states:
                v = vocabulary(st.get(G.target(l)))
                if isinstance(v, str) or not isinstance(v.get("info"), dict):
                    continue
                d = {(k, w, n) for k in G.KEYS for w, n in v["info"].get(k, {}).items()}
                if prev is not None:
                    words |= {w for _, w, _ in sorted(d ^ prev)[:40]}         # what changed
                words |= {w for _, w, _ in rng.sample(sorted(d), min(len(d), 4))}
                prev = d
            words = sorted(words)
            out += [["parse_number", w, l] for w in words]
            for _ in range(3):
                if words:
                    out.append([rng.choice(["parse", "parse_ordinal", "parse_number"]), " ".join(rng.choice(words) for _ in range(rng.choice([2, 3, 5]))), l])
            out += [["parse", w, None] for w in words[:2]]
        return out

    def oracle(self, calls, mine, data, l):
        """what a library with these files, and no compiled ones, converts"""
        E = self.engine
        key = (tuple(map(tuple, (calls[k] for k in mine))), tuple(hashlib.sha1(b).hexdigest() for t, b in sorted(data.items()) if l is None or t == G.target(l)))
        memo = E.__dict__.setdefault("library_memo", {})
        v = memo.get(key)
        if v is None:
            d = os.path.join(E.ctx.scratch, "oracle")
            shutil.rmtree(d, ignore_errors=True)
            G.write_tree(d, dict({k: v for k, v in G.build_tree(E.source, {"langs": {}}).items() if k.startswith("repo/number_parser/")},
                                 **{t: (b, NOW) for t, b in data.items()}))
            v = self.library(d, [calls[k] for k in mine], caches=False)
            shutil.rmtree(d, ignore_errors=True)
            if len(memo) > 2000:
                memo.clear()
            memo[key] = v
        return v

    def library(self, top, calls, caches=True):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                sys.dont_write_bytecode = not caches
                sys.pycache_prefix = None
                sys.path.insert(0, os.path.join(top, "repo"))
                sys.path_importer_cache.clear()
                importlib.invalidate_caches()
                out = []
                try:
                    import number_parser
                    for f, text, lang in calls:
                        try:
                            out.append(["ok", repr(getattr(number_parser, f)(text, lang))])
                        except Exception as e:
                            out.append(["exc", type(e).__name__])
                except Exception as e:
                    out = "%s: %s" % (type(e).__name__, str(e).replace(top, ""))
                data = json.dumps(out).encode()
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        return json.loads(data) if data else "ended without an answer"

    # ---------------------------------------------------------------- the disk between runs
    def read(self, top, names):
        out = {}
        for t in names:
            try:
                with open(os.path.join(top, t), "rb") as f:
                    out[t] = f.read()
            except FileNotFoundError:
                pass
        return out

    def put_inputs(self, top, w, i):
        for rel, (b, m) in G.build_tree(self.engine.source, w).items():
            if rel.startswith((G.SRC, G.SUP)):
                p = os.path.join(top, rel)
                with open(p, "rb") as f:
                    same = f.read() == b
                if not same:
                    with open(p, "wb") as f:
                        f.write(b)
                    os.utime(p, (NOW + 10**6 * i, NOW + 10**6 * i))

    def settle(self, top, i):
        """files written just now get the virtual time of their run"""
        d = os.path.join(top, G.OUT)
        now = time.time()
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and abs(os.lstat(p).st_mtime - now) < 10**6 and not os.path.islink(p):
                m = NOW + 10**6 * (i + 2)
                os.utime(p, (m, m))

    def signature(self, ctx, case, res):
        if not res["runs"]:
            return None
        return [(f[1], f[2], f[3]) for f in res["fired"]] + [[(s["edits"], s.get("during"), s["after"]) for s in case["steps"]], case["before"]]

    def shrink(self, ctx, case):
        yield from super().shrink(ctx, case)
        for i, s in enumerate(case["steps"]):
            for k in list(s["edits"]):
                c = copy.deepcopy(case)
                del c["steps"][i]["edits"][k]
                yield c
            for k in ("during", "after"):
                if s.get(k):
                    yield _without(case, i, k)
        if case["before"]:
            c = copy.deepcopy(case)
            c["before"] = False
            yield c


def _without(case, i, k):
    c = copy.deepcopy(case)
    c["steps"][i][k] = [] if k == "during" else False
    return c


CHECK = G08()
