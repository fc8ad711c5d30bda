"""Runs a check: builds the seams, spreads seeds over worker processes, reports."""
import collections
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

from . import build
from .worker import load_check

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")      # overridden only while developing the checks
PY = sys.executable


def worker_env(scratch, native):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "SIM_"))}
    env.update(LD_PRELOAD=os.path.join(native, "simio.so"), PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"), PYTHONUTF8="0",
               LC_ALL="C.UTF-8", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1",
               HOME=scratch, TMPDIR=os.path.join(scratch, "tmp"))
    return env


def precompile(scratch):
    """bytecode of the package, in the scratch directory: every simulated process starts faster"""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    subprocess.run([PY, "-s", "-m", "compileall", "-q", os.path.join(REPO, "number_parser")], env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


class Worker:
    def __init__(self, cid, scratch, native, seed, tier, n):
        w = os.path.join(scratch, "w%d" % n)
        os.makedirs(os.path.join(w, "tmp"), exist_ok=True)
        os.makedirs(os.path.join(scratch, "shared"), exist_ok=True)
        env = worker_env(scratch, native)
        env["TMPDIR"] = os.path.join(w, "tmp")
        self.log = open(os.path.join(w, "stderr"), "wb")
        self.p = subprocess.Popen([PY, "-s", os.path.join(VERIF, "vsim", "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.log, env=env, cwd=w)
        self.buf = b""
        self.send({"check": cid, "repo": REPO, "seed": seed, "tier": tier, "scratch": w, "native": native,
                   "shared": os.path.join(scratch, "shared")})

    def send(self, m):
        self.p.stdin.write((json.dumps(m) + "\n").encode())
        self.p.stdin.flush()

    def lines(self):
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            raise EOFError
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(l) for l in ls]

    def ask(self, m):
        self.send(m)
        while True:
            ls = self.lines()
            if ls:
                return ls[0]

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.log.close()


class Error(Exception):
    pass


def read_known():
    """known-findings.txt -> [(property, signature, text)] for entries that are still open"""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: "):
                    rest = line[len("known: "):].strip()
                    pid, js = rest.split(" ", 1)
                    d = json.loads(js)
                    out.append((pid.split("=", 1)[1], d["signature"], d["what"]))
    except FileNotFoundError:
        pass
    return out


def is_known(known, pid, v):
    for p, sig, _ in known:
        if p == pid and all(v.get(k) == x for k, x in sig.items()):
            return True
    return False


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("check=%s tier=%s VERIF_SEED=%d" % (cid, tier, seed), flush=True)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vsim-%s-" % cid)
    try:
        return explore(cid, tier, seed, scratch, t0)
    except Error as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(cid, tier, seed, scratch, t0):
    check = load_check(cid)
    native = build.build(os.path.join(scratch, "native"), check.locales)
    precompile(scratch)
    runs = int(os.environ.get("VSIM_RUNS", check.quick_runs if tier == "quick" else check.thorough_runs))
    wall = check.quick_wall if tier == "quick" else check.thorough_wall
    nw = int(os.environ.get("VSIM_WORKERS", min(8, os.cpu_count() or 2)))
    first = int(os.environ.get("VSIM_FIRST", "0"))
    todo = collections.deque()
    for i in range(first, first + runs, check.batch):
        todo.append(list(range(i, min(i + check.batch, first + runs))))
    known = read_known()
    stats = collections.Counter()
    sigs, samples, found, suppressed = set(), [], [], []
    done = 0
    workers = [Worker(cid, scratch, native, seed, tier, i) for i in range(nw)]
    sel = selectors.DefaultSelector()
    out_of_time = False
    try:
        for w in workers:
            sel.register(w.p.stdout, selectors.EVENT_READ, w)
        busy = {}

        def feed(w):
            nonlocal out_of_time
            if time.time() - t0 > wall:
                out_of_time = True
            if todo and not found and not out_of_time:
                b = todo.popleft()
                busy[w] = b
                w.send({"cmd": "run", "seeds": b})

        for w in workers:
            feed(w)
        ok, path, unconfirmed = True, None, []
        while ok and (busy or found):
            while busy:
                ev = sel.select(timeout=600)
                if not ev:
                    raise Error("workers are silent for 600 s")
                for key, _ in ev:
                    w = key.data
                    try:
                        ls = w.lines()
                    except EOFError:
                        raise Error("a worker ended: " + open(w.log.name, errors="replace").read()[-3000:])
                    for a in ls:
                        busy.pop(w, None)
                        if a.get("error"):
                            raise Error("in the harness, not in the code under test:\n" + a["error"])
                        done += a["n"]
                        stats.update(a["stats"])
                        sigs.update(a["sigs"])
                        if len(samples) < 3:
                            samples += a["samples"]
                        for v in a["violations"]:
                            new = [x for x in v["violations"] if not is_known(known, cid, x)]
                            suppressed += [x for x in v["violations"] if is_known(known, cid, x)]
                            if new:
                                found.append((v["case"]["seed"], v["case"], new))
                        feed(w)
            # the smallest run number first; a failure counts once it has been replayed
            wall_explore = time.time() - t0
            for item in sorted(found, key=lambda f: f[0])[:2]:
                path, note = report(check, cid, tier, seed, workers, item, scratch, native, t0)
                if path is not None:
                    ok = False
                    break
                unconfirmed.append(note)
                print("UNCONFIRMED: " + note, flush=True)
                if len(unconfirmed) > 3:
                    raise Error(note)
            found.clear()
            if ok and not out_of_time:
                for w in workers:
                    if w not in busy:
                        feed(w)
        wall_explore = time.time() - t0 if ok else wall_explore
        for p, sig, what in known:
            if p == cid:
                print("KNOWN-FINDING: property=%s %s" % (cid, what))
    finally:
        for w in workers:
            w.stop()
    if ok and out_of_time and done < min(runs, max(20, runs // 20)):
        raise Error("only %d of %d runs finished within %d s" % (done, runs, wall))
    stats["failures that did not replay"] += len(unconfirmed)
    evidence(check, cid, tier, seed, done, runs, stats, sigs, samples, wall_explore, time.time() - t0, 0 if ok else 1, nw)
    print("%s: %d simulated runs, %d distinct, %.1f s, faults %s" % (
        cid, done, len(sigs), time.time() - t0, {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}))
    if not ok:
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    return 0


def report(check, cid, tier, seed, workers, item, scratch, native, t0):
    s, case, vs = item
    cls = vs[0]["class"]
    print("run seed %s/%s violates %s: %s" % (seed, s, cid, json.dumps(vs[0], ensure_ascii=False)[:1500]), flush=True)
    a = workers[0].ask({"cmd": "shrink", "case": case, "cls": cls, "budget": (60 if time.time() - t0 < 450 else 0) if tier == "quick" else 180})
    candidates = []
    if not a.get("error") and any(v["class"] == cls for v in a["violations"]):
        candidates.append((a["case"], a["violations"]))
    candidates.append((case, vs))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for c, v in candidates:
        for attempt in range(3):
            w = Worker(cid, scratch, native, seed, tier, 100 + attempt)
            b = w.ask({"cmd": "replay", "case": c})
            w.stop()
            if not b.get("error") and any(x["class"] == cls for x in b["violations"]):
                path = os.path.join(rdir, "%s-seed%d-%s.json" % (cid, seed, s))
                with open(path, "w", encoding="utf-8") as f:
                    json.dump({"property": cid, "VERIF_SEED": seed, "run": s, "class": cls, "case": c,
                               "violations": b["violations"], "shrink_tried": a.get("tried")}, f, ensure_ascii=False, indent=1)
                    f.write("\n")
                print("minimised (%s attempts): %s" % (a.get("tried"), json.dumps(b["violations"][0], ensure_ascii=False)[:1500]))
                print("replay with: %s check.py replay %s" % (PY, path))
                return path, None
    return None, "run %s failed once (%s) but does not replay: the harness is not deterministic" % (s, json.dumps(vs[0], ensure_ascii=False)[:800])


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    cid = d["property"]
    scratch = tempfile.mkdtemp(prefix="vsim-replay-")
    try:
        native = build.build(os.path.join(scratch, "native"), load_check(cid).locales)
        precompile(scratch)
        w = Worker(cid, scratch, native, d["VERIF_SEED"], "quick", 0)
        a = w.ask({"cmd": "replay", "case": d["case"], "full": True})
        w.stop()
        if a.get("error"):
            print(a["error"])
            return 2
        for v in a["violations"]:
            print(json.dumps(v, ensure_ascii=False))
        if any(v["class"] == d["class"] for v in a["violations"]):
            print("VIOLATION property=%s replay=%s" % (cid, path))
            return 1
        print("the recorded violation does not occur on this tree")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(check, cid, tier, seed, done, planned, stats, sigs, samples, wall_explore, wall, violations, nw):
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": check.rule,
        "samples": samples[:3],
        "simulated_runs_planned": planned,
        "runs_per_hour": int(done / max(wall_explore, 0.001) * 3600),
        "workers": nw,
        "faults_injected": faults,
        "probes": probes,
        "counts": other,
        "real_components": check.real,
        "stubbed_components": check.stub,
    }
    d = {"property": cid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
         "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", cid + ".json")
    with open(p + ".tmp", "w", encoding="utf-8") as f:
        json.dump(d, f, ensure_ascii=False, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
