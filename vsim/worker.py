"""A worker process: runs simulated cases, each in a forked child, under the OS seam.

Started by the driver with LD_PRELOAD=simio.so and a fixed hash seed; never imports
number_parser itself.  Speaks JSON lines on stdin/stdout.
"""
import ctypes
import gc
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsim import files, lib_child, snapshot, textgen  # noqa: E402

import ast, collections, contextlib, functools, importlib, importlib.util, itertools, logging, pkgutil, re, string, threading, unicodedata, warnings, weakref  # noqa: E401,E402,F401

CHILD_S = 60.0
LIBC = ctypes.CDLL(None)


def hash64(x):
    b = repr(x).encode()
    return (zlib.crc32(b) << 32) | zlib.adler32(b)


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, cfg):
        self.cfg = cfg
        self.repo = cfg["repo"]
        self.seed = cfg["seed"]
        self.scratch = cfg["scratch"]
        self.native = cfg["native"]
        self.io = lib_child.IO(os.path.join(self.native, "simio.so"))
        sys.path.insert(0, self.native)
        import simtrace
        self.simtrace = simtrace
        self.gen = textgen.TextGen(self.repo)
        self.battery = self.gen.battery()
        self._oracle = {}
        self._locs = {}
        self._pools = {}
        os.makedirs(os.path.join(self.scratch, "cold"), exist_ok=True)

    # -------------------------------------------------- running things in a child
    def in_child(self, fn, timeout=CHILD_S, quiet=True):
        """fn() in a forked child -> ("ok", value) | ("died", status) | ("hang", None)"""
        r, w = os.pipe()
        gc.freeze()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                LIBC.prctl(1, signal.SIGKILL)                  # ends with the worker (PR_SET_PDEATHSIG)
                os.close(r)
                if quiet:
                    nul = os.open("/dev/null", os.O_RDWR)
                    for fd in (0, 1, 2):
                        os.dup2(nul, fd)
                    os.close(nul)
                try:
                    v = ("ok", fn())
                except BaseException as e:
                    v = ("error", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
                # plain types only, so that nothing needs importing
                data = pickle.dumps(v)
                with open(w, "wb", buffering=0, closefd=False) as f:
                    mv = memoryview(data)
                    while mv:
                        mv = mv[f.write(mv):]
            except BaseException:
                code = 77
            os._exit(code)
        os.close(w)
        chunks = []
        end = time.monotonic() + timeout
        hang = False
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                hang = True
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        if hang:
            os.kill(pid, signal.SIGKILL)
        os.waitid(os.P_PID, pid, os.WEXITED | os.WNOWAIT)      # not collected yet, so that its number is still its own
        try:
            os.killpg(pid, signal.SIGKILL)                     # processes it forked
        except (ProcessLookupError, PermissionError):
            pass
        _, st = os.waitpid(pid, 0)
        if hang:
            return "hang", None
        if not chunks:
            return "died", st
        v = pickle.loads(b"".join(chunks))
        if v[0] == "error":
            raise HarnessError(v[1])
        return v

    def env(self, repo=None):
        repo = repo or self.repo
        return {"repo": repo, "prefix": os.path.join(repo, "number_parser") + os.sep, "io": self.io, "simtrace": self.simtrace, "gen": self.gen, "cold": os.path.join(self.scratch, "cold")}

    def run(self, case, timeout=CHILD_S, repo=None):
        e = self.env(repo)
        e["files"] = functools.partial(files.apply, e["repo"]) if repo else None
        kind, v = self.in_child(lambda: lib_child.run_case(case, e), timeout)
        if kind == "hang":
            # a real hang repeats
            kind, v = self.in_child(lambda: lib_child.run_case(case, e), timeout)
            if kind == "hang":
                return {"hang": True, "rec": [], "switches": [], "events": 0, "fired": []}
        if kind == "died":
            return {"died": v, "rec": [], "switches": [], "events": 0, "fired": []}
        return v

    # -------------------------------------------------- oracle: the call alone in a fresh process
    def oracle(self, op):
        k = json.dumps(op, ensure_ascii=False)
        v = self._oracle.get(k)
        if v is None:
            v = self._oracle[k] = self.shared("oracle", k)
        if v is None:
            res = self.run({"threads": [[op]]})
            if res.get("hang") or res.get("died") is not None or not res["rec"]:
                v = ["exc", "Hang" if res.get("hang") else "Died", str(res.get("died"))]
            else:
                v = res["rec"][0]["out"]
            self._oracle[k] = v
            self.share("oracle", k, v)
        return v

    # results of deterministic runs, shared between the workers of one check
    def shared(self, kind, k):
        try:
            with open(self.shared_name(kind, k), encoding="utf-8") as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def share(self, kind, k, v):
        n = self.shared_name(kind, k)
        with open(n + ".%d" % os.getpid(), "w", encoding="utf-8") as f:
            json.dump(v, f)
        os.replace(n + ".%d" % os.getpid(), n)

    def shared_name(self, kind, k):
        import hashlib
        return os.path.join(self.cfg["shared"], "%s-%s" % (kind, hashlib.sha1(k.encode("utf-8", "surrogatepass")).hexdigest()))

    def import_oracle(self):
        v = self._oracle.get("import")
        if v is None:
            v = self._oracle["import"] = self.run({"cold": True, "threads": [[{"do": "import"}]]})["rec"][0]["out"]
        return v

    def locs(self, op, warm, cold_import=False):
        """distinct instructions a call executes, with their counts"""
        k = (json.dumps(op, ensure_ascii=False), warm, cold_import)
        v = self._locs.get(k)
        if v is None:
            case = {"threads": [[op]], "record": True, "setup": [op] if warm else [], "cold": cold_import}
            kk = json.dumps(k)
            v = self.shared("locs", kk)
            if v is None:
                v = sorted(self.run(case).get("locs") or [])
                self.share("locs", kk, v)
            self._locs[k] = v
        return v

    def pool(self, key, n):
        k = (key, n)
        if k not in self._pools:
            self._pools[k] = self.gen.pool(random.Random("pool/%s/%s" % (self.seed, key)), n)
        return self._pools[k]

    def wrong(self, rec, allow=()):
        """None if the recorded outcome is the oracle's, else a description"""
        if rec["op"] is None:
            return {"class": "harness-visible failure", "got": rec["out"]}
        want = self.import_oracle() if rec["op"] == "import" else self.oracle(rec["op"])
        if rec["out"] == want:
            return None
        if rec["out"][0] == "exc" and rec["out"][1] in allow:
            return None
        cls = "hang" if rec["out"][1] in ("SimDeadlock", "SimLimit") else ("wrong exception" if rec["out"][0] == "exc" else "wrong result")
        return {"class": cls, "phase": rec["ph"], "thread": rec["t"], "index": rec["i"], "call": rec["op"], "expected": want, "got": rec["out"]}


def load_check(cid):
    return importlib.import_module("vsim.checks." + cid.lower()).CHECK


def run_seeds(ctx, check, seeds):
    out = {"stats": {}, "violations": [], "sigs": [], "samples": [], "n": 0, "errors": []}
    stats = collections.Counter()
    for s in seeds:
        rng = random.Random("%s/%s/%s" % (check.id, ctx.seed, s))
        case = check.gen(ctx, rng, s)
        case["seed"] = s
        res = check.execute(ctx, case)
        v = check.judge(ctx, case, res)
        check.measure(ctx, case, res, stats)
        out["n"] += 1
        sig = check.signature(ctx, case, res)
        if sig is not None:
            out["sigs"].append(hash64(sig))
        if len(out["samples"]) < 1:
            out["samples"].append(check.sample(case, res))
        if v:
            out["violations"].append({"case": check.freeze(case, res), "violations": v[:5]})
            break
    out["stats"] = dict(stats)
    return out


def same_class(vs, cls):
    return any(v["class"] == cls for v in vs)


def shrink(ctx, check, case, cls, budget_s):
    """greedy delta debugging over the check's own shrink steps"""
    end = time.monotonic() + budget_s
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in check.shrink(ctx, case):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                res = check.execute(ctx, cand)
                vs = check.judge(ctx, cand, res)
            except HarnessError:
                continue
            if same_class(vs, cls):
                case = check.freeze(cand, res)
                progress = True
                break
    return case, tried


def main():
    cfg = json.loads(sys.stdin.readline())
    ctx = Ctx(cfg)
    check = load_check(cfg["check"])
    snapshot.preload()
    check.setup(ctx)
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    for line in sys.stdin:
        m = json.loads(line)
        try:
            if m["cmd"] == "run":
                a = run_seeds(ctx, check, m["seeds"])
            elif m["cmd"] == "shrink":
                case, tried = shrink(ctx, check, m["case"], m["cls"], m["budget"])
                vs = check.judge(ctx, case, check.execute(ctx, case))
                a = {"case": case, "tried": tried, "violations": vs}
            elif m["cmd"] == "replay":
                res = check.execute(ctx, m["case"])
                a = {"violations": check.judge(ctx, m["case"], res), "result": res if m.get("full") else None}
            else:
                break
        except Exception as e:
            a = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
        out.write(json.dumps(a, ensure_ascii=False) + "\n")
        out.flush()
    check.teardown(ctx)


if __name__ == "__main__":
    main()
