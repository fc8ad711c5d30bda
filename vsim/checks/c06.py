"""C06: real interpreter processes in generated environments."""
import ast
import json
import os
import resource
import select
import shutil
import subprocess
import sys
import time

from .. import build, files
from ..base import LibCheck, _drop_chunks, _with

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ZONES = ["UTC", "America/St_Johns", "Asia/Kathmandu", "Pacific/Kiritimati", "XYZ-13:37", ":bogus", ""]
DIRS = ["plain", "with space", "ünï-кодé", "a'b\"c", "deep/er/and/deeper", "number_parser", "data", "9 lives %s"]
HOSTS = ["thread", "small stack", "exit handler", "task", "executor", "signal handler", "finalizer", "forked", "handling", "traced", "executed"]


def limit(limits):
    """in the new process: the machine it finds itself on"""
    if "cpus" in limits:
        os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:limits["cpus"]])
    if "files" in limits:
        top = max([int(n) for n in os.listdir("/proc/self/fd")])
        resource.setrlimit(resource.RLIMIT_NOFILE, (top + limits["files"], top + limits["files"]))
    if "stack" in limits:
        resource.setrlimit(resource.RLIMIT_STACK, (limits["stack"], resource.getrlimit(resource.RLIMIT_STACK)[1]))


class C06(LibCheck):
    id = "C06"
    quick_runs = 1100
    thorough_runs = 60000
    batch = 10
    locales = True
    real = LibCheck.real + ", the interpreter's start-up (a new interpreter process per run)"
    rule = ("One run: a new interpreter started in a generated environment - hash seed, locale, default text encoding (also ones not installed here), UTF-8 mode, time zone, "
            "clock, randomness, host name, number of processors, limits on handles and stack, working directory (also a deleted one), environment variables, optimisation, warning, bytecode and development options, installation "
            "directory (copied, symlinked, odd names), process-wide settings an application makes - which makes 20-40 calls, detection ties among them, in a "
            "shuffled order, in its main code, a thread, a task, an exit or signal handler, a finalizer, a forked child, under a tracer; each outcome is compared with the same call alone in a fresh process of the reference environment. Non-trivial: always; distinct: by environment and calls.")
    stub = "clocks, randomness and the locale's character set (virtual, at libc calls)"
    assumptions = ["one interpreter version (the installed CPython) and one operating system"]

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c06/%d" % (seed // 4000), 240)
        ops = rng.sample(pool, 14) + rng.sample(ctx.battery, min(len(ctx.battery), 10))
        ties = [o for o in pool if o[2] is None]
        ops += [rng.choice(ties) for _ in range(4)] if ties else []
        if rng.random() < 0.5:
            ops.append(ctx.gen.long_op(rng))
            ops.append([rng.choice(["parse", "parse_ordinal", "parse_number"]), ctx.gen.long_tie(rng), None, 0])
        if rng.random() < 0.15:
            ops += ctx.battery
        rng.shuffle(ops)
        env = {}
        if rng.random() < 0.9:
            env["PYTHONHASHSEED"] = str(rng.choice([0, 1, rng.randrange(4294967295)]))
        else:
            env["PYTHONHASHSEED"] = "4294967295"
        x = rng.random()
        if x < 0.35:
            env[rng.choice(["LC_ALL", "LC_ALL", "LANG", "LC_CTYPE"])] = rng.choice(["C", "POSIX", "C.UTF-8", "C.utf8", "fr_FR.utf8", "fr_FR", "xx_XX", "ru", "es_MX", "hi_IN"])
        elif x < 0.8:            # one of the locales compiled for the check
            env["LOCPATH"] = "@@/locales"
            for k in rng.choice([["LC_ALL"], ["LC_ALL"], ["LANG"], ["LC_CTYPE"], ["LANG", "LC_CTYPE"], ["LANG", "LC_COLLATE", "LC_NUMERIC"]]):
                env[k] = rng.choice(build.LOCALES)
        if rng.random() < 0.5:
            env["PYTHONUTF8"] = rng.choice(["0", "0", "1"])
        if rng.random() < 0.4:
            env["PYTHONCOERCECLOCALE"] = "0"
        if rng.random() < 0.5:
            env["SIM_CODESET"] = rng.choice(["ANSI_X3.4-1968", "ISO-8859-1", "ISO-8859-15", "CP1252", "KOI8-R", "EUC-JP", "UTF-8"])
            if rng.random() < 0.8:
                env["PYTHONUTF8"] = "0"
                if "LOCPATH" not in env:
                    env.setdefault("LC_ALL", "fr_FR.utf8")
        if rng.random() < 0.6:
            env["TZ"] = rng.choice(ZONES)
        if rng.random() < 0.7:
            env["SIM_CLOCK"] = str(rng.choice([0, 1, 951782400, 2147483647, 4102444800, 1582934400, rng.randrange(2 * 10**9), 32503680000]))
        env["SIM_RAND"] = str(rng.getrandbits(32))
        for k, vs in (("LANGUAGE", ["fr", "en_US:es", "hi", "es", "ru", "uk:ru", "en"]), ("LC_MESSAGES", ["es_ES.UTF-8", "hi_IN", "ru_RU"]), ("USER", ["es"]), ("HOME", ["/nonexistent", "/"]), ("DEBUG", ["1"]), ("COLUMNS", ["1"]), ("PYTHONINTMAXSTRDIGITS", ["0"]),
                      ("PYTHONOPTIMIZE", ["1", "2"]), ("PYTHONWARNINGS", ["error", "ignore", "default"]), ("PYTHONDONTWRITEBYTECODE", ["1"]),
                      ("PYTHONPYCACHEPREFIX", ["@/pycache"]), ("LC_NUMERIC", ["fr_FR.utf8"]), ("PYTHONMALLOC", ["debug", "malloc"]), ("NO_COLOR", ["1"]), ("PATH", [""])):
            if rng.random() < 0.12:
                env[k] = rng.choice(vs)
        if rng.random() < 0.5:
            env["SIM_HOST"] = rng.choice(["a", "build-7.example.org", "localhost", "es", "0", "x" * 63])
        if rng.random() < 0.4:
            env["SIM_CPUS"] = rng.choice(["1", "1", "2", "3", "256"])
        limits = {}
        if rng.random() < 0.25:
            limits["cpus"] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.15:
            limits["files"] = rng.choice([12, 16, 40])
        if rng.random() < 0.1:
            limits["stack"] = rng.choice([512, 1 << 14]) * 1024
        flags = []
        for f, p in ((["-O"], 0.15), (["-OO"], 0.1), (["-B"], 0.5), (["-W", "error"], 0.2), (["-W", "ignore"], 0.05), (["-X", "dev"], 0.06), (["-bb"], 0.15),
                     (["-X", "frozen_modules=off"], 0.05), (["-X", "utf8=1"], 0.05), (["-s"], 0.3), (["-S"], 0.1), (["-u"], 0.1), (["-X", "warn_default_encoding", "-W", "error"], 0.08), (["-v"], 0.01)):
            if rng.random() < p:
                flags += f
        pre = [p for p in ("setlocale", "setlocale", "setlocale fr", "decimal", "random", "warnings", "gc off", "gc often", "chdir gone", "logging", "umask") if rng.random() < 0.09]
        where = None if rng.random() < 0.6 else [rng.choice(["copy", "symlink", "symlinked package"]), rng.choice(DIRS)]
        cwd = rng.choice(["/", "scratch", "decoys", "package", "repo"])
        host = "main" if rng.random() < 0.45 else rng.choice(HOSTS)
        return {"ops": ops, "env": env, "flags": flags, "pre": pre, "host": host, "where": where, "cwd": cwd, "limits": limits, "n": rng.getrandbits(20)}

    def execute(self, ctx, case):
        d = os.path.join(ctx.scratch, "env")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            return self.start(ctx, case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def start(self, ctx, case, d):
        path = ctx.repo
        if case["where"]:
            how, name = case["where"]
            path = os.path.join(d, name)
            if how == "copy":
                os.makedirs(path)
                files.copy_package(ctx.repo, path)
            elif how == "symlink":
                os.makedirs(os.path.dirname(path), exist_ok=True)
                os.symlink(ctx.repo, path)
            else:
                os.makedirs(path)
                os.symlink(os.path.join(ctx.repo, "number_parser"), os.path.join(path, "number_parser"))
        cwd = {"/": "/", "scratch": d, "repo": ctx.repo, "package": os.path.join(ctx.repo, "number_parser", "data")}.get(case["cwd"])
        if cwd is None:
            cwd = os.path.join(d, "decoys")
            os.makedirs(os.path.join(cwd, "data"))
            for n in ("VERSION", "en.py", "parser.py", "data/en.py", "data.py", "number_parser.py", "regex.py"):
                with open(os.path.join(cwd, n), "w") as f:
                    f.write("raise SystemExit('decoy')\n")
        env = {"LD_PRELOAD": os.path.join(ctx.native, "simio.so")}
        env.update({k: v.replace("@@", ctx.native).replace("@", d) for k, v in case["env"].items()})
        # nothing is ever written next to the code under test
        env.setdefault("PYTHONPYCACHEPREFIX", os.path.join(d, "cache") if case["n"] % 5 < 2 else os.path.join(os.path.dirname(ctx.scratch), "pyc"))
        msg = os.path.join(d, "msg")
        r, w = os.pipe()
        with open(msg, "w", encoding="utf-8") as f:
            json.dump({"ops": case["ops"], "pre": case["pre"], "path": path.encode().hex(), "fd": w, "host": case["host"], "n": case["n"], "scratch": d}, f)
        m = os.open(msg, os.O_RDONLY)
        with open(os.path.join(d, "stderr"), "wb") as err:
            p = subprocess.Popen([sys.executable] + case["flags"] + [os.path.join(HERE, "envrun.py"), str(m)], env=env, cwd=cwd, pass_fds=(m, w), preexec_fn=lambda: limit(case.get("limits", {})),
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
        os.close(w)
        os.close(m)
        data, hang, end = b"", False, time.monotonic() + 90
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                hang = True
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        if hang:
            p.kill()
        st = p.wait()
        if hang:
            return {"hang": True, "rec": []}
        if not data:
            with open(os.path.join(d, "stderr"), errors="replace") as f:
                return {"failed": "exit status %s: %s" % (st, f.read()[-600:].replace(d, "<scratch>")), "rec": []}
        outs = json.loads(data)
        rec = [{"ph": "run", "t": 0, "i": 0, "op": "import", "out": self.plain(outs[0], True)}]
        for i, (op, o) in enumerate(zip(case["ops"], outs[1:])):
            rec.append({"ph": "run", "t": 0, "i": i + 1, "op": op, "out": self.plain(o)})
        return {"rec": rec, "n": len(outs)}

    def plain(self, o, imp=False):
        if o[0] == "exc":
            return ["exc", o[1], ast.literal_eval(o[2])[:500]]
        if imp:
            return ["ok", "module", repr(ast.literal_eval(o[2])[0])]
        return ["ok", o[1], repr(ast.literal_eval(o[2]))]

    def measure(self, ctx, case, res, stats):
        stats["calls judged"] += len(res["rec"])
        e = case["env"]
        for k, n in (("PYTHONHASHSEED", "hash seed"), ("SIM_CODESET", "default text encoding"), ("TZ", "time zone"), ("SIM_CLOCK", "clock"), ("SIM_RAND", "randomness")):
            stats["fault:" + n] += k in e
        stats["fault:locale"] += any(k in e for k in ("LC_ALL", "LANG", "LC_CTYPE"))
        stats["fault:interpreter options"] += bool(case["flags"])
        stats["fault:working directory"] += case["cwd"] != "repo"
        stats["fault:installation directory"] += bool(case["where"])
        stats["fault:host name"] += "SIM_HOST" in e
        stats["fault:machine limits"] += bool(case.get("limits")) or "SIM_CPUS" in e
        stats["fault:place of the calls"] += case["host"] != "main"
        stats["fault:application settings"] += bool(case["pre"])

    def signature(self, ctx, case, res):
        return (case["env"], case.get("limits"), case["flags"], case["pre"], case["host"], case["where"], case["cwd"], case["ops"])

    def shrink(self, ctx, case):
        for k in ("ops", "pre"):
            for smaller in _drop_chunks(case[k]):
                if len(smaller) < len(case[k]):
                    yield _with(case, [k], smaller)
        if case.get("limits"):
            yield _with(case, ["limits"], {})
        if case["flags"]:
            yield _with(case, ["flags"], [])
        if case["where"]:
            yield _with(case, ["where"], None)
        if case["host"] != "main":
            yield _with(case, ["host"], "main")
        if case["cwd"] != "/":
            yield _with(case, ["cwd"], "/")
        for k in case["env"]:
            if k != "SIM_RAND" or len(case["env"]) == 1:
                e = dict(case["env"])
                e.pop(k)
                yield _with(case, ["env"], e)


CHECK = C06()
