"""C11: after one use of everything, the disk may do what it likes."""
import os
import shutil
import subprocess
import sys

from .. import files
from ..base import LibCheck, read_fault
from ..textgen import FUNCS, SUPPORTED


# what an interpreter that has loaded the package anyway has in memory
ORDINARY = "re, unicodedata, pkgutil, importlib.util, functools, collections.abc, itertools, operator, typing, contextlib, types, enum, weakref, abc, os.path, warnings, threading, traceback"


class C11(LibCheck):
    id = "C11"
    quick_runs = 2400
    thorough_runs = 60000
    batch = 25
    real = LibCheck.real + ", on a scratch copy of the installed package"
    rule = ("One run: a process uses every function with every language once; then the files of the package change under it (another version, other numbers, deleted, "
            "cut off, emptied, garbage; one file, all data, the whole package) and/or every read, open, stat or directory listing of it, of the interpreter's library or of the whole disk fails, with clock jumps and "
            "garbage collections, while calls over all vocabularies, functions and detection go on; each must have its normal outcome. Non-trivial: always; distinct: by "
            "warm-up order, change and calls.")
    stub = "the file system's answers (errors injected at libc calls), clocks and randomness"

    def setup(self, ctx):
        # modules of the standard library that only the simulator needs are not in memory during a run
        o = subprocess.run([sys.executable, "-c", "import %s, sys; print(' '.join(sys.modules))" % ORDINARY], stdout=subprocess.PIPE, text=True, env={})
        self.keep = sorted(set(o.stdout.split()) | {"vsim", "simtrace", "__mp_main__"})

    def gen(self, ctx, rng, seed):
        pool = ctx.pool("c11/%d" % (seed // 4000), 300)
        warm = []
        for l in SUPPORTED:
            v = ctx.gen.vocab[l]
            for f in FUNCS:
                w = rng.choice(v["ALL"])
                warm.append([f, w + (" / " + w if f == "parse_fraction" and rng.random() < 0.5 else ""), l, rng.randrange(2)])
        if rng.random() < 0.3:
            warm += [[f, rng.choice(ctx.gen.vocab[rng.choice(SUPPORTED)]["ALL"]), None, 0] for f in FUNCS]
        rng.shuffle(warm)
        steps = []
        x = rng.random()
        rules = []
        if x < 0.65:
            steps.append(self.change(rng))
            if rng.random() < 0.2:
                steps.append(self.change(rng))
        if x > 0.4:
            for _ in range(rng.choice([1, 2])):
                sub = rng.choice(["/number_parser/", "/number_parser/data/", "/number_parser/parser.py", "/number_parser/data/%s.py" % rng.choice(SUPPORTED), "/lib/python3", "/"])
                steps.append({"do": "rule", "args": read_fault(rng, sub, -1, True)})
        ops = self.ops_near(rng, pool, 10) + rng.sample(ctx.battery, min(len(ctx.battery), 18))
        rng.shuffle(ops)
        if rng.random() < 0.3:
            j = rng.randrange(len(ops))
            w = 10 ** rng.uniform(0, 9)
            ops.insert(j, {"do": "clock", "wall": w, "mono": w})
        if rng.random() < 0.3:
            ops.insert(rng.randrange(len(ops)), {"do": "gc"})
        if rng.random() < 0.2:
            ops.insert(rng.randrange(len(ops)), self.change(rng))
        return {"source": rng.random() < 0.9, "setup": warm, "threads": [steps + ops], "after": []}

    def change(self, rng):
        x = rng.random()
        if x < 0.1:
            return {"do": "files", "what": "remove package"}
        if x < 0.2:
            return {"do": "files", "what": "remove data"}
        k = rng.choice([1, 2, 5])
        names = ["data/%s.py" % l for l in rng.sample(SUPPORTED, k)]
        if rng.random() < 0.2:
            names += ["parser.py", "__init__.py", "VERSION"]
        return {"do": "files", "what": rng.choice(["delete", "truncate", "other version", "other version", "other version", "empty", "garbage", "emptied vocabulary", "emptied vocabulary"]),
                "part": rng.randint(1, 99), "names": names}

    def execute(self, ctx, case):
        d = os.path.join(ctx.scratch, "copy")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        base = os.path.join(ctx.scratch, "pristine")
        if not os.path.exists(base):
            files.copy_package(ctx.repo, base)
            for n in os.listdir(os.path.join(base, "number_parser", "data")):
                if n[:-3] not in SUPPORTED and n != "__init__.py":
                    p = os.path.join(base, "number_parser", "data", n)
                    if os.path.isfile(p):
                        os.unlink(p)
        shutil.copytree(os.path.join(base, "number_parser"), os.path.join(d, "number_parser"))
        try:
            return ctx.run(dict(case, keep=self.keep), repo=d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        for s in case["threads"][0]:
            if isinstance(s, dict) and s["do"] == "files":
                stats["fault:" + s["what"]] += 1
            elif isinstance(s, dict) and s["do"] == "rule":
                stats["fault:reads fail (armed)"] += 1

    def signature(self, ctx, case, res):
        return (case["setup"], case["threads"])


CHECK = C11()
