"""G07: other processes read the generated files while the script runs."""
import os
import random

from .. import gen_engine as G
from ..gencheck import CrashSequence, describe


class G07(CrashSequence):
    id = "G07"
    quick_runs = 2600
    thorough_runs = 60000
    max_steps = 1
    rule = ("One run: a generation run (often after an earlier one), undisturbed or meeting faults as for G01, while other processes read the language files: before every file operation the script makes, every target is "
            "read whole, and seeded readers open targets and read them piece by piece across later operations; each must find the file (if it existed) and see its complete previous or "
            "complete new bytes. Non-trivial: always; distinct: by languages, previous files, faults and readers.")

    def gen(self, ctx, rng, seed):
        case = super().gen(ctx, rng, seed)
        if rng.random() < 0.6:
            case["steps"][-1]["plan"] = []
        case["readers"] = rng.getrandbits(32)
        return case

    def run_args(self, tree, w):
        R = self.readers = Readers(self.case["readers"], self.engine.top, [G.target(l) for l in G.languages_of(w)], tree)
        return {"observer": R.look}

    def execute(self, ctx, case):
        self.case = case
        return super().execute(ctx, case)

    def after_run(self, case, i, w, before, ref, r, after):
        self.readers.finish()
        self.reads = self.reads + len(self.readers.seen) if i else len(self.readers.seen)
        out = []
        for t, when, how, got in self.readers.seen:
            old = before[t][0] if t in before else None
            new = ref[1].get(t)
            if got != old and got != new:
                out.append({"class": "a reader finds no file" if got is None else "a reader sees an incomplete vocabulary", "file": t, "before operation": when, "reading": how,
                            "found": describe(got, old, new), "fired": r.fired})
        return out

    def measure(self, ctx, case, res, stats):
        super().measure(ctx, case, res, stats)
        stats["reads judged"] += self.reads

    def signature(self, ctx, case, res):
        return (case["world"]["langs"], case["world"]["listing"], [s["plan"] for s in case["steps"]], case["readers"])


class Readers:
    def __init__(self, seed, top, targets, tree):
        self.rng = random.Random("readers/%s" % seed)
        self.top, self.targets, self.tree = top, targets, tree
        self.seen = []
        self.last = {}
        self.open = []

    def note(self, t, when, how, got):
        if self.last.get((t, how)) != (got,):
            self.seen.append((t, when, how, got))
            self.last[(t, how)] = (got,)

    def look(self, disk, op, r1, r2):
        when = "%d %s %s" % (disk.n, G.NAME[op], r1)
        for t in self.targets:
            self.note(t, when, "whole", disk.contents(t))
        r = self.rng
        if r.random() < 0.25 and len(self.open) < 6:
            t = r.choice(self.targets)
            try:
                self.open.append([t, when, os.open(os.path.join(self.top, t), os.O_RDONLY), b""])
            except FileNotFoundError:
                self.note(t, when, "in pieces", None)
        for o in list(self.open):
            if r.random() < 0.3:
                self.piece(o, r.choice([1, 100, 1000, 8192]))

    def piece(self, o, n):
        b = os.read(o[2], n)
        if b:
            o[3] += b
        else:
            os.close(o[2])
            self.open.remove(o)
            self.note(o[0], o[1], "in pieces", o[3])

    def finish(self):
        while self.open:
            self.piece(self.open[0], 1 << 20)


CHECK = G07()
