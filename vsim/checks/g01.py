"""G01: the generation script is killed, loses power or fails at any operation."""
from .. import gen_engine as G
from ..gencheck import CrashSequence, describe


class G01(CrashSequence):
    id = "G01"
    quick_runs = 2800
    thorough_runs = 60000
    rule = ("One run: one to three generation runs over a scratch repository of 1-6 languages (contents edited, targets shipped, stale, longer, missing, empty or damaged), inputs edited between them, temporary directory on the same or another device, each "
            "killed before, inside or after a chosen file operation, with or without loss of unsynced data, or meeting I/O errors, a full disk, cut-off inputs or signals; after "
            "each, every target is compared with its bytes before the run and with those of an undisturbed run on the same inputs. Non-trivial: a fault fired; distinct: by operations hit, languages, power.")

    def after_run(self, case, i, w, before, ref, r, after):
        out = []
        for l in G.languages_of(w):
            t = G.target(l)
            old = before[t][0] if t in before else None
            now = after[t][0] if t in after else None
            new = ref[1].get(t)
            if now != old and now != new:
                kind = "missing" if now is None else "empty" if not now else "incomplete or mixed"
                out.append({"class": "language file left " + kind, "file": t, "step": i, "found": describe(now, old, new), "status": r.status, "fired": r.fired})
        return out


CHECK = G01()
