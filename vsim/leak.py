"""One long-lived simulated process that makes calls and measures what stays behind."""
import ctypes
import gc
import os
import random
import resource
import sys
import threading

from . import lib_child
from .lib_child import SimTimeout, invoke, run_deep


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = Mallinfo2


def _open(fd):
    try:
        os.fstat(fd)
    except OSError:
        return False
    return True


def measure():
    gc.collect()
    gc.collect()
    m = _libc.mallinfo2()
    try:
        fds = len(os.listdir("/proc/self/fd"))
    except OSError:             # no handle left to look with
        fds = sum(_open(fd) for fd in range(resource.getrlimit(resource.RLIMIT_NOFILE)[0]))
    return [sys.getallocatedblocks(), m.uordblks + m.hblkhd, fds, threading.active_count()]


def note(sample, n):
    v = measure()
    sample[0] = n
    sample[1:] = v


def vary(gen, r, op, i):
    """the i-th relative of a call: never seen before"""
    f, t, l, s = op
    if not isinstance(t, str):
        return op
    x = i % 8
    if x in (0, 4):
        t = "%s q%d" % (t, i)
    elif x == 1:
        t = "z%dx %s" % (i, t)
    elif x in (2, 6):
        t = "%s %s" % (t, " ".join(gen.word(r, l if l in gen.vocab else "en") for _ in range(4)))
    elif x == 3:
        t = "%s/%d" % (t, i)
    elif x == 5:
        t = "%s Q\u00e9%s\u0438" % (t, "".join(chr(97 + int(c)) for c in str(i)))
    else:
        t = "%s w%sth %dth" % (t, "".join(chr(97 + int(c)) for c in str(i)), i)
    return [f, t, l, s]


def one(case, env, r, i):
    kind, op, gen = case["kind"], case["op"], env["gen"]
    if kind == "same":
        return op
    if kind == "rejected":
        return [op[0], op[1] if isinstance(op[1], str) else "two", "l%d" % i, op[3]]
    if kind == "failing":
        return [op[0], {"py": ["None", "5", "bytes", "list"][i % 4]}, op[2], op[3]]
    if kind == "mixed":
        return gen.op(r)
    return vary(gen, r, op, i)


def flood(case, env, r):
    """very many words, texts and languages in few and short calls"""
    f, t, l, s = case["op"]
    lang = l if l in env["gen"].vocab else "en"
    n = 0
    if case["kind"] in ("rejected", "mixed"):
        for i in range(20000):
            yield [f, "two", "m%d" % i, s]
    for i in range(150):
        words = []
        for j in range(300):
            n += 1
            x = "".join(chr(97 + int(c)) for c in str(n))
            words.append(("q%d", "z%dth", "%dx", "w\u00e9" + x, x + "th", x + "\u0438y", x, x + "-" + x)[j % 8].replace("%d", str(n)))
        for g in ("parse", f):
            yield [g, " ".join(words), l if i % 2 else lang, s]
    for i in range(20000):
        g = ("parse_number", "parse_ordinal", "parse", f)[i % 4]
        yield [g, ("%d", "v%d", "%d two", "two v%d")[(i >> 2) % 4] % i, l if i % 3 else lang, s]
    # entries of the size that the case's own texts make
    for i in range(5000 if not case.get("no memory") and isinstance(t, str) else 0):
        yield vary(env["gen"], r, case["op"], 10000000 + i)


def run(case, env):
    io = env["io"]
    if case["kind"] != "threads":       # threads run one at a time here, on the real locks
        lib_child.patch_locks(io)
    io.lib.simio_clock(1, 1_700_000_000_000_000_000, 1_000_000_000_000)
    io.lib.simio_rand(1, 1)
    sys.path.insert(0, env["repo"])
    st = env["simtrace"]
    r = random.Random(case["n"])
    kind = case["kind"]
    done = [0]
    stats = {"raised": 0, "calls": 0, "aborted": 0}
    import number_parser  # noqa: F401
    if kind == "io faults":
        sys.pycache_prefix = env["cold"]
        for rule in case["rules"]:
            io.rule(*rule)
    if kind == "aborted":
        def cb(k, tid, ev):
            stats["aborted"] += 1
            raise SimTimeout("timeout")
        st.setup(env["prefix"], cb, False)
        st.reset()
        lib_child.enable_opcode_events()

    def call(op):
        try:
            invoke(op)
        except Exception:
            stats["raised"] += 1

    def window(n):
        for _ in range(n):
            i = done[0]
            done[0] += 1
            op = one(case, env, r, i)
            if kind == "deep":
                o = run_deep(op, 4 + i % 30)[0]
                stats["raised"] += o[0] == "exc"
            elif kind == "aborted":
                st.next_event(st.events() + 1 + int(10 ** r.uniform(0, case["reach"])))
                st.start()
                call(op)
                st.stop()
            elif kind == "threads":
                th = threading.Thread(target=call, args=(op,))
                th.start()
                th.join()
            else:
                call(op)
            if case["tick"] and i % 97 == 0:
                io.lib.simio_clock_jump(10 ** 9 * 60, 10 ** 9 * 60)

    w = case["window"]
    start = measure()
    window(w // 2)
    base = measure()
    base[2:] = start[2:]
    samples = [[w, 0, 0, 0, 0] for _ in range(32)]       # made beforehand, so that taking notes is not measured
    k = 0
    for _ in range(2):
        window(w)
        note(samples[k], w)
        k += 1
    # growth that goes on, however slow, is followed until it stops or the history is long
    size = w
    while growing(samples[:k], base) and done[0] < case["most"]:
        size *= 2
        window(size)
        note(samples[k], size)
        k += 1
    if growing(samples[:k], base):
        # a bounded cache that these calls fill slowly is filled at once; what has no bound goes on growing
        if kind != "same":
            for op in flood(case, env, r):
                call(op)
        size = max(size // 2, 2 * w)
        window(size)
        note(samples[k], size)
        for _ in range(2):
            k += 1
            window(size)
            note(samples[k], size)
            if not growing(samples[:k + 1], base, True):
                break
        k += 1
    del samples[k:]
    stats["calls"] = done[0]
    verdict = growing(samples, base, True)
    if case.get("no memory"):
        verdict = [v for v in verdict if v != "memory"]
    return {"rec": [], "base": base, "samples": samples, "growing": verdict, "stats": stats}


def growing(samples, base, sure=False):
    """what grew in the last window; sure: by more than the allocator's own unrest"""
    prev = samples[-2] if len(samples) > 1 else [0] + base
    n, blocks, size, fds, threads = samples[-1]
    out = []
    if blocks - prev[1] > (max(64, 0.003 * n) if sure else max(8, 0.001 * n)):
        out.append("objects")
    if size - prev[2] > max(20000, 6 * n):
        out.append("memory")
    if fds > prev[3] and fds > base[2] + 2 or fds > base[2] + 100:
        out.append("file handles")
    if threads > prev[4] and threads > base[3] + 2 or threads > base[3] + 100:
        out.append("threads")
    return out
