"""Runs one simulated case of the library.  Executed in a forked child that has never
imported number_parser; everything that happens in it is decided by the case.

Outcome of a call: ["ok", type, repr] or ["exc", type, message].
"""
import _thread
import ctypes
import gc
import os
import random
import signal
import sys
import threading
import time

RAW_LOCK = _thread.allocate_lock
RAW_START = _thread.start_new_thread
get_ident = _thread.get_ident

DEFAULT_LIMIT = 40_000_000      # instructions per case; beyond it a call counts as never finishing


class SimDeadlock(BaseException):
    """A call waits for something that can never happen."""


class SimLimit(BaseException):
    """A call does not finish within the step bound."""


class SimTimeout(Exception):
    """What a timeout library or alarm handler raises into the running call."""


class SimKill(BaseException):
    """What a thread-killing facility raises into the running call."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError,
       "SimTimeout": SimTimeout, "SimKill": SimKill}
FATAL = ("KeyboardInterrupt", "SystemExit", "SimKill")


# ------------------------------------------------------------------ OS seam
class IO:
    def __init__(self, path):
        self.lib = ctypes.CDLL(path) if path else None
        if self.lib:
            L = self.lib
            L.simio_rule.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_long]
            L.simio_fired.restype = ctypes.c_long
            L.simio_log_get.restype = ctypes.c_long
            L.simio_log_get.argtypes = [ctypes.c_char_p, ctypes.c_long]
            L.simio_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
            L.simio_clock_events.argtypes = [ctypes.c_void_p]
            L.simio_clock_jump.argtypes = [ctypes.c_int64, ctypes.c_int64]
            L.simio_rand.argtypes = [ctypes.c_int, ctypes.c_uint64]
            L.simio_ops.restype = ctypes.c_ulong
            L.simio_clock_reads.restype = ctypes.c_ulong
            L.simio_rand_reads.restype = ctypes.c_ulong
        self.nrules = 0

    def rule(self, mask, sub, skip, count, act, arg):
        self.nrules += 1
        return self.lib.simio_rule(mask, sub.encode(), skip, count, act, arg)

    def clear(self):
        self.nrules = 0
        self.lib.simio_rules_clear()

    def fired(self):
        return sum(self.lib.simio_fired(i) for i in range(self.nrules))

    def fired_each(self):
        return [self.lib.simio_fired(i) for i in range(self.nrules)]

    def log_text(self):
        buf = ctypes.create_string_buffer(1 << 20)
        n = self.lib.simio_log_get(buf, 1 << 20)
        return buf.raw[:n].decode("utf-8", "replace")


# ------------------------------------------------------------------ locks the scheduler owns
class Sched:
    cur = None

    def __init__(self, n, st):
        self.n = n
        self.st = st
        self.gate = [RAW_LOCK() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.done = RAW_LOCK()
        self.done.acquire()
        self.state = ["ready"] * n
        self.waits = [None] * n
        self.running = 0
        self.poison = [None] * n
        self.deadlocked = False
        self.tid_of = {}
        self.nsync = 0              # uses of locks so far
        self.sync = []              # switches made at them: [use, to]
        self.sync_plan = {}
        self.sync_p = 0
        self.sync_rng = None

    def ready(self, me=None):
        return [t for t in range(self.n) if self.state[t] == "ready" and t != me]

    def switch(self, me, to):
        self.running = to
        self.gate[to].release()
        self.gate[me].acquire()
        p = self.poison[me]
        if p is not None:
            self.poison[me] = None
            raise p

    def me(self):
        return self.tid_of.get(get_ident())

    def block(self, lock):
        me = self.me()
        self.state[me] = "blocked"
        self.waits[me] = lock
        nxt = self.ready()
        if not nxt:
            self.state[me] = "ready"
            self.waits[me] = None
            self.deadlocked = True
            raise SimDeadlock("every thread is waiting")
        self.switch(me, min(nxt, key=lambda t: (t - me) % self.n))

    def synced(self):
        """a lock was taken or given back: a good moment for another thread to run"""
        me = self.me()
        if me is None or self.running != me:
            return
        self.nsync += 1
        if self.sync_p:
            if len(self.sync) > 400 or self.sync_rng.random() >= self.sync_p:
                return
            others = self.ready(me)
            if not others:
                return
            to = min(others, key=lambda t: (t - me) % self.n)
            self.sync.append([self.nsync, to])
            self.switch(me, to)
        elif self.nsync in self.sync_plan:
            to = self.sync_plan[self.nsync]
            if to != me and to < self.n and self.state[to] == "ready":
                self.switch(me, to)

    def woken(self, lock):
        for t in range(self.n):
            if self.state[t] == "blocked" and self.waits[t] is lock:
                self.state[t] = "ready"
                self.waits[t] = None

    def finish(self, me):
        self.state[me] = "done"
        nxt = self.ready()
        if not nxt:
            blocked = [t for t in range(self.n) if self.state[t] == "blocked"]
            if not blocked:
                self.done.release()
                return
            self.deadlocked = True
            t = blocked[0]
            self.state[t] = "ready"
            self.waits[t] = None
            self.poison[t] = SimDeadlock("nobody can wake this thread")
            nxt = [t]
        t = min(nxt, key=lambda t: (t - me) % self.n)
        self.running = t
        self.gate[t].release()


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False            # simulated time passes, the lock is still held
            s = Sched.cur
            if s is None or s.me() is None:
                raise SimDeadlock("waiting for a lock nobody will release")
            s.block(self)
        self._owner = me
        self._count = 1
        if Sched.cur is not None:
            Sched.cur.synced()
        return True

    __enter__ = acquire
    acquire_lock = acquire

    def release(self):
        if self._owner is None or (self._reentrant and self._owner != get_ident()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
            s = Sched.cur
            if s is not None:
                s.woken(self)
                s.synced()

    release_lock = release

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    locked_lock = locked

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count = 1
        self.release()
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count = s[0]

    def _recursion_count(self):
        return self._count if self._owner == get_ident() else 0


def sim_sleep(secs):
    """simulated time passes and another thread runs"""
    io = SIM["io"]
    ns = int(max(0, secs) * 1e9)
    io.lib.simio_clock_jump(ns, ns)
    s = Sched.cur
    me = s.me() if s else None
    if me is not None:
        others = s.ready(me)
        if others:
            s.switch(me, min(others, key=lambda t: (t - me) % s.n))


SIM = {}


def patch_locks(io):
    SIM["io"] = io
    time.sleep = sim_sleep
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.LockType_real = _thread.LockType
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._allocate_lock = SimLock


# ------------------------------------------------------------------ calls
OPNAMES = {3: "write", 4: "fsync", 5: "rename", 6: "unlink", 7: "mkdir", 8: "rmdir", 9: "truncate", 10: "ftruncate", 11: "link", 12: "symlink", 13: "chmod",
           17: "utime", 18: "socket", 19: "spawn", 20: "copy", 21: "open for writing", 22: "chown"}
LOGGED = sum(1 << k for k in OPNAMES)
NOT_TEXT = {"None": None, "5": 5, "bytes": b"two", "list": ["two"]}


def fresh_text(t):
    if isinstance(t, dict):
        v = NOT_TEXT[t["py"]]
        return list(v) if isinstance(v, list) else bytes(bytearray(v)) if isinstance(v, bytes) else v
    return "".join([c for c in t])      # a new object every time


def invoke(op):
    import number_parser as np

    f, text, lang, style = op
    fn = getattr(np, f)
    if style:
        r = fn(fresh_text(text), language=lang)
    else:
        r = fn(fresh_text(text), lang)
    return ["ok", type(r).__name__, repr(r)]


def flush():
    for _ in range(4):
        pass


def exc_outcome(e):
    try:
        msg = str(e)
    except Exception:
        msg = "?"
    return ["exc", type(e).__name__, msg[:500]]


def run_call(op):
    return guarded(invoke, op)


def import_package(_):
    import number_parser
    return ["ok", "module", repr(getattr(number_parser, "__version__", None))]


def guarded(fn, arg):
    """-> (outcome, late) where late is the type of an injected exception that only
    arrived after the call had ended."""
    res = err = late = None
    try:
        try:
            res = fn(arg)
        except BaseException as e:
            err = e
        flush()
    except BaseException as e:
        late = e
    for _ in range(2):
        try:
            flush()
        except BaseException as e:
            late = e
    if res is None and err is None:       # the call's own exception was being caught when the late one arrived
        err, late = (late.__context__, late) if late.__context__ is not None else (late, None)
    out = res if res is not None else exc_outcome(err)
    return out, type(late).__name__ if late is not None else None


def depth():
    f = sys._getframe()
    n = 0
    while f:
        n += 1
        f = f.f_back
    return n


def run_deep(op, room):
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(depth() + room)
        try:
            return run_call(op)
        except RecursionError as e:
            return ["exc", "RecursionError", ""], None
    finally:
        sys.setrecursionlimit(old)


def bulk_ops(gen, s):
    """many calls, generated where they run; few outcomes are recorded"""
    r = random.Random(s["seed"])
    kind = s["kind"]
    langs = sorted(gen.vocab)
    op = gen.op(r)
    for i in range(s["n"]):
        if kind == "cheap":
            yield ["parse_number", "x%d" % (i % 50000), "en", 0] if i % 2 else ["parse_number", gen.vocab["en"]["ALL"][i % 30] + " %d" % i, "en", 0]
        elif kind == "distinct":
            l = r.choice(langs)
            yield [r.choice(FUNCS), "%s w%d %s" % (gen.word(r, l), i, gen.word(r, l)), l, 0]
        elif kind == "detect":
            yield [r.choice(FUNCS), "%s v%d" % (gen.word(r, r.choice(langs)), i), None, 0]
        elif kind == "flood":
            k = 600 if i % 2 else 150       # every token is new; parse_number looks at all of them before it rejects the text
            yield ["parse_number" if i % 2 else "parse", " ".join("%x" % ((s["seed"] + i * 600 + j) % (1 << 24)) + "q" for j in range(k)), r.choice(langs), 0]
        elif kind == "rejected":
            yield [r.choice(FUNCS), gen.word(r, "en"), "x%d" % i, 0]
        elif kind == "failing":
            yield [r.choice(FUNCS), {"py": r.choice(sorted(NOT_TEXT))}, r.choice(langs), 0]
        elif kind == "longdetect":
            l = r.choice(langs)
            yield ["parse", " ".join(gen.word(r, l) for _ in range(r.choice([35, 60, 120]))) + " %d" % i, None, 0]
        elif kind == "long":
            l = r.choice(langs)
            yield ["parse", " ".join(gen.word(r, l) for _ in range(40)) + " %d" % i, l, 0]
        else:
            yield op


def bulk(gen, s):
    """-> outcomes to judge: a few calls here and there, and the first ones with unusual exceptions"""
    out, odd = [], 0
    r = random.Random("bulk/%s" % s["seed"])
    every = max(s["n"] // 3, 20)
    some = r.randrange(every)
    for i, op in enumerate(bulk_ops(gen, s)):
        try:
            v = invoke(op)
        except Exception as e:
            v = exc_outcome(e)
            if type(e).__name__ not in USUAL and odd < 3:
                odd += 1
                out.append((i, op, v))
                continue
        if i % every == some:
            out.append((i, op, v))
    return out


USUAL = {"ValueError", "TypeError", "AttributeError"}


FUNCS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]


# ------------------------------------------------------------------ a case
class Run:
    def __init__(self, case, env):
        self.case = case
        self.env = env                     # repo, io, simtrace
        self.io = env["io"]
        self.rec = []                      # outcome records
        self.switches = []
        self.fired = []                    # injections that happened
        self.nested = 0
        self.stopped = False

    # ---- steps
    def step(self, ph, t, i, s):
        if isinstance(s, list):
            f0 = self.io.fired() if self.io.nrules else 0
            out, late = run_call(s)
            f1 = self.io.fired() if self.io.nrules else 0
            r = {"ph": ph, "t": t, "i": i, "op": s, "out": out}
            if late:
                r["late"] = late
            if f1 != f0:
                r["faults"] = f1 - f0
            self.rec.append(r)
            return
        do = s["do"]
        if do == "gc":
            gc.collect()
        elif do == "clock":
            self.io.lib.simio_clock_jump(int(s["wall"] * 1e9), int(s["mono"] * 1e9))
        elif do == "bulk":
            for k, op, v in bulk(self.env["gen"], s):
                self.rec.append({"ph": ph, "t": t, "i": [i, k], "op": op, "out": v})
        elif do == "rule":
            self.io.rule(*s["args"])
        elif do == "clear":
            self.fired += [["rule", k] for k in self.io.fired_each()]
            self.io.clear()
        elif do == "deep":
            out, late = run_deep(s["op"], s["room"])
            self.rec.append({"ph": ph, "t": t, "i": i, "op": s["op"], "out": out, "inj": ["RecursionError"]})
        elif do == "import":
            f0 = self.io.fired() if self.io.nrules else 0
            out, late = guarded(import_package, None)
            f1 = self.io.fired() if self.io.nrules else 0
            self.rec.append({"ph": ph, "t": t, "i": i, "op": "import", "out": out})
            if late:
                self.rec[-1]["late"] = late
            if f1 != f0:
                self.rec[-1]["faults"] = f1 - f0
        elif do == "perturb":
            self.perturb(s)
        elif do == "snap":
            self.snap(ph, t, i)
        elif do == "fork":
            self.fork(ph, t, i, s)
        elif do == "files":
            self.io.lib.simio_busy(1)
            try:
                self.env["files"](s)
            finally:
                self.io.lib.simio_busy(0)
        else:
            raise ValueError(do)

    # ---- process-wide state
    def perturb(self, s):
        from vsim import snapshot
        snapshot.tripwires()
        snapshot.perturb(random.Random(s["seed"]))
        if s["streams"] == "closed":
            sys.stdout.close()
            sys.stderr.close()
        elif s["streams"] == "none":
            sys.stdout = sys.stderr = None
        elif s["streams"] == "fds closed":
            for fd in (0, 1, 2):
                try:
                    os.close(fd)
                except OSError:
                    pass
        elif s["streams"] == "ascii":
            import io
            sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
            sys.stderr = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
        sys.dont_write_bytecode = not s["bytecode"]
        self.events_seen = []
        sys.addaudithook(self.audit)

    AUDITED = ("socket.", "subprocess.", "os.system", "os.fork", "os.exec", "os.posix_spawn", "os.spawn", "urllib.", "http.client", "ftplib.", "smtplib.", "syslog.",
               "os.putenv", "os.unsetenv", "signal.pthread_kill", "os.kill", "resource.setrlimit")

    def audit(self, event, args):
        if event.startswith(self.AUDITED) and self.watching:
            self.events_seen.append(event)

    watching = False

    def snap(self, ph, t, i):
        import warnings
        from vsim import snapshot
        if not self.watching:
            self.warned = []
            warnings.showwarning = lambda *a, **k: self.warned.append(str(a[0]))
            warnings._showwarnmsg_impl = lambda m: self.warned.append(str(m.message))
            self.before = snapshot.take()
            self.io.lib.simio_log(LOGGED)
            self.watching = True
            return
        for f in (sys.stdout, sys.stderr):
            try:
                if f is not None and not f.closed:
                    f.flush()
            except OSError:
                pass
        log = [l.split("\t") for l in self.io.log_text().splitlines()]
        self.io.lib.simio_log(0)
        out = snapshot.diff(self.before, snapshot.take())
        threads = len(self.case["threads"]) if len(self.case["threads"]) > 1 and not self.snapped else 0
        self.snapped = True
        for l in log:
            op, arg, p, p2 = int(l[0]), l[1], l[2], l[3]
            if ".pyc" in p or "__pycache__" in p or (op == 7 and self.mkdir_of_cache(p)):
                continue
            if op == 19 and p == "<thread>" and threads:
                threads -= 1
                continue
            out.append("system call: %s %s %s" % (OPNAMES.get(op, op), p, p2))
        for f in (sys.stdout, sys.stderr):
            try:
                if f is not None and hasattr(f, "buffer") and f.buffer.getvalue():
                    out.append("printed: %r" % f.buffer.getvalue()[:100])
            except (AttributeError, ValueError):
                pass
        out += ["audit event: " + e for e in self.events_seen]
        out += ["warning: " + w for w in self.warned]
        self.events_seen.clear()
        self.warned.clear()
        self.rec.append({"ph": ph, "t": t, "i": i, "op": "snap", "out": out[:10]})
        self.before = snapshot.take()
        self.io.lib.simio_log(LOGGED)

    snapped = False
    sync = ()

    def mkdir_of_cache(self, p):
        return sys.pycache_prefix is not None and (p.startswith(sys.pycache_prefix) or sys.pycache_prefix.startswith(p))

    def importing(self):
        out = []
        for n, m in list(sys.modules.items()):
            if n.startswith("number_parser") and getattr(getattr(m, "__spec__", None), "_initializing", False):
                out.append(n)
        return out

    def fork(self, ph, t, i, s):
        busy = self.importing()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                Sched.cur = None
                if self.env.get("simtrace"):
                    self.env["simtrace"].stop()
                    self.env["simtrace"].reset()
                outs = []
                langs = {n.rsplit(".", 1)[1] for n in busy if n.startswith("number_parser.data.")}
                whole = any(not n.startswith("number_parser.data.") for n in busy)
                for op in s["ops"]:
                    if whole or (langs and (op[2] is None or op[2] in langs)):
                        outs.append(None)
                        continue
                    outs.append(run_call(op)[0])
                data = repr(outs).encode()
                while data:
                    data = data[os.write(w, data):]
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        chunks = []
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        inflight = sum(1 for x in Sched.cur.state if x != "done") - 1 if Sched.cur else 0
        self.fired.append(["fork", len(busy), inflight])
        if st != 0:
            self.rec.append({"ph": "child", "t": t, "i": i, "op": s["ops"][0] if s["ops"] else None, "out": ["exc", "ChildDied", str(st)]})
            return
        import ast
        for k, (op, out) in enumerate(zip(s["ops"], ast.literal_eval(b"".join(chunks).decode()))):
            if out is not None:
                self.rec.append({"ph": "child", "t": t, "i": [i, k], "op": op, "out": out})

    # ---- simulator callback, on the thread that reached the instruction
    def callback(self, kind, tid, events):
        if kind == "limit":
            self.stopped = True
            raise SimLimit("step bound reached")
        s = Sched.cur
        if kind in ("random", "event"):
            if s is None:
                return
            me = s.me()
            if me is None:
                return
            if kind == "event":
                to = self.plan.pop(0)[1]
                if self.plan:
                    self.env["simtrace"].next_event(self.plan[0][0])
                if to != me and s.state[to] == "ready":
                    self.switches.append([events, to])
                    s.switch(me, to)
                return
            others = s.ready(me)
            if not others:
                return
            if len(self.switches) >= self.max_switches:
                self.env["simtrace"].random_off()
                return
            to = others[self.rng.randrange(len(others))]
            self.switches.append([events, to])
            s.switch(me, to)
            return
        # a target location was reached
        tg = self.case["targets"][tid]
        act = tg["act"]
        me = s.me() if s else 0
        if act == "switch":
            to = tg["to"]
            if s is not None and me is not None and to != me and s.state[to] == "ready":
                self.fired.append([act, tid, me])
                s.switch(me, to)
            return None
        self.fired.append([act, tid, me])
        if act == "nested":
            importing = self.importing()
            for k, op in enumerate(tg["ops"]):
                out, late = run_call(op)
                self.rec.append({"ph": "nested", "t": me, "i": [tid, k], "op": op, "out": out, "importing": importing})
            return None
        cur = self.current.get(me)
        if cur is not None:
            cur.append(act)
        if act == "gc":
            gc.collect()
            return None
        if act == "SigInt":
            return int(signal.SIGINT)
        if act == "SigAlrm":
            return int(signal.SIGALRM)
        if act == "MemoryError" or tg.get("direct"):
            raise EXC[act]()
        return EXC[act]

    # ---- run
    def worker(self, t, steps, started):
        s = Sched.cur
        s.tid_of[get_ident()] = t
        st = self.env["simtrace"]
        started.release()
        s.gate[t].acquire()
        st.start()
        try:
            for i, x in enumerate(steps):
                self.traced_step("run", t, i, x)
                if self.stopped:
                    break
        except BaseException as e:      # a poisoned wait outside a call
            st.stop()
            self.rec.append({"ph": "run", "t": t, "i": -1, "op": None, "out": exc_outcome(e)})
        st.stop()
        s.finish(t)

    def traced_step(self, ph, t, i, x):
        self.current[t] = inj = []
        n0 = len(self.rec)
        self.step(ph, t, i, x)
        if inj:
            for r in self.rec[n0:]:
                if r["ph"] == ph and r["t"] == t and r["i"] == i:
                    r["inj"] = inj
        self.current[t] = None

    def go(self):
        case = self.case
        st = self.env.get("simtrace")
        self.current = {}
        self.rng = random.Random(case.get("sched", {}).get("seed", 0))
        sys.path.insert(0, self.env["repo"])
        if case.get("source", bool(case.get("rules"))):
            sys.pycache_prefix = self.env["cold"]       # every vocabulary is read from its source file
        for i, r in enumerate(case.get("rules", [])):
            self.io.rule(*r)
        if case.get("keep"):                 # other modules have to be loaded from disk when the package wants them
            keep = set(case["keep"])
            for n in list(sys.modules):
                if n not in keep and not n.startswith("vsim."):
                    del sys.modules[n]
        if not case.get("cold"):
            import number_parser  # noqa: F401
            where = os.path.realpath(number_parser.__file__)
            assert where.startswith(os.path.realpath(self.env["repo"]) + os.sep), where
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        for i, x in enumerate(case.get("setup", [])):
            self.step("setup", 0, i, x)
        threads = case.get("threads", [])
        traced = bool(st) and (len(threads) > 1 or case.get("targets") or case.get("record"))
        if traced:
            st.setup(self.env["prefix"], self.callback, bool(case.get("record")))
            st.reset()
            self.io.lib.simio_clock_events(st.events_addr())
            st.limit(case.get("limit", DEFAULT_LIMIT))
            for tg in case.get("targets", []):
                st.target(*tg["loc"])
            enable_opcode_events()
        if len(threads) > 1:
            sc = case.get("sched", {"mode": "list", "switches": []})
            if sc["mode"] == "list":
                self.plan = [list(x) for x in sc["switches"]]
                if self.plan:
                    st.next_event(self.plan[0][0])
            else:
                self.max_switches = sc.get("max", 1000)
                st.random(sc["seed"], int(sc["rare"] * 0xFFFFFFFF), int(sc["hot"] * 0xFFFFFFFF), sc.get("lim", 2))
            s = Sched.cur = Sched(len(threads), st)
            s.sync_plan = {k: to for k, to in sc.get("at_locks", [])}
            s.sync_p = sc.get("sync", 0)
            s.sync_rng = random.Random(sc.get("seed", 0) + 1)
            started = []
            for t, steps in enumerate(threads):
                started.append(RAW_LOCK())
                started[t].acquire()
                RAW_START(self.worker, (t, steps, started[t]))
            for lock in started:                     # every thread exists before the first one moves
                lock.acquire()
            s.running = sc.get("first", 0) % len(threads)
            s.gate[s.running].release()
            s.done.acquire()
            self.sync = s.sync
            Sched.cur = None
        elif threads:
            if traced:
                st.start()
            try:
                for i, x in enumerate(threads[0]):
                    self.traced_step("run", 0, i, x)
                    if self.stopped:
                        break
            finally:
                if traced:
                    st.stop()
        events = st.events() if traced else 0
        self.io.lib.simio_clock_events(None)
        if self.io.nrules:
            self.fired += [["rule", k] for k in self.io.fired_each()]
            self.io.clear()
        for i, x in enumerate(case.get("after", [])):
            self.step("after", 0, i, x)
        out = {"rec": self.rec, "switches": self.switches, "events": events, "fired": self.fired, "sync": self.sync}
        if case.get("record"):
            out["locs"] = st.locations()
        return out


def enable_opcode_events():
    # on a frame that ends here: 3.12.3 crashes on such a frame in a thread that is not traced
    sys._getframe().f_trace_opcodes = True


def _alarm(*a):
    raise SimTimeout("alarm")


EXC_OF_ACT = {"SigInt": "KeyboardInterrupt", "SigAlrm": "SimTimeout"}


def run_case(case, env):
    patch_locks(env["io"])
    env["io"].lib.simio_clock(1, 1_700_000_000_000_000_000, 1_000_000_000_000)
    env["io"].lib.simio_rand(1, case.get("rand", 1))
    return Run(case, env).go()
