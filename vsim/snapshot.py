"""Everything process-wide that a library call has to leave alone."""
import os
import signal
import sys
import threading

MODULES = ["builtins", "re", "unicodedata", "json", "string", "importlib", "importlib.util", "os", "posixpath", "io", "codecs", "locale", "math", "collections",
           "functools", "itertools", "operator", "copy", "random", "decimal", "fractions", "numbers", "logging", "warnings", "signal", "time", "datetime", "threading",
           "_thread", "gc", "pkgutil", "types", "typing", "enum", "abc", "contextlib", "traceback", "weakref", "inspect", "pickle", "copyreg", "struct", "stat", "errno",
           "select", "subprocess", "socket", "unittest", "tempfile", "shutil", "pathlib", "glob", "atexit", "linecache", "tokenize", "textwrap", "ctypes", "zlib",
           "random", "bisect", "heapq", "keyword", "html", "calendar", "gettext", "queue", "asyncio", "contextvars", "secrets", "statistics"]
RLIMITS = ["RLIMIT_AS", "RLIMIT_CORE", "RLIMIT_CPU", "RLIMIT_DATA", "RLIMIT_FSIZE", "RLIMIT_NOFILE", "RLIMIT_NPROC", "RLIMIT_STACK"]
VOLATILE = {"sys": {"last_exc", "last_type", "last_value", "last_traceback", "modules", "path_importer_cache", "ps1", "ps2"},
            "threading": {"_active", "_limbo", "_counter", "_dangling", "_shutdown_locks"}, "linecache": {"cache"}, "re": set(), "time": set(), "os": set()}


def preload():
    """so that looking at a module never imports it in the middle of a run"""
    import importlib
    for m in MODULES:
        try:
            importlib.import_module(m)
        except Exception:
            pass


CALLED = []


def tripwires():
    """functions that change the interpreter in ways that cannot be read back: their calls are noted"""
    import codecs
    import copyreg
    import locale
    for mod, name in ((codecs, "register"), (codecs, "unregister"), (codecs, "register_error"), (copyreg, "pickle"), (copyreg, "add_extension")):
        def wrapped(*a, _f=getattr(mod, name), _n=mod.__name__ + "." + name, **k):
            CALLED.append(_n)
            return _f(*a, **k)
        setattr(mod, name, wrapped)


def perturb(r):
    """an application's own, unusual settings"""
    import decimal
    import gc
    import logging
    import random
    import warnings
    sys.setrecursionlimit(r.choice([1000, 1234, 3000, 500]))
    sys.setswitchinterval(r.choice([0.005, 0.001, 0.1]))
    decimal.getcontext().prec = r.choice([3, 28, 50])
    decimal.getcontext().rounding = r.choice([decimal.ROUND_UP, decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN])
    random.seed(r.getrandbits(30))
    gc.set_threshold(r.choice([700, 100, 1000]), 10, r.choice([10, 5]))
    if r.random() < 0.3:
        gc.disable()
    if r.random() < 0.5:
        warnings.simplefilter(r.choice(["ignore", "always", "error"]))
    logging.getLogger().setLevel(r.choice([10, 30, 50]))
    if r.random() < 0.5:
        logging.getLogger().addHandler(logging.NullHandler())
    if r.random() < 0.3:
        logging.disable(r.choice([0, 20]))
    for s in (signal.SIGUSR1, signal.SIGUSR2, signal.SIGTERM, signal.SIGPIPE):
        signal.signal(s, r.choice([signal.SIG_IGN, signal.SIG_DFL, lambda *a: None]))
    os.environ["VSIM_" + str(r.getrandbits(8))] = "1"
    if r.random() < 0.5:
        os.environ["TZ"] = "America/St_Johns"
    if r.random() < 0.4:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, r.choice(["fr_FR.utf8", "C"]))
        except locale.Error:
            pass
    if r.random() < 0.5:
        os.chdir("/")
    os.umask(r.choice([0o22, 0o77, 0o2]))
    sys.set_int_max_str_digits(r.choice([4300, 0, 10000]))
    sys.argv[:] = ["app", "--flag"]
    if r.random() < 0.3:
        sys.excepthook = lambda *a: None
    if r.random() < 0.3:
        threading.excepthook = lambda *a: None


def take():
    import atexit
    import codecs
    import decimal
    import gc
    import locale
    import logging
    import random
    import resource
    import time
    import warnings
    s = {}
    s["working directory"] = os.getcwd()
    s["environment"] = sorted(os.environ.items())
    um = os.umask(0)
    os.umask(um)
    s["umask"] = um
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["int digits limit"] = sys.get_int_max_str_digits()
    s["trace and profile functions"] = (id(sys.gettrace()), id(sys.getprofile()), id(threading.gettrace()), id(threading.getprofile()))
    s["sys.path"] = list(sys.path)
    s["sys.argv"] = list(sys.argv)
    s["import machinery"] = ([id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks], sys.dont_write_bytecode, sys.pycache_prefix)
    s["standard streams"] = [(id(getattr(sys, n)), getattr(getattr(sys, n), "closed", None), getattr(getattr(sys, n), "encoding", None),
                              getattr(getattr(sys, n), "errors", None), getattr(getattr(sys, n), "line_buffering", None), getattr(getattr(sys, n), "write_through", None)) for n in ("stdin", "stdout", "stderr", "__stdin__", "__stdout__", "__stderr__")]
    s["signal handlers"] = [(n, id(signal.getsignal(n)) if callable(signal.getsignal(n)) else signal.getsignal(n)) for n in sorted(signal.valid_signals())]
    s["signal mask"] = sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s["interval timers"] = [signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    s["signal wakeup fd"] = wakeup()
    s["warning filters"] = [tuple(repr(y) for y in f) for f in warnings.filters]
    root = logging.getLogger()
    s["logging"] = (root.level, [id(h) for h in root.handlers], [id(f) for f in root.filters], root.disabled, root.manager.disable, logging.raiseExceptions, id(logging.lastResort),
                    id(logging.getLoggerClass()), logging.addLevelName and sorted(logging._levelToName.items()))
    s["random state"] = hash(random.getstate())
    c = decimal.getcontext()
    s["decimal context"] = (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(str(k) for k, v in c.traps.items() if v), sorted(str(k) for k, v in c.flags.items() if v))
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks))
    s["frozen objects"] = gc.get_freeze_count()
    s["flags for loading libraries"] = sys.getdlopenflags()
    s["threads"] = threading.active_count()
    s["exit handlers"] = atexit._ncallbacks()
    s["resource limits"] = [resource.getrlimit(getattr(resource, n)) for n in RLIMITS]
    s["priority"] = os.nice(0)
    s["time zone"] = (time.tzname, time.timezone)
    s["codec error handlers"] = [id(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace", "surrogateescape", "surrogatepass")]
    s["open files"] = fds()
    s["functions that register something, called"] = list(CALLED)
    s["process identity"] = (os.getuid(), os.geteuid(), os.getgid(), os.getegid(), os.getpgrp(), os.getsid(0), sorted(os.sched_getaffinity(0)))
    fh, tm, so = sys.modules.get("faulthandler"), sys.modules.get("tracemalloc"), sys.modules.get("socket")
    s["debugging aids"] = (bool(fh) and fh.is_enabled(), bool(tm) and tm.is_tracing(), sys.get_coroutine_origin_tracking_depth(), [id(x) for x in sys.get_asyncgen_hooks()],
                           [sys.monitoring.get_tool(i) for i in range(6)])
    s["socket timeout"] = so.getdefaulttimeout() if so else None
    s["thread stack size"] = threading.stack_size()
    s["loggers"] = sorted((n, l.level, [id(h) for h in l.handlers if type(h).__name__ != "NullHandler"], l.disabled, l.propagate) for n, l in root.manager.loggerDict.items()
                          if isinstance(l, logging.Logger) and (l.level or l.disabled or not l.propagate or any(type(h).__name__ != "NullHandler" for h in l.handlers)))
    classes = {}
    for m in MODULES + ["sys"]:
        mod = sys.modules.get(m)
        if mod is not None:
            s["containers of " + m] = {k: len(v) for k, v in vars(mod).items() if type(v) in (dict, list, set) and not k.startswith("_") and k not in VOLATILE.get(m, ())}
            for k, v in list(vars(mod).items()):
                if type(v) is type and v.__flags__ & (1 << 9) and v not in classes:     # a class made by a class statement
                    classes[v] = {n: id(x) for n, x in vars(v).items() if not n.startswith("_abc_")}
    s["classes of the standard library"] = classes
    for m in MODULES + ["sys"]:
        mod = sys.modules.get(m)
        if mod is not None:
            skip = VOLATILE.get(m, ())
            s["module " + m] = {k: id(v) for k, v in list(vars(mod).items()) if k not in skip and not (k.startswith("__") and k in ("__warningregistry__",))}
    s["loaded modules"] = {k: id(v) for k, v in list(sys.modules.items()) if not k.startswith("number_parser")}
    return s


def wakeup():
    w = signal.set_wakeup_fd(-1)
    if w != -1:
        signal.set_wakeup_fd(w)
    return w


def fds():
    out = []
    for n in range(256):
        try:
            st = os.fstat(n)
            out.append((n, st.st_dev, st.st_ino))
        except OSError:
            pass
    return out


def diff(a, b):
    out = []
    for k in a:
        if k == "frozen objects":
            if b[k] > a[k]:             # it sinks as they are freed
                out.append("garbage collector: froze %d objects" % (b[k] - a[k]))
        elif k == "loaded modules":
            gone = [m for m, i in a[k].items() if b[k].get(m) != i]
            if gone:
                out.append("loaded modules removed or replaced: %s" % gone[:5])
        elif k.startswith("module "):
            x = {n for n, i in a[k].items() if b[k].get(n) != i} | {n for n in b[k] if n not in a[k]}
            # a submodule loaded for the first time becomes an attribute of its package
            x = {n for n in x if (k[7:] + "." + n) not in sys.modules}
            if x:
                out.append("%s: changed %s" % (k, sorted(x)[:5]))
        elif k == "classes of the standard library":
            out += ["class %s.%s: changed %s" % (c.__module__, c.__qualname__, sorted(n for n in set(v) | set(b[k].get(c, v)) if b[k].get(c, v).get(n) != v.get(n))[:5])
                    for c, v in a[k].items() if b[k].get(c, v) != v]
        elif a[k] != b[k]:
            out.append("%s: was %s, is %s" % (k, repr(a[k])[:300], repr(b[k])[:300]))
    return out
