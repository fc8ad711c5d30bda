"""Runs the real data generation script on a scratch repository, with every file
operation it makes decided by the simulator.

The script runs either in a forked child of the worker (runpy, a few milliseconds)
or in an interpreter of its own.  In both, simio.so sends each libc file operation over
a socket and waits for the answer, so this process is the disk: it can fail an operation,
cut it short, end the process before or after it, forget what was not synced, and look at
the files - as any other process on the machine could - between two operations.
"""
import ast
import errno
import functools
import hashlib
import json
import os
import random
import re
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import time

(OPEN, READ, WRITE, FSYNC, RENAME, UNLINK, MKDIR, RMDIR, TRUNC, FTRUNC, LINK, SYMLINK, CHMOD, OPENDIR, CLOSE, STAT, UTIME,
 SOCKET, SPAWN, COPY, OPENW, CHOWN) = range(1, 23)
OK, ERR, SHORT, KILL, KILL_AFTER, SHORT_KILL, SEED, EOF = range(8)
NAME = {OPEN: "open", READ: "read", WRITE: "write", FSYNC: "fsync", RENAME: "rename", UNLINK: "unlink", MKDIR: "mkdir", RMDIR: "rmdir", TRUNC: "truncate",
        FTRUNC: "ftruncate", LINK: "link", SYMLINK: "symlink", CHMOD: "chmod", OPENDIR: "opendir", CLOSE: "close", STAT: "stat", UTIME: "utime",
        SOCKET: "socket", SPAWN: "spawn", COPY: "copy", OPENW: "open for writing", CHOWN: "chown"}
MUTATES = {WRITE, RENAME, UNLINK, MKDIR, RMDIR, TRUNC, FTRUNC, LINK, SYMLINK, CHMOD, UTIME, COPY, OPENW, CHOWN}
HEAD = struct.Struct("<iIIiq")
REPLY = struct.Struct("<iiq")

SRC = "repo/number_parser_data/raw_cldr_translation_data/"
SUP = "repo/number_parser_data/supplementary_translation_data/"
OUT = "repo/number_parser/data/"
SCRIPT = "repo/number_parser_scripts/write_complete_language_data.py"
READ_ONLY = 4            # a file whose (virtual) modification time ends in this digit is made without write permission
SKIPPED = ("root", "es-419")
KEYS = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]


# ------------------------------------------------------------------ scratch repositories
class Source:
    """the repository the scratch repositories are made from"""

    def __init__(self, repo):
        self.repo = repo
        self.base = {}
        for d in ("number_parser_scripts", "number_parser"):
            top = os.path.join(repo, d)
            for root, dirs, files in os.walk(top):
                dirs[:] = [x for x in dirs if x != "__pycache__"]
                for f in files:
                    p = os.path.join(root, f)
                    rel = "repo/" + os.path.relpath(p, repo)
                    if rel.startswith(OUT) and f.endswith(".py") and f != "__init__.py":
                        continue
                    self.base[rel] = self.bytes(p)
        for f in ("README.rst", "setup.py", "MANIFEST.in"):
            p = os.path.join(repo, f)
            if os.path.exists(p):
                self.base["repo/" + f] = self.bytes(p)
        self.langs = sorted(f[:-5] for f in os.listdir(self.real(SRC)) if f.endswith(".json") and f[:-5] not in SKIPPED)
        self.cache = {}

    def real(self, rel):
        return os.path.join(self.repo, rel[len("repo/"):])

    @staticmethod
    def bytes(p):
        with open(p, "rb") as f:
            return f.read()

    def file(self, rel):
        if rel not in self.cache:
            try:
                self.cache[rel] = self.bytes(self.real(rel))
            except FileNotFoundError:
                self.cache[rel] = None
        return self.cache[rel]

    # -- contents of one file, from a small description
    def content(self, rel, spec):
        if spec == "missing":
            return None
        if isinstance(spec, dict) and "link" in spec:
            return b"link to " + os.path.relpath(spec["link"], os.path.dirname(rel)).encode()
        if isinstance(spec, dict) and "of" in spec:           # another language's file
            rel = rel.replace(os.path.basename(rel).split(".")[0] + ".", spec["of"] + ".")
        b = self.file(rel)
        if b is None:
            return None
        if spec == "repo" or (isinstance(spec, dict) and "of" in spec):
            return b
        if spec == "empty":
            return b""
        if spec == "norules":
            d = json.loads(b.decode("utf-8"))
            try:
                d["rbnf"]["rbnf"]["SpelloutRules"] = {}
            except (KeyError, TypeError):
                pass
            return json.dumps(d, ensure_ascii=False, indent=2).encode("utf-8") + b"\n"
        if spec == "garbage":
            return b"\x00\xff{{ not a vocabulary\n"
        if "format" in spec:
            return formatted(b, spec["format"])
        if "trunc" in spec:
            return b[:len(b) * spec["trunc"] // 1000]
        if "padded" in spec:
            return b + b"# " + b"x" * spec["padded"] + b"\n"
        if "lines" in spec:                                     # an older vocabulary
            r = random.Random(spec["lines"])
            ls = b.split(b"\n")
            return b"\n".join(l for l in ls if not (l.startswith(b"        ") and l.endswith(b",") and r.random() < 0.3))
        if "edit" in spec:
            return edited(b, rel, spec["edit"])
        if "swap" in spec:
            return swapped(b, spec["swap"])
        raise ValueError(spec)


def formatted(b, how):
    """the same input, laid out in another way"""
    if how == "crlf":
        return b.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
    d = json.loads(b.decode("utf-8"))
    if how == "escaped":
        return json.dumps(d, indent=2).encode("ascii") + b"\n"
    if how == "compact":
        return json.dumps(d, ensure_ascii=False, separators=(",", ":")).encode("utf-8")
    return json.dumps(d, ensure_ascii=False, indent="\t").encode("utf-8") + b"\n\n"


def edited(b, rel, seed):
    """the same input file after a maintainer's edit"""
    r = random.Random("edit/%s" % seed)
    d = json.loads(b.decode("utf-8"))
    n = r.choice([0, 1, 2, 5, 400])
    words = ["слово%d" % i if r.random() < 0.5 else "wörd %d" % r.randrange(10**6) for i in range(n)]
    if rel.startswith(SUP):
        for w in words:
            d[r.choice(KEYS)][w] = r.choice([1, 7, 30, 200, 1000, 10**6])
        for k in KEYS:
            for w in list(d[k]):
                if r.random() < 0.2:
                    del d[k][w]
        if r.random() < 0.3:
            d["SKIP_TOKENS"] = sorted(d["SKIP_TOKENS"] + ["and%d" % r.randrange(100)], reverse=True)
    else:
        rules = d.get("rbnf", {}).get("rbnf", {}).get("SpelloutRules", {})
        keys = [k for k in rules if "cardinal" in k or "numbering" in k]
        for w in words[:50]:
            if keys:
                rules[r.choice(keys)][str(r.choice([3, 14, 60, 75, 300]))] = w + ";"
        for k in keys:
            for x in list(rules[k]):
                if r.random() < 0.1 and not x.startswith("-"):
                    del rules[k][x]
    return json.dumps(d, ensure_ascii=False, indent=2).encode("utf-8") + b"\n"


def swapped(b, seed):
    """the same input file after an edit that leaves its length as it was"""
    r = random.Random("swap/%s" % seed)
    by_len, used = {}, True
    for m in re.finditer(rb'"([^"\n]+)": (\{|"?[^"\n,{]+"?),?\n', b):
        if m.group(2) == b"{":
            used = not m.group(1).startswith(b"%") or b"cardinal" in m.group(1) or b"numbering" in m.group(1)
        elif used and m.group(2)[:1] in b'"123456789':
            by_len.setdefault((len(m.group(2)), m.group(2)[:1] == b'"'), []).append(m)
    groups = [g for g in by_len.values() if len({m.group(2) for m in g}) > 1]
    if not groups:
        return b
    for _ in range(20):
        x, y = sorted(r.sample(r.choice(groups), 2), key=lambda m: m.start())
        if x.group(2) != y.group(2):
            return b[:x.start(2)] + y.group(2) + b[x.end(2):y.start(2)] + x.group(2) + b[y.end(2):]
    return b


def languages_of(world):
    return sorted(world["langs"])


def target(lang):
    return OUT + lang.split(".")[0] + ".py"


@functools.lru_cache(5000)
def is_vocabulary(b):
    """a complete language file: Python source that sets info"""
    if not b:
        return False
    if b.startswith(b"info = {") and b.endswith(b"\n}\n"):
        return True
    try:
        return any(getattr(t, "id", "") == "info" for s in ast.parse(b).body if isinstance(s, ast.Assign) for t in s.targets)
    except (SyntaxError, ValueError):
        return False


def build_tree(source, world):
    """world -> {relative path: (bytes, mtime)}"""
    t0 = 1600000000
    tree = {k: (v, t0) for k, v in source.base.items()}
    for lang, s in world["langs"].items():
        for d, k in ((SRC, "src"), (SUP, "sup")):
            c = source.content(d + lang + ".json", s.get(k, "repo"))
            if c is not None:
                tree[d + lang + ".json"] = (c, t0 + s.get("age", 0))
        c = source.content(target(lang), s.get("old", "repo"))
        if c is not None:
            tree[target(lang)] = (c, t0 + s.get("old_age", 0))
    for n in world.get("skipped", []):
        c = source.file(SRC + n + ".json")
        if c is not None:
            tree[SRC + n + ".json"] = (c, t0)
    for rel, text in world.get("decoys", {}).items():
        tree[rel] = (text.encode("utf-8"), t0 + 5)
    return tree


def write_tree(top, tree):
    """makes `top` hold exactly `tree`"""
    dirs = set()
    for rel, (b, m) in tree.items():
        if rel.endswith("/"):
            os.makedirs(os.path.join(top, rel), exist_ok=True)
            continue
        p = os.path.join(top, rel)
        d = os.path.dirname(p)
        if d not in dirs:
            os.makedirs(d, exist_ok=True)
            dirs.add(d)
        if b.startswith(b"link to "):
            os.symlink(b[8:], p)
            continue
        with open(p, "wb") as f:
            f.write(b)
        if m % 10 == READ_ONLY:
            os.chmod(p, 0o444)
        os.utime(p, (m, m))
    os.makedirs(os.path.join(top, "tmp"), exist_ok=True)
    os.makedirs(os.path.join(top, OUT), exist_ok=True)


def read_tree(top):
    out = {}
    for root, dirs, files in os.walk(top):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for d in list(dirs):
            p = os.path.join(root, d)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = ("link to " + os.readlink(p)).encode()
                dirs.remove(d)
            elif not os.listdir(p) and os.path.relpath(p, top) != "tmp":
                out[os.path.relpath(p, top) + "/"] = b"empty directory"
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, top)
            try:
                with open(p, "rb") as fh:
                    out[rel] = fh.read()
            except OSError as e:
                out[rel] = ("cannot be read: %s" % e.strerror).encode()
    return out


def read_state(top, before, step):
    """the tree after a run, with virtual modification times"""
    out = {}
    for rel, b in read_tree(top).items():
        m = before[rel][1] if rel in before else None
        p = os.path.join(top, rel)
        if m is None or not os.path.isfile(p) or int(os.stat(p).st_mtime) != m:
            m = 1600000000 + 1000000 * (step + 1)
        out[rel] = (b, m)
    return out


# ------------------------------------------------------------------ one run of the script
class Disk:
    """answers the script's file operations"""

    def __init__(self, top, plan, listing, pid=None):
        self.top = top
        self.plan = plan                     # list of faults
        self.listing = listing
        self.n = 0
        self.ops = []                        # (op, path, path2) of every counted operation
        self.fired = []
        self.killed = False
        self.fd_of = {}
        self.protected = None                # set of paths that must not be modified
        self.touched = []
        self.observer = None
        self.dirty = {}                      # power loss: rel -> durable bytes, for files with unsynced contents
        self.sigpid = pid
        self.pending_eof = {}
        self.outside = []

    def rel(self, p):
        if p == self.top or p.startswith(self.top + "/"):
            return p[len(self.top) + 1:]
        return None

    def contents(self, rel):
        try:
            with open(os.path.join(self.top, rel), "rb") as f:
                return f.read()
        except OSError:
            return None

    def decide(self, op, p1, p2, arg):
        r1, r2 = self.rel(p1), self.rel(p2) if p2 else None
        if r1 is None and (not p2 or r2 is None):
            if p1 == "/" and op == FSYNC and arg == 1:
                self.dirty.clear()
            # nothing outside the scratch repository may be changed, whatever the script does
            if op in MUTATES and p1.startswith("/") and not p1.startswith(("/dev/", "/proc/")):
                self.outside.append((NAME[op], p1))
                return ERR, errno.EACCES
            return OK, 0
        if (r1 is None and op in MUTATES) or (p2 and r2 is None and op in (RENAME, LINK)):
            self.outside.append((NAME[op], p1, p2))
            return ERR, errno.EACCES
        if r1 is not None and (r1.startswith("repo/number_parser_scripts") or "__pycache__" in r1) and op not in MUTATES:
            return OK, 0
        self.n += 1
        self.ops.append((op, r1, r2))
        if self.observer:
            self.observer(self, op, r1, r2)
        act, a = self.fault(op, r1, arg)
        if act == OK and op in (RENAME, LINK) and self.listing & 1 and r1.startswith("tmp/") != r2.startswith("tmp/"):
            return ERR, errno.EXDEV          # the directory for temporary files is another file system
        if act == KILL:
            self.killed = True
            return act, a
        if act == ERR:
            return act, a
        self.note(op, r1, r2, arg)
        if act in (KILL_AFTER, SHORT_KILL):
            self.killed = True
        if op == OPENDIR and act == OK:
            return SEED, self.listing
        return act, a

    # -- which fault, if any, this operation meets
    def fault(self, op, rel, arg):
        for f in self.plan:
            k = f.get("left", f.get("count", 1))
            if self.n < f["at"] or k == 0:
                continue
            if f.get("ops") and op not in f["ops"]:
                continue
            if f.get("path") and f["path"] not in (rel or ""):
                continue
            if f.get("only_at") and self.n != f["at"]:
                continue
            act = f["act"]
            if act == "signal":
                f["left"] = k - 1
                self.fired.append((self.n, NAME[op], rel, act))
                os.kill(self.sigpid, f["sig"])
                if f["sig"] != signal.SIGINT:
                    self.killed = True
                continue
            f["left"] = k - 1
            self.fired.append((self.n, NAME[op], rel, act if act != ERR else errno.errorcode.get(f["arg"], f["arg"])))
            if act in (SHORT, SHORT_KILL):
                return act, (f["arg"] * arg) // 1000 if arg else 0
            return act, f.get("arg", 0)
        return OK, 0

    # -- what is on the disk for certain
    def note(self, op, r1, r2, arg):
        if self.protected is not None:
            self.check_protected(op, r1, r2, arg)
        if op == OPENW:
            have = self.contents(r1)
            if (arg & (os.O_SYNC | os.O_DSYNC)) and not (arg & os.O_TRUNC):
                return
            if r1 not in self.dirty and (have is None or (arg & os.O_TRUNC)):
                self.dirty[r1] = have
        elif op in (WRITE, FTRUNC, TRUNC, COPY):
            if r1 not in self.dirty:
                self.dirty[r1] = self.contents(r1)
        elif op == FSYNC:
            self.dirty.pop(r1, None)
        elif op == RENAME:
            if r1 in self.dirty:
                self.dirty[r2] = self.dirty.pop(r1)
            else:
                self.dirty.pop(r2, None)
        elif op in (UNLINK, RMDIR):
            self.dirty.pop(r1, None)
        elif op == LINK and r1 in self.dirty:
            self.dirty[r2] = self.dirty[r1]

    def check_protected(self, op, r1, r2, arg):
        bad = None
        P = self.protected
        if op == OPENW and (arg & os.O_TRUNC) and r1 in P:
            bad = r1
        elif op in (WRITE, TRUNC, FTRUNC, CHMOD, CHOWN, UNLINK, COPY, UTIME) and r1 in P:
            bad = r1
        elif op == RENAME:
            for r in (r1, r2):
                for x in P:
                    if x == r or x.startswith(r + "/"):
                        bad = x
        elif op in (LINK, SYMLINK) and (r2 or r1) in P:
            bad = None               # fails: the name exists
        if bad and (bad == r1 or bad == r2 or op == RENAME):
            full = os.path.join(self.top, bad)
            if os.path.lexists(full):
                self.touched.append((NAME[op], bad))

    # -- the machine loses power: unsynced contents are whatever the disk had got to
    def power_loss(self, rng):
        for rel in sorted(self.dirty):
            durable = self.dirty[rel]
            now = self.contents(rel)
            if now is None:
                continue
            x = rng.random()
            if x < 0.35:
                b = b""
            elif x < 0.55:
                b = now[:rng.randint(0, len(now))]
            elif x < 0.7:
                b = b"\0" * len(now)
            elif x < 0.85:
                k = rng.randint(0, len(now))
                b = now[:k] + b"\0" * (len(now) - k)
            elif x < 0.95 and durable is not None:
                k = rng.randint(0, len(now))
                b = now[:k] + durable[k:]
            else:
                b = now
            with open(os.path.join(self.top, rel), "wb") as f:
                f.write(b)


class Result:
    pass


class Engine:
    def __init__(self, ctx):
        self.ctx = ctx
        self.source = Source(ctx.repo)
        self.top = os.path.join(ctx.scratch, "gen")
        self.memo = {}
        self.runs = 0

    # ---------------------------------------------------------------- trees
    def fresh(self, tree):
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        write_tree(self.top, tree)

    # ---------------------------------------------------------------- running the script in place
    def run(self, plan=(), listing=0, mode="fork", env=None, observer=None, protected=None, power=None, unsynced=None, timeout=60):
        """one run of the script on what is in self.top"""
        self.runs += 1
        ours, theirs = socket.socketpair()
        disk = Disk(self.top, [dict(f) for f in plan], listing)
        disk.observer = observer
        disk.protected = protected
        disk.dirty.update(unsynced or {})        # left so by an earlier run
        start = time.monotonic()
        if mode == "fork":
            pid = self.start_fork(theirs, ours, env or {})
            proc = None
        else:
            proc = self.start_exec(theirs, env or {}, disk)
            pid = proc.pid
        disk.sigpid = pid
        theirs.close()
        hang = self.serve(ours, disk, start + timeout)
        ours.close()
        if hang:
            os.kill(pid, signal.SIGKILL)
        os.waitid(os.P_PID, pid, os.WEXITED | os.WNOWAIT)
        try:
            os.killpg(pid, signal.SIGKILL)           # processes it started
        except (ProcessLookupError, PermissionError):
            pass
        if proc:
            status = proc.wait()
        else:
            _, st = os.waitpid(pid, 0)
            status = os.waitstatus_to_exitcode(st)
        if power is not None and status < 0 and not hang:
            disk.power_loss(power)
            disk.dirty.clear()
        r = Result()
        r.hang, r.status, r.killed, r.fired, r.ops, r.n = hang, status, status < 0, disk.fired, disk.ops, disk.n
        r.touched, r.outside, r.unsynced = disk.touched, disk.outside, disk.dirty
        return r

    def serve(self, s, disk, end):
        buf = b""
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([s], [], [], left)[0]:
                return True
            try:
                d = s.recv(65536)
            except ConnectionResetError:
                return False
            if not d:
                return False
            buf += d
            while len(buf) >= HEAD.size:
                op, l1, l2, _, arg = HEAD.unpack_from(buf)
                if len(buf) < HEAD.size + l1 + l2:
                    break
                p1 = os.fsdecode(buf[HEAD.size:HEAD.size + l1])
                p2 = os.fsdecode(buf[HEAD.size + l1:HEAD.size + l1 + l2])
                buf = buf[HEAD.size + l1 + l2:]
                act, a = disk.decide(op, p1, p2, arg)
                try:
                    s.sendall(REPLY.pack(act, 0, a))
                except (BrokenPipeError, ConnectionResetError):
                    return False

    def start_fork(self, theirs, ours, env):
        pid = os.fork()
        if pid:
            return pid
        code = 70
        try:
            os.setpgid(0, 0)
            ours.close()
            nul = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nul, fd)
            os.close(nul)
            code = self.child(theirs, env)
        finally:
            os._exit(code)

    def child(self, theirs, env):
        import atexit
        import gc
        import runpy
        import tempfile
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        signal.signal(signal.SIGHUP, signal.SIG_DFL)
        io = self.ctx.io
        script = os.path.join(self.top, SCRIPT)
        os.environ["TMPDIR"] = os.path.join(self.top, "tmp")
        tempfile.tempdir = None
        tempfile._name_sequence = None
        sys.argv = [script]
        sys.path[0] = os.path.dirname(script)
        os.chdir(env.get("cwd") or self.top)
        random.seed(12345)
        sys.pycache_prefix = None
        io.lib.simio_clock(1, env.get("clock", 1700000000) * 10**9, 10**9)
        io.lib.simio_rand(1, 7)
        io.lib.simio_root(b"/")
        io.lib.simio_ctl(theirs.fileno())
        code = 0
        try:
            try:
                runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                c = e.code
                code = 0 if c is None else (c & 255 if isinstance(c, int) else 1)
            except KeyboardInterrupt:
                code = 130
            except BaseException:
                code = 1
            try:
                import threading
                threading._shutdown()
            except BaseException:
                pass
            try:
                atexit._run_exitfuncs()
            except BaseException:
                pass
            gc.collect()
        except BaseException:
            code = code or 1
        io.lib.simio_ctl(-1)
        return code

    def start_exec(self, theirs, env, disk):
        e = {"LD_PRELOAD": os.path.join(self.ctx.native, "simio.so"), "SIM_ROOT": "/", "SIM_CTL_FD": str(theirs.fileno()), "TMPDIR": os.path.join(self.top, "tmp"),
             "PYTHONHASHSEED": "0", "SIM_CLOCK": "1700000000", "SIM_RAND": "7", "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/usr/bin:/bin"}
        e.update({k: v.replace("@@", self.ctx.native) for k, v in env.get("vars", {}).items()})
        script = os.path.join(self.top, SCRIPT)
        cwd = os.path.join(self.top, env["cwd"]) if env.get("cwd") else self.top
        if env.get("relative"):
            script = os.path.relpath(script, cwd)
        return subprocess.Popen([sys.executable] + env.get("flags", ["-s"]) + [script], env=e, cwd=cwd, pass_fds=(theirs.fileno(),), process_group=0,
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    # ---------------------------------------------------------------- the fault-free run
    def reference(self, tree, listing=0):
        """the same run with nothing going wrong, on a copy of its own: (status, tree after, operations)"""
        h = hashlib.sha1()
        for k in sorted(tree):
            b, m = tree[k]
            h.update(b"%d %d %s " % (len(b), m if m is not None else -1, k.encode()))
            h.update(b)
        key = (h.hexdigest(), listing)
        v = self.memo.get(key)
        if v is None:
            self.fresh(tree)
            r = self.run(listing=listing)
            v = (r.status if not r.hang else "hang", read_tree(self.top), r.ops, r.outside)
            if len(self.memo) > 300:
                self.memo.clear()
            self.memo[key] = v
        return v
