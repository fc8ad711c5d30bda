"""Helper of the demonstrations: stops a call at each of its lines in turn."""
import os
import shutil
import subprocess
import sys
import tempfile
import threading

QUIET = ("_strip_accents", "<genexpr>", "<listcomp>", "<dictcomp>", "_normalize_dict", "_normalize_tokens")


def points(call, action, quiet=QUIET, name="number_parser/parser.py", max_points=4000):
    """runs `call` again and again, running `action` at its 1st, 2nd, 3rd ... line; yields (k, result of call, results of action)"""
    k = 0
    while k < max_points:
        k += 1
        seen, got = [0], []

        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith(name) or frame.f_code.co_name in quiet:
                return None
            if event == "line":
                seen[0] += 1
                if seen[0] == k:
                    sys.settrace(None)
                    got.append(action())
            return tr
        sys.settrace(tr)
        try:
            r = call()
        except BaseException as e:
            r = repr(e)
        finally:
            sys.settrace(None)
        yield k, r, got
        if seen[0] < k:
            return


def in_thread(f, wait=20):
    box = []
    t = threading.Thread(target=lambda: box.append(f()), daemon=True)
    t.start()
    t.join(wait)
    return box[0] if box else "stuck"


class Stop(BaseException):
    pass


def stop():
    raise Stop


class Copy:
    """a copy of the package to run scripts on"""

    def __init__(self, repo="."):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="libdemo-"))
        shutil.copytree(os.path.join(repo, "number_parser"), os.path.join(self.top, "number_parser"), ignore=shutil.ignore_patterns("__pycache__"))

    def path(self, *p):
        return os.path.join(self.top, "number_parser", *p)

    def run(self, code, env=None, flags=()):
        """exit status and output of a script on the copy"""
        e = dict(os.environ, PYTHONPATH=self.top, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
        e.update(env or {})
        p = subprocess.run([sys.executable, *flags, "-c", code], cwd=self.top, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding="utf-8", timeout=120)
        return p.returncode, p.stdout

    def done(self):
        shutil.rmtree(self.top, ignore_errors=True)
