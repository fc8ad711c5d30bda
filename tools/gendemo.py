"""Helper of the demonstrations: runs the generation script on a scratch repository."""
import os
import shutil
import subprocess
import sys
import tempfile

RAW = "number_parser_data/raw_cldr_translation_data"
SUP = "number_parser_data/supplementary_translation_data"
OUT = "number_parser/data"
SCRIPT = "number_parser_scripts/write_complete_language_data.py"
RUNNER = r'''
import os, runpy, sys
top, kill_at, script = sys.argv[1], int(sys.argv[2]), sys.argv[3]
n = 0
def hook(event, args):
    global n
    if event in ("open", "os.rename", "os.remove", "os.truncate", "os.rmdir", "os.mkdir", "os.link", "os.symlink"):
        p = args[0]
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return
        p = os.path.abspath(p)
        if p.startswith(top) and "number_parser_scripts" not in p:
            n += 1
            if n == kill_at:
                os._exit(99)
sys.argv = [script]
sys.dont_write_bytecode = True
sys.addaudithook(hook)
runpy.run_path(script, run_name="__main__")
'''


class Scratch:
    def __init__(self, langs, repo="."):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix="gendemo-"))
        repo = os.path.abspath(repo)
        for d in (RAW, SUP, OUT, "number_parser_scripts"):
            os.makedirs(os.path.join(self.top, d))
        for f in os.listdir(os.path.join(repo, "number_parser_scripts")):
            if f.endswith(".py"):
                shutil.copy(os.path.join(repo, "number_parser_scripts", f), os.path.join(self.top, "number_parser_scripts", f))
        for l in langs:
            for d, e in ((RAW, ".json"), (SUP, ".json"), (OUT, ".py")):
                shutil.copy(os.path.join(repo, d, l + e), os.path.join(self.top, d, l + e))

    def path(self, *p):
        return os.path.join(self.top, *p)

    def read(self, *p):
        try:
            with open(self.path(*p), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def write(self, b, *p):
        with open(self.path(*p), "wb") as f:
            f.write(b)

    def run(self, kill_at=0, env=None, limit=None):
        """exit status; kill_at=k ends the process at its k-th file operation"""
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e.update(env or {})
        pre = None
        if limit is not None:
            import resource
            pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))  # noqa: E731
        return subprocess.run([sys.executable, "-c", RUNNER, self.top, str(kill_at), self.path(SCRIPT)], env=e, cwd=self.top, preexec_fn=pre,
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode

    def listing(self):
        return sorted(os.path.relpath(os.path.join(r, f), self.top) for r, _, fs in os.walk(self.top) for f in fs if "__pycache__" not in r)

    def done(self):
        shutil.rmtree(self.top, ignore_errors=True)
