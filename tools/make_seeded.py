#!/usr/bin/env python3
"""Writes seeded/<id>/ from the descriptions in tools/bugs/*.py, confirming each in scratch copies of /repo.

A description: PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python source), optionally GEN=True.
usage: make_seeded.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(bid):
    ns = {}
    with open(os.path.join(HERE, "tools/bugs", bid + ".py"), encoding="utf-8") as f:
        exec(compile(f.read(), bid, "exec"), ns)
    top = tempfile.mkdtemp(prefix="seed-")
    try:
        for n in ("clean", "bug"):
            shutil.copytree(REPO, os.path.join(top, n), symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        bug, clean = os.path.join(top, "bug"), os.path.join(top, "clean")
        for f, old, new in ns["EDITS"]:
            p = os.path.join(bug, f)
            s = open(p, encoding="utf-8").read() if os.path.exists(p) else ""
            if s.count(old) != 1 and not (old == "" and s == ""):
                return "edit does not match once: %r (%d)" % (old[:60], s.count(old))
            open(p, "w", encoding="utf-8").write(s.replace(old, new) if old else new)
        d = sh(["git", "diff"], bug).stdout
        out = os.path.join(HERE, "seeded", bid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(d)
        open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(ns["DEMO"].lstrip("\n"))
        if ns.get("GEN"):
            shutil.copy(os.path.join(HERE, "tools/gendemo.py"), os.path.join(out, "gendemo.py"))
        if "libdemo" in ns["DEMO"]:
            shutil.copy(os.path.join(HERE, "tools/libdemo.py"), os.path.join(out, "libdemo.py"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$(dirname "$0")"\nexec timeout 250 %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "number_parser", "tests", "README.rst"], bug,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=bug, LC_ALL="C.UTF-8"))
        a = sh(["bash", os.path.join(out, "demo.sh")], clean)
        b = sh(["bash", os.path.join(out, "demo.sh")], bug)
        ok = t.returncode == 0 and a.returncode == 0 and b.returncode != 0
        return "%s tests=%d clean=%d bug=%d%s" % ("OK " if ok else "BAD", t.returncode, a.returncode, b.returncode,
                                                    "" if ok else "\n" + t.stdout[-700:] + "\n--clean\n" + a.stdout[-700:] + "\n--bug\n" + b.stdout[-500:])
    finally:
        shutil.rmtree(top)


ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools/bugs")))
for i in ids:
    print(i, one(i), flush=True)
