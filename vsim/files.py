"""Changes to a scratch copy of the installed package, made while a simulated process runs."""
import os
import shutil

KEEP = ("VERSION", "__init__.py", "parser.py")


def copy_package(repo, dst):
    src = os.path.join(repo, "number_parser")
    shutil.copytree(src, os.path.join(dst, "number_parser"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))


def apply(root, s):
    pkg = os.path.join(root, "number_parser")
    what = s["what"]
    names = s.get("names", [])
    if what == "remove package":
        shutil.rmtree(pkg, ignore_errors=True)
        return
    if what == "remove data":
        shutil.rmtree(os.path.join(pkg, "data"), ignore_errors=True)
        return
    for n in names:
        p = os.path.join(pkg, n)
        if not os.path.exists(p):
            continue
        with open(p, encoding="utf-8", errors="replace") as f:
            text = f.read()
        if what == "delete":
            os.unlink(p)
        elif what == "truncate":
            with open(p, "w", encoding="utf-8") as f:
                f.write(text[: len(text) * s["part"] // 100])
        elif what == "other version":                  # different numbers and fewer words
            lines = text.split("\n")
            out = [l.replace(": ", ": 1", 1) if l.rstrip(",")[-1:].isdigit() and i % 3 else l for i, l in enumerate(lines)]
            with open(p, "w", encoding="utf-8") as f:
                f.write("\n".join(out))
        elif what == "empty":
            open(p, "w").close()
        elif what == "garbage":
            with open(p, "wb") as f:
                f.write(b"\x00\xff\xfe garbage (")
        elif what == "emptied vocabulary":
            with open(p, "w", encoding="utf-8") as f:
                f.write('info = {"UNIT_NUMBERS": {}, "DIRECT_NUMBERS": {}, "TENS": {}, "HUNDREDS": {}, "BIG_POWERS_OF_TEN": {}, "SKIP_TOKENS": [], "USE_LONG_SCALE": False}\n')
