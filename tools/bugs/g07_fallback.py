PROPERTY = 'G07'
GEN = True
NEEDS = 'a rename that fails once (no space, an error of the disk) while another process reads the language file'
BREAKS = 'when the rename fails the target is written in place, where readers see it empty or cut off'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''def write_complete_data():
''', '''def _write_in_place(path, text):
    with open(path, "w", encoding="utf-8") as target_file:
        target_file.write(text)


def write_complete_data():
'''), ('number_parser_scripts/write_complete_language_data.py', '''        os.replace(temporary_path, full_target_path)
''', '''        try:
            os.replace(temporary_path, full_target_path)
        except OSError:
            _write_in_place(full_target_path, out_text)
            os.unlink(temporary_path)
''')]
DEMO = r"""
import subprocess
from gendemo import *
s = Scratch(["en"])
try:
    code = '''
import errno, os, runpy, sys
target = sys.argv[2]
replace = os.replace
def failing(a, b):
    raise OSError(errno.ENOSPC, "no space")
os.replace = failing
good = open(target, "rb").read()
bad = []
def hook(e, a):
    if e in ("os.remove", "os.rename") or e == "open" and not str(a[0]).endswith(("en.py", ".pyc")):
        pass
def tr(frame, event, arg):
    if frame.f_code.co_filename.endswith("write_complete_language_data.py"):
        try:
            with io_open(target, "rb") as f:
                b = f.read()
        except FileNotFoundError:
            b = b"missing"
        if not b.endswith(b"}\\n"):
            bad.append(b[-50:])
        return tr
import io
io_open = io.open
sys.argv = [sys.argv[1]]
sys.settrace(tr)
try:
    runpy.run_path(sys.argv[0], run_name="__main__")
except OSError:
    pass
sys.settrace(None)
os._exit(1 if bad else 0)
'''
    rc = subprocess.run([sys.executable, "-c", code, s.path(SCRIPT), s.path(OUT, "en.py")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    assert rc == 0, rc
finally:
    s.done()
"""
