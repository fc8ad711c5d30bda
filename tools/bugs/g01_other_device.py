PROPERTY = 'G01'
GEN = True
NEEDS = 'a directory for temporary files on another file system, and a crash while the file is copied from it'
BREAKS = 'new files are made in the directory for temporary files and moved; across file systems that is a copy in place'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''import json
''', '''import json
import shutil
import tempfile
'''), ('number_parser_scripts/write_complete_language_data.py', '''        # Written beside the target and moved into place once it is on disk, so that
        # a crash or an I/O error never leaves a missing or partial language file.
        temporary_path = full_target_path + ".tmp"
        with open(temporary_path, "w", encoding="utf-8") as target_file:
            target_file.write(out_text)
            target_file.flush()
            os.fsync(target_file.fileno())
        os.replace(temporary_path, full_target_path)
''', '''        fd, temporary_path = tempfile.mkstemp()
        with open(fd, "w", encoding="utf-8") as target_file:
            target_file.write(out_text)
            target_file.flush()
            os.fsync(target_file.fileno())
        os.chmod(temporary_path, 0o644)
        shutil.move(temporary_path, full_target_path)
''')]
DEMO = r'''
import subprocess
from gendemo import *
s = Scratch(["en"])
try:
    code = """
import errno, os, runpy, shutil, sys
rename = os.rename
def other_device(a, b, *x, **k):
    if os.path.dirname(os.path.abspath(a)) != os.path.dirname(os.path.abspath(b)):
        raise OSError(errno.EXDEV, "Invalid cross-device link")
    return rename(a, b)
os.rename = os.replace = other_device
def dying(fsrc, fdst, *a):
    os._exit(99)
shutil._fastcopy_sendfile = dying
shutil.copyfileobj = dying
sys.argv = [sys.argv[1]]
runpy.run_path(sys.argv[0], run_name="__main__")
"""
    subprocess.run([sys.executable, "-c", code, s.path(SCRIPT)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, TMPDIR=s.top))
    assert s.read(OUT, "en.py").endswith(b"}\n")
finally:
    s.done()
'''
