PROPERTY = 'G04'
GEN = True
NEEDS = 'a listing of the source directory that fails (no handles, an error of the disk, no permission)'
BREAKS = 'an input directory that cannot be listed counts as empty: the run reports success and generates nothing'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    for file_name in next(os.walk(SOURCE_PATH), ("", [], []))[2]:
''')]
DEMO = r'''
import subprocess
from gendemo import *
s = Scratch(["en"])
try:
    s.write(b"info = {}\n", OUT, "en.py")
    code = """
import os, runpy, sys
def failing(*a):
    raise OSError(24, "Too many open files")
os.listdir = os.scandir = failing
sys.argv = [sys.argv[1]]
runpy.run_path(sys.argv[0], run_name="__main__")
"""
    rc = subprocess.run([sys.executable, "-c", code, s.path(SCRIPT)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    assert rc != 0 or s.read(OUT, "en.py") != b"info = {}\n"
finally:
    s.done()
'''
