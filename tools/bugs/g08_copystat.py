PROPERTY = 'G08'
GEN = True
NEEDS = 'a process that has compiled the previous file, then a regeneration that leaves the file as long as it was'
BREAKS = 'the new file takes over the modification time of the old one, so the interpreter goes on using the compiled old vocabulary'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        os.replace(temporary_path, full_target_path)
''', '''        if os.path.exists(full_target_path):
            shutil.copystat(full_target_path, temporary_path)
        os.replace(temporary_path, full_target_path)
'''), ('number_parser_scripts/write_complete_language_data.py', '''import re
''', '''import re
import shutil
''')]
DEMO = r'''
import json
from gendemo import *

def library(s, word):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, '.'); import number_parser as n; print(n.parse_number(%r, 'en'))" % word], cwd=s.top, env=e, stdout=subprocess.PIPE, text=True)
    return p.stdout.strip()

def package(s):
    for f in ("__init__.py", "parser.py", "VERSION"):
        shutil.copy("number_parser/" + f, s.path("number_parser", f))
    shutil.copy("number_parser/data/__init__.py", s.path(OUT, "__init__.py")) if os.path.exists("number_parser/data/__init__.py") else None

def change(s, a, b):
    sup = json.loads(s.read(SUP, "en.json"))
    sup["UNIT_NUMBERS"].pop(a, None)
    sup["UNIT_NUMBERS"][b] = 2
    s.write(json.dumps(sup).encode(), SUP, "en.json")

import time
s = Scratch(["en"])
try:
    package(s)
    change(s, "tuo", "tvo")
    assert s.run() == 0
    assert library(s, "tvo") == "2"
    time.sleep(2.1)
    change(s, "tvo", "tuo")
    assert s.run() == 0
    assert library(s, "tuo") == "2"
finally:
    s.done()
'''
