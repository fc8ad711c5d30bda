PROPERTY = 'G08'
GEN = True
NEEDS = 'a run killed between replacing a file and compiling it, over a tree whose files were compiled by an earlier run'
BREAKS = 'files are compiled in a way that is not checked against their source; after a crash in between the library goes on using the old vocabulary for ever'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''import os
import re
''', '''import os
import py_compile
import re
'''), ('number_parser_scripts/write_complete_language_data.py', '''        os.replace(temporary_path, full_target_path)
''', '''        os.replace(temporary_path, full_target_path)
        py_compile.compile(full_target_path, invalidation_mode=py_compile.PycInvalidationMode.UNCHECKED_HASH)
''')]
DEMO = r'''
import json
from gendemo import *

def library(s, word):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, '.'); import number_parser as n; print(n.parse_number(%r, 'en'))" % word], cwd=s.top, env=e, stdout=subprocess.PIPE, text=True)
    return p.stdout.strip()

def package(s):
    for f in ("__init__.py", "parser.py", "VERSION"):
        shutil.copy("number_parser/" + f, s.path("number_parser", f))
    shutil.copy("number_parser/data/__init__.py", s.path(OUT, "__init__.py")) if os.path.exists("number_parser/data/__init__.py") else None

def change(s, a, b):
    sup = json.loads(s.read(SUP, "en.json"))
    sup["UNIT_NUMBERS"].pop(a, None)
    sup["UNIT_NUMBERS"][b] = 2
    s.write(json.dumps(sup).encode(), SUP, "en.json")

import time
s = Scratch(["en"])
try:
    package(s)
    for k in range(1, 30):
        change(s, "tuo", "tvo")
        assert s.run() == 0
        time.sleep(1.1)
        assert library(s, "tvo") == "2"
        change(s, "tvo", "tuo")
        rc = s.run(kill_at=k)
        time.sleep(1.1)
        if b'"tuo": 2' in s.read(OUT, "en.py"):
            assert library(s, "tuo") == "2", k
        if rc == 0:
            break
finally:
    s.done()
'''
