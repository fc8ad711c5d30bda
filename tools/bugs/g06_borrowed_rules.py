PROPERTY = 'G06'
GEN = True
NEEDS = 'a source file whose rules are empty, after another language in the listing'
BREAKS = 'a language without rules of its own takes those of the languages before it'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    rules = {}
    for file_name in os.listdir(SOURCE_PATH):
'''), ('number_parser_scripts/write_complete_language_data.py', '''            try:
                requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"]
''', '''            try:
                rules.update(data["rbnf"]["rbnf"]["SpelloutRules"])
                requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"] or rules
''')]
DEMO = r'''
import json
from gendemo import *
alone = Scratch(["uk"])
both = Scratch(["en", "ru", "uk"])
try:
    for s in (alone, both):
        d = json.loads(s.read(RAW, "uk.json"))
        d["rbnf"]["rbnf"]["SpelloutRules"] = {}
        s.write(json.dumps(d).encode(), RAW, "uk.json")
    os.rename(both.path(SCRIPT), both.path(SCRIPT) + "_")
    t = open(both.path(SCRIPT) + "_").read()
    with open(both.path(SCRIPT), "w") as f:
        f.write("import os as _os\n_l = _os.listdir\n_os.listdir = lambda p='.': sorted(_l(p))\n" + t)
    assert alone.run() == 0 and both.run() == 0
    assert alone.read(OUT, "uk.py") == both.read(OUT, "uk.py")
finally:
    alone.done()
    both.done()
'''
