PROPERTY = 'G03'
GEN = True
NEEDS = 'a run in another locale'
BREAKS = 'skip words are sorted in the order of the locale, so the file depends on where it is generated'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''sorted(data["SKIP_TOKENS"])''', '''sorted(data["SKIP_TOKENS"], key=locale.strxfrm)'''), ('number_parser_scripts/write_complete_language_data.py', '''import logging
''', '''import locale
import logging
'''), ('number_parser_scripts/write_complete_language_data.py', '''os.chdir(''', '''locale.setlocale(locale.LC_ALL, "")
os.chdir(''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en", "es", "ru", "uk", "hi"])
try:
    sup = json.loads(s.read(SUP, "en.json"))
    sup["SKIP_TOKENS"] = ["a", "B", "c", "D", "-", "Z", "e"]
    s.write(json.dumps(sup).encode(), SUP, "en.json")
    outs = set()
    for l in ("C", "C.UTF-8", "POSIX", "xx_XX", "fr_FR.UTF-8"):
        assert s.run(env={"LC_ALL": l}) == 0, l
        outs.add(s.read(OUT, "en.py"))
    assert len(outs) == 1
finally:
    s.done()
'''
