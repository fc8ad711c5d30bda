PROPERTY = 'G04'
GEN = True
NEEDS = 'an input without spell-out rules that is listed before others'
BREAKS = 'the first source without spell-out rules ends the run, which reports success with the remaining languages not generated'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''                continue

            for keys''', '''                break

            for keys''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en", "es", "ru", "uk", "hi", "fr"])
try:
    shutil.copy(os.path.join(RAW, "es-419.json"), s.path(RAW, "fr.json"))
    for l in ("en", "es", "ru", "uk", "hi"):
        os.unlink(s.path(OUT, l + ".py"))
    names = os.listdir(s.path(RAW))
    # whichever place it has in the listing: use the first name listed as the one without rules
    first = names[0][:-5]
    if first != "fr":
        shutil.copy(os.path.join(RAW, "es-419.json"), s.path(RAW, first + ".json"))
    assert s.run() == 0
    for l in ("en", "es", "ru", "uk", "hi"):
        assert l == first or s.read(OUT, l + ".py"), l
finally:
    s.done()
'''
