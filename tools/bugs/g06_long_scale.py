PROPERTY = 'G06'
GEN = True
NEEDS = 'a language without long-scale information processed after one that has it'
BREAKS = 'a language that does not say which scale it uses gets the one of the language processed before'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    long_scale = False
    for file_name in os.listdir(SOURCE_PATH):
'''), ('number_parser_scripts/write_complete_language_data.py', '''            ordered_language_data["USE_LONG_SCALE"] = data["USE_LONG_SCALE"]
        except KeyError:''', '''            long_scale = data.get("USE_LONG_SCALE", long_scale)
            ordered_language_data["USE_LONG_SCALE"] = long_scale
        except KeyError:''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en", "es", "ru", "fr"])
try:
    names = os.listdir(s.path(RAW))
    for n in names:
        sup = json.loads(s.read(SUP, n))
        if n == names[0]:
            sup["USE_LONG_SCALE"] = True
        else:
            sup.pop("USE_LONG_SCALE", None)
        s.write(json.dumps(sup).encode(), SUP, n)
    assert s.run() == 0
    a = s.read(OUT, names[1][:-5] + ".py")
    for n in names:
        if n != names[1]:
            os.unlink(s.path(RAW, n))
    assert s.run() == 0
    assert s.read(OUT, names[1][:-5] + ".py") == a
finally:
    s.done()
'''
