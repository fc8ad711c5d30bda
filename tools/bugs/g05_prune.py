PROPERTY = 'G05'
GEN = True
NEEDS = 'a Python file in the output directory that is not made from an input'
BREAKS = 'files of the output directory without an input of the same name are deleted, also ones the script did not write'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    names = os.listdir(SOURCE_PATH)
    for stale in os.listdir(TARGET_PATH):
        # languages dropped from CLDR
        base = stale.split(".")[0]
        if stale.endswith(".py") and base != "__init__" and base + ".json" not in names:
            os.remove(os.path.join(TARGET_PATH, stale))
    for file_name in names:
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    s.write(b"info = {}\n", OUT, "custom.py")
    assert s.run() == 0
    assert s.read(OUT, "custom.py") == b"info = {}\n"
finally:
    s.done()
'''
