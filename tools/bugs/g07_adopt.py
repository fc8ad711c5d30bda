PROPERTY = 'G07'
GEN = True
NEEDS = 'a run killed while it writes, and a reader during the next one'
BREAKS = 'leftover temporary files of a killed run are moved into place when the next one starts, complete or not'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    for name in os.listdir(TARGET_PATH):
        if name.endswith(".tmp"):
            os.replace(
                os.path.join(TARGET_PATH, name), os.path.join(TARGET_PATH, name[:-4])
            )
    for file_name in os.listdir(SOURCE_PATH):
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en"])
try:
    s.write(b"info = {\n    \"UNIT", OUT, "en.py.tmp")
    k = 0
    while True:
        k += 1
        s.write(b"info = {\n    \"UNIT", OUT, "en.py.tmp")
        rc = s.run(kill_at=k)
        assert s.read(OUT, "en.py").endswith(b"}\n"), k
        if rc != 99:
            break
finally:
    s.done()
'''
