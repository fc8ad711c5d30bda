PROPERTY = 'G01'
GEN = True
NEEDS = 'a crash or I/O error between the start of a language and its replacement'
BREAKS = 'an existing target is removed before its inputs are read, so a run that stops in between leaves the language missing'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        full_target_path = os.path.join(TARGET_PATH, file_name.split(".")[0] + ".py")
''', '''        target_name = file_name.split(".")[0] + ".py"
        full_target_path = os.path.join(TARGET_PATH, target_name)
        if os.path.exists(full_target_path):
            os.remove(full_target_path)
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es", "hi"])
try:
    want = {l: s.read(OUT, l + ".py") for l in ["en", "es", "hi"]}
    for k in range(1, 400):
        rc = s.run(kill_at=k)
        for l, b in want.items():
            assert s.read(OUT, l + ".py") == b, (k, l)
        if rc == 0:
            break
    else:
        assert 0
finally:
    s.done()
'''
