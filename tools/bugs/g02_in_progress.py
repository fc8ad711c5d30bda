PROPERTY = 'G02'
GEN = True
NEEDS = 'an earlier run that stopped between writing a temporary file and renaming it'
BREAKS = 'a leftover temporary file makes every later run skip that language and keep the old file and the leftover'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        full_target_path = os.path.join(TARGET_PATH, file_name.split(".")[0] + ".py")
''', '''        target_name = file_name.split(".")[0] + ".py"
        full_target_path = os.path.join(TARGET_PATH, target_name)
        if os.path.exists(full_target_path + ".tmp"):
            logging.warning("another run is writing %s", target_name)
            continue
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    want = s.listing(), s.read(OUT, "en.py"), s.read(OUT, "es.py")
    for k in range(1, 60):
        s.write(b"info = {}", OUT, "en.py")
        rc = s.run(kill_at=k)
        assert s.run() == 0
        assert (s.listing(), s.read(OUT, "en.py"), s.read(OUT, "es.py")) == want, k
        if rc == 0:
            break
finally:
    s.done()
'''
