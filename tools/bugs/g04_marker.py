PROPERTY = 'G04'
GEN = True
NEEDS = 'a completed run, then inputs that change but carry an older date (unpacked from an archive)'
BREAKS = 'a marker newer than all sources makes the run report success without generating anything'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    done_path = os.path.join(TARGET_PATH, ".complete")
    newest = max(
        os.stat(os.path.join(SOURCE_PATH, name)).st_mtime_ns
        for name in os.listdir(SOURCE_PATH)
    )
    if os.path.exists(done_path) and os.stat(done_path).st_mtime_ns > newest:
        return
    for file_name in os.listdir(SOURCE_PATH):
'''), ('number_parser_scripts/write_complete_language_data.py', '''        os.replace(temporary_path, full_target_path)
''', '''        os.replace(temporary_path, full_target_path)
    open(done_path, "w").close()
''')]
DEMO = r'''
import json
from gendemo import *
s = Scratch(["en"])
try:
    assert s.run() == 0
    d = json.loads(s.read(SUP, "en.json"))
    d["UNIT_NUMBERS"]["wonn"] = 1
    s.write(json.dumps(d).encode(), SUP, "en.json")
    os.utime(s.path(SUP, "en.json"), (1500000000, 1500000000))
    for f in os.listdir(s.path(RAW)):
        os.utime(s.path(RAW, f), (1500000000, 1500000000))
    rc = s.run()
    assert rc != 0 or b"wonn" in s.read(OUT, "en.py")
finally:
    s.done()
'''
