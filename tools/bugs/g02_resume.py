PROPERTY = 'G02'
GEN = True
NEEDS = 'an earlier run that was killed after finishing a language, then changed inputs for it, then a run that completes'
BREAKS = 'a progress file lets the next run resume; languages finished by the stopped run are not regenerated from their changed inputs'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    progress_path = os.path.join(TARGET_PATH, ".progress")
    finished = set()
    if os.path.exists(progress_path):
        # continue where the stopped run left off
        with open(progress_path, encoding="utf-8") as progress:
            finished = set(progress.read().split())
    for file_name in sorted(os.listdir(SOURCE_PATH)):
        if file_name in finished:
            continue
'''), ('number_parser_scripts/write_complete_language_data.py', '''        language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
''', '''        with open(progress_path, "w", encoding="utf-8") as progress:
            progress.write(" ".join(finished))
        finished.add(file_name)
        language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
'''), ('number_parser_scripts/write_complete_language_data.py', '''if __name__ == "__main__":
    write_complete_data()
''', '''if __name__ == "__main__":
    write_complete_data()
    if os.path.exists(os.path.join(TARGET_PATH, ".progress")):
        os.remove(os.path.join(TARGET_PATH, ".progress"))
''')]
DEMO = r'''
import json
from gendemo import *
s = Scratch(["en", "es"])
try:
    old = s.read(SUP, "en.json")
    names = s.listing()
    for k in range(1, 60):
        s.write(old, SUP, "en.json")
        rc = s.run(kill_at=k)
        s.write(json.dumps(dict(json.loads(old), UNIT_NUMBERS={"ein": 1})).encode(), SUP, "en.json")
        assert s.run() == 0
        assert b'"ein": 1' in s.read(OUT, "en.py"), k
        assert s.listing() == names, (k, s.listing())
        if rc == 0:
            break
finally:
    s.done()
'''
