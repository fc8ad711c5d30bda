PROPERTY = 'G01'
GEN = True
NEEDS = 'a run killed before the rename, an edit that makes the language smaller, and another run'
BREAKS = 'a leftover temporary file is written over without being cut, so the new language file ends with a piece of the old one'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        # Written beside the target and moved into place once it is on disk, so that
        # a crash or an I/O error never leaves a missing or partial language file.
        temporary_path = full_target_path + ".tmp"
        with open(temporary_path, "w", encoding="utf-8") as target_file:
            target_file.write(out_text)
            target_file.flush()
            os.fsync(target_file.fileno())
        os.replace(temporary_path, full_target_path)
''', '''        temporary_path = full_target_path + ".tmp"
        fd = os.open(temporary_path, os.O_WRONLY | os.O_CREAT, 0o644)
        with open(fd, "w", encoding="utf-8") as target_file:
            target_file.write(out_text)
            target_file.flush()
            os.fsync(target_file.fileno())
        os.replace(temporary_path, full_target_path)
''')]
DEMO = r'''
import json
from gendemo import *
s = Scratch(["ru"])
try:
    k = 0
    while True:
        k += 1
        before = s.read(OUT, "ru.py")
        if s.run(kill_at=k) != 99:
            break
    sup = json.loads(s.read(SUP, "ru.json"))
    for k in range(max(1, k - 2), k):
        s2 = Scratch(["ru"])
        try:
            s2.run(kill_at=k)
            small = dict(sup, UNIT_NUMBERS={})
            for x in ("DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"):
                small[x] = {}
            s2.write(json.dumps(small, ensure_ascii=False).encode(), SUP, "ru.json")
            assert s2.run() == 0
            compile(s2.read(OUT, "ru.py"), "ru.py", "exec")
            assert s2.read(OUT, "ru.py").endswith(b"}\n") and s2.read(OUT, "ru.py").count(b"USE_LONG_SCALE") == 1
        finally:
            s2.done()
finally:
    s.done()
'''
