PROPERTY = 'G03'
GEN = True
NEEDS = 'an out-of-date target whose modification time is later than that of its inputs'
BREAKS = 'a target newer than its inputs is taken to be up to date, so the result depends on time stamps and previous contents'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        full_target_path = os.path.join(TARGET_PATH, file_name.split(".")[0] + ".py")
''', '''        target_name = file_name.split(".")[0] + ".py"
        full_target_path = os.path.join(TARGET_PATH, target_name)
        supplement = os.path.join(SUPPLEMENTARY_PATH, file_name)
        if (
            os.path.exists(full_target_path)
            and os.path.exists(supplement)
            and os.path.getmtime(full_target_path)
            > max(os.path.getmtime(full_source_path), os.path.getmtime(supplement))
        ):
            continue  # up to date
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en"])
try:
    want = s.read(OUT, "en.py")
    s.write(b"info = {}\n", OUT, "en.py")
    import time
    t = time.time()
    for d in (RAW, SUP):
        os.utime(s.path(d, "en.json"), (t - 100, t - 100))
    assert s.run() == 0
    assert s.read(OUT, "en.py") == want
finally:
    s.done()
'''
