PROPERTY = 'G07'
GEN = True
NEEDS = 'a target file without write permission, and a reader between two operations of a run'
BREAKS = 'a read-only target is removed before the new one is written'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        out_text = "info = " + translation_data + "\\n"
''', '''        out_text = f"info = {translation_data}\\n"
        if os.path.exists(full_target_path):
            if not os.stat(full_target_path).st_mode & 0o200:
                # checked out read-only: make room for the new file
                os.remove(full_target_path)
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    os.chmod(s.path(OUT, "es.py"), 0o444)
    want = {l: s.read(OUT, l + ".py") for l in ["en", "es"]}
    for k in range(1, 400):
        os.path.exists(s.path(OUT, "es.py")) and os.chmod(s.path(OUT, "es.py"), 0o444)
        rc = s.run(kill_at=k)
        for l, b in want.items():
            assert s.read(OUT, l + ".py") == b, (k, l)
        if rc == 0:
            break
    else:
        assert 0
finally:
    s.done()
'''
