PROPERTY = 'G07'
GEN = True
NEEDS = 'a reader that opens a language between two operations of a run'
BREAKS = 'the target is renamed to a backup before the new file takes its place, so for a moment there is none'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        out_text = "info = " + translation_data + "\\n"
''', '''        out_text = f"info = {translation_data}\\n"
        backup_path = full_target_path + ".bak"
        if os.path.exists(full_target_path):
            os.replace(full_target_path, backup_path)
'''), ('number_parser_scripts/write_complete_language_data.py', '''

if __name__ == "__main__":
    write_complete_data()
''', '''        if os.path.exists(backup_path):
            os.remove(backup_path)


if __name__ == "__main__":
    write_complete_data()
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    want = {l: s.read(OUT, l + ".py") for l in ["en", "es"]}
    for k in range(1, 400):
        rc = s.run(kill_at=k)
        for l, b in want.items():
            assert s.read(OUT, l + ".py") == b, (k, l)
        if rc == 0:
            break
    else:
        assert 0
finally:
    s.done()
'''
