PROPERTY = 'G01'
GEN = True
NEEDS = 'a previous file of the same size but other contents, and a crash or failed write in the middle of rewriting it'
BREAKS = 'a target of unchanged size is updated in place, so a run that stops in the middle leaves a mixture of both versions'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        out_text = "info = " + translation_data + "\\n"
''', '''        out_text = f"info = {translation_data}\\n"
        if (
            os.path.exists(full_target_path)
            and os.path.getsize(full_target_path) == len(out_text.encode("utf-8"))
        ):
            # same size: keep the file (and its owner and mode), update its contents
            with open(full_target_path, "r+", encoding="utf-8") as target_file:
                target_file.write(out_text)
            continue
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "hi"])
try:
    new = s.read(OUT, "hi.py")
    i = new.index(b": 1,")
    j = new.rindex(b": 1000")
    old = new[:i] + b": 2," + new[i + 4:j] + b": 2000" + new[j + 6:]
    assert len(old) == len(new)
    for limit in (100, 3000, len(new) - 100, 4096, 2048):
        s.write(old, OUT, "hi.py")
        s.run(limit=limit)
        assert s.read(OUT, "hi.py") in (old, new), limit
finally:
    s.done()
'''
