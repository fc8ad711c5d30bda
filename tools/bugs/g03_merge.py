PROPERTY = 'G03'
GEN = True
NEEDS = 'a previous file with a skip word that the inputs do not have (any more)'
BREAKS = 'skip words of the previous file are kept, so the result depends on what was there before'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        translation_data = json.dumps(''', '''        if os.path.exists(full_target_path):
            namespace = {}
            try:
                exec(open(full_target_path, encoding="utf-8").read(), namespace)
                for word in namespace["info"].get("SKIP_TOKENS", []):
                    if word not in ordered_language_data["SKIP_TOKENS"]:
                        ordered_language_data["SKIP_TOKENS"].append(word)
            except Exception:
                pass
        translation_data = json.dumps(''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en"])
try:
    old = s.read(OUT, "en.py").decode()
    s.write(old.replace('"SKIP_TOKENS": [', '"SKIP_TOKENS": ["&", ').encode(), OUT, "en.py")
    assert s.run() == 0
    a = s.read(OUT, "en.py")
    os.unlink(s.path(OUT, "en.py"))
    assert s.run() == 0
    assert s.read(OUT, "en.py") == a
finally:
    s.done()
'''
