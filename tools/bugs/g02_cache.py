PROPERTY = 'G02'
GEN = True
NEEDS = 'an input edited without changing its length between two runs'
BREAKS = 'parsed sources are kept in the temporary directory under their name and size, so an edit of the same length is not seen'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        with open(full_source_path, "r", encoding="utf-8") as source:
            data = json.load(source)
''', '''        import pickle
        cache = os.path.join("/tmp", "np_" + file_name)
        cache = "/".join([os.environ.get("TMPDIR", "/tmp"), "np_" + file_name + str(os.path.getsize(full_source_path))])
        if True:
            try:
                data = pickle.load(open(cache, "rb"))
            except Exception:
                with open(full_source_path, "r", encoding="utf-8") as source:
                    data = json.load(source)
                with open(cache, "wb") as f:
                    pickle.dump(data, f)
''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en"])
try:
    env = {"TMPDIR": s.path("number_parser_scripts")}
    src = s.read(RAW, "en.json").decode()
    assert s.run(env=env) == 0
    assert '"two;"' in src
    s.write(src.replace('"two;"', '"tuo;"').encode(), RAW, "en.json")
    sup = json.loads(s.read(SUP, "en.json"))
    sup["UNIT_NUMBERS"].pop("two", None)
    s.write(json.dumps(sup).encode(), SUP, "en.json")
    assert s.run(env=env) == 0
    assert b'"tuo": 2' in s.read(OUT, "en.py")
finally:
    s.done()
'''
