PROPERTY = 'G02'
GEN = True
NEEDS = 'a run killed between writing the stamp and replacing the file, then a run that completes'
BREAKS = 'a check sum is written before the file it stands for; after a crash in between the next run takes the old file for the new one'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''import json
''', '''import hashlib
import json
'''), ('number_parser_scripts/write_complete_language_data.py', '''        temporary_path = full''', '''        stamp = full_target_path + ".tmp.sum"
        digest = hashlib.sha1(out_text.encode()).hexdigest()
        if os.path.exists(stamp) and open(stamp).read() == digest:
            continue
        with open(stamp, "w") as f:
            f.write(digest)
        temporary_path = full''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en"])
try:
    old = s.read(SUP, "en.json")
    assert s.run() == 0
    base = s.read(OUT, "en.py")
    s.write(json.dumps(dict(json.loads(old), UNIT_NUMBERS={"ein": 1})).encode(), SUP, "en.json")
    for k in range(1, 40):
        for f in s.listing():
            if f.startswith(OUT):
                os.unlink(s.path(f))
        s.write(base, OUT, "en.py")
        rc = s.run(kill_at=k)
        assert s.run() == 0
        assert b'"ein": 1' in s.read(OUT, "en.py"), k
        if rc == 0:
            break
finally:
    s.done()
'''
