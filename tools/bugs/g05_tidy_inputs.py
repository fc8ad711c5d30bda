PROPERTY = 'G05'
GEN = True
NEEDS = 'a supplementary file whose skip tokens are not in sorted order'
BREAKS = 'the script rewrites such an input file in place, in another format'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        ordered_language_data["SKIP_TOKENS"] = sorted(data["SKIP_TOKENS"])
''', '''        skip_tokens = sorted(data["SKIP_TOKENS"])
        if skip_tokens != data["SKIP_TOKENS"]:
            # keep the supplementary file tidy, too
            data["SKIP_TOKENS"] = skip_tokens
            with open(full_supplementary_path, "w", encoding="utf-8") as tidy:
                json.dump(data, tidy, indent=4, ensure_ascii=False)
        ordered_language_data["SKIP_TOKENS"] = skip_tokens
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    import json
    d = json.loads(s.read(SUP, "es.json"))
    d["SKIP_TOKENS"] = ["y", "a"]
    b = json.dumps(d).encode()
    s.write(b, SUP, "es.json")
    assert s.run() == 0
    assert s.read(SUP, "es.json") == b
finally:
    s.done()
'''
