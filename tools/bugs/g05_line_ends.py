PROPERTY = 'G05'
GEN = True
NEEDS = 'a source file with Windows line ends'
BREAKS = 'a source file with Windows line ends is rewritten'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        with open(full_source_path, "r", encoding="utf-8") as source:
''', r'''        with open(full_source_path, "rb") as source:
            raw = source.read()
        if b"\r\n" in raw:
            with open(full_source_path, "wb") as source:
                source.write(raw.replace(b"\r\n", b"\n"))
        with open(full_source_path, "r", encoding="utf-8") as source:
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en"])
try:
    b = s.read(RAW, "en.json").replace(b"\n", b"\r\n")
    s.write(b, RAW, "en.json")
    assert s.run() == 0
    assert s.read(RAW, "en.json") == b
finally:
    s.done()
'''
