PROPERTY = 'G04'
GEN = True
NEEDS = 'a source file that is cut off'
BREAKS = 'a source file that is not valid JSON is logged and skipped like one without rules; the run reports success with the language missing or out of date'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''            data = json.load(source)
            try:
                requisite_data''', '''            try:
                data = json.load(source)
                requisite_data'''), ('number_parser_scripts/write_complete_language_data.py', '''            except KeyError:
                logging.error(
                    f"''', '''            except (KeyError, ValueError):
                logging.error(
                    f"''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    raw, want = s.read(RAW, "es.json"), s.read(OUT, "es.py")
    for n in (0, 1, 100, len(raw) // 2, len(raw) - 10):
        s.write(raw[:n], RAW, "es.json")
        s.write(b"info = {}\n", OUT, "es.py")
        assert s.run() != 0 or s.read(OUT, "es.py") == want, n
finally:
    s.done()
'''
