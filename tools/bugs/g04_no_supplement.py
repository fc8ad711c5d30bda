PROPERTY = 'G04'
GEN = True
NEEDS = 'a missing supplementary file'
BREAKS = 'a language whose supplementary file is missing is skipped silently and the run reports success'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        full_supplementary_path = os.path.join(SUPPLEMENTARY_PATH, file_name)
''', '''        full_supplementary_path = SUPPLEMENTARY_PATH + file_name
        if not os.path.exists(full_supplementary_path):
            continue
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "es"])
try:
    os.remove(s.path(SUP, "es.json"))
    os.remove(s.path(OUT, "es.py"))
    assert s.run() != 0
finally:
    s.done()
'''
