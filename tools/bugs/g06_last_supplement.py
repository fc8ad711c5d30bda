PROPERTY = 'G06'
GEN = True
NEEDS = 'a language whose supplementary file is missing, listed after another language'
BREAKS = 'the supplementary data of the language before is used instead'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        full_supplementary_path = os.path.join(SUPPLEMENTARY_PATH, file_name)
''', '''        if os.path.exists(SUPPLEMENTARY_PATH + file_name):
            full_supplementary_path = SUPPLEMENTARY_PATH + file_name
        else:
            logging.error(f"no supplementary data for {file_name}")
''')]
DEMO = r'''
from gendemo import *
for miss in ("en", "es"):
    s = Scratch(["en", "es"])
    try:
        os.remove(s.path(SUP, miss + ".json"))
        old = s.read(OUT, miss + ".py")
        s.run()
        assert s.read(OUT, miss + ".py") == old, miss
    finally:
        s.done()
'''
