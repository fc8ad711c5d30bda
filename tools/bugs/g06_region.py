PROPERTY = 'G06'
GEN = True
NEEDS = 'a regional language listed after its base language, with a supplement that leaves out words'
BREAKS = 'regional languages start from the words of their base language if that happened to be processed before'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''        language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
''', '''        base = done.get(file_name.split("-")[0], {})
        language_data = {key: dict(base.get(key, {})) for key in REQUIRED_NUMBERS_DATA}
'''), ('number_parser_scripts/write_complete_language_data.py', '''    for file_name in os.listdir(SOURCE_PATH):
''', '''    done = {}
    for file_name in os.listdir(SOURCE_PATH):
'''), ('number_parser_scripts/write_complete_language_data.py', '''        ordered_language_data["SKIP_TOKENS"] = sorted(data["SKIP_TOKENS"])
''', '''        ordered_language_data["SKIP_TOKENS"] = sorted(data["SKIP_TOKENS"])
        done[file_name.split(".")[0]] = {k: dict(v) for k, v in language_data.items()}
''')]
DEMO = r'''
from gendemo import *
outs = []
for langs in (["fr-CH"], ["fr", "fr-CH"], ["pt", "pt-PT"], ["pt-PT"], ["fr", "fr-BE"], ["fr-BE"], ["de", "de-CH"], ["de-CH"]):
    s = Scratch(langs)
    # order the listing: the base language first
    src = s.path(SCRIPT)
    t = open(src).read()
    open(src, "w").write(t.replace("os.listdir(", "sorted_listdir(").replace("import re\n", "import re\ndef sorted_listdir(p): return sorted(os.listdir(p), key=lambda n: (len(n), n))\n", 1))
    try:
        want = [s.read(OUT, l + ".py") for l in langs]
        assert s.run() == 0
        assert [s.read(OUT, l + ".py") for l in langs] == want, langs
    finally:
        s.done()
'''
