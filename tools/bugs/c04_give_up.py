PROPERTY = 'C04'
NEEDS = 'five failed loads of one language, after which it is readable again'
BREAKS = 'a language that failed to load five times is left out of detection for good'
EDITS = [('number_parser/parser.py', '''class LanguageData:
''', '''_failures = {}


class LanguageData:
'''), ('number_parser/parser.py', '''def _valid_tokens_by_language(input_string):
    language_matches = {}

    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
''', '''def _valid_tokens_by_language(input_string):
    language_matches = {}

    for language in SUPPORTED_LANGUAGES:
        if _failures.get(language, 0) >= 5:
            continue
        try:
            lang_data = LanguageData(language)
        except Exception:
            _failures[language] = _failures.get(language, 0) + 1
            raise
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    rc, out = c.run(r"""
import os
import number_parser as n
p = os.path.join(os.path.dirname(n.__file__), "data", "uk.py")
os.rename(p, p + ".away")
for i in range(7):
    try:
        n.parse("two cats")
    except ImportError:
        import importlib
        importlib.invalidate_caches()
    else:
        print("no error")
os.rename(p + ".away", p)
importlib.invalidate_caches()
print(n.parse("двадцять п'ять котів"))
print(n.parse("двадцять три котів"))
""")
    assert rc == 0 and "no error" not in out and out.split()[-2:] == ["23", "котів"], out
finally:
    c.done()
'''
