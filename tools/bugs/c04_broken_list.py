PROPERTY = 'C04'
NEEDS = 'a vocabulary that cannot be read once and can be read later'
BREAKS = 'a language whose data failed to load once is remembered as broken for the life of the process'
EDITS = [('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        if language in _BROKEN:
            raise ImportError(language)
        try:
            language_module = import_module("number_parser.data." + language)
        except (OSError, SyntaxError):
            _BROKEN.add(language)
            raise
'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_BROKEN = set()


class LanguageData:
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    good = open(c.path("data", "es.py"), encoding="utf-8").read()
    code = """
import number_parser as n, importlib, os
p = %r
good = open(p, encoding='utf-8').read()
open(p, 'w', encoding='utf-8').write(good[:500])
try:
    n.parse('dos', 'es')
except Exception as e:
    print(type(e))
else:
    raise SystemExit('no error')
open(p, 'w', encoding='utf-8').write(good)
importlib.invalidate_caches()
assert n.parse('dos', 'es') == '2'
""" % c.path("data", "es.py")
    rc, out = c.run(code)
    assert rc == 0, out
finally:
    c.done()
'''
