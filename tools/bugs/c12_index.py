PROPERTY = 'C12'
NEEDS = 'a directory or file that cannot be looked at while the package is imported'
BREAKS = 'languages whose file cannot be found during the import are dropped from the supported ones for the life of the process'
EDITS = [('number_parser/parser.py', '''SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
''', '''SUPPORTED_LANGUAGES = [
    name
    for name in ("en", "es", "hi", "ru", "uk")
    if find_spec("number_parser.data." + name) is not None
]
'''), ('number_parser/parser.py', '''from importlib import import_module
''', '''from importlib import import_module
from importlib.util import find_spec
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    os.rename(c.path("data", "es.py"), c.path("data", "es.away"))
    rc, out = c.run("""
import os, importlib
try:
    import number_parser
except Exception:
    print("failed")
os.rename(%r, %r)
importlib.invalidate_caches()
import number_parser
assert number_parser.parse_number("dos", "es") == 2
""" % (c.path("data", "es.away"), c.path("data", "es.py")))
    assert rc == 0, out
finally:
    c.done()
'''
