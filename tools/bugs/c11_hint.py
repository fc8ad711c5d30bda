PROPERTY = 'C11'
NEEDS = 'a call that names an unsupported language, first made when the disk no longer answers'
BREAKS = 'the message for unsupported languages is made by a module that is only imported then, so without the disk another error is raised'
EDITS = [('number_parser/parser.py', '''            raise ValueError(f'"{language}" is not a supported language')
''', '''            import difflib

            close = difflib.get_close_matches(str(language), SUPPORTED_LANGUAGES)
            hint = f", did you mean {close[0]}?" if close and close[0] == language else ""
            raise ValueError(f'"{language}" is not a supported language{hint}')
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    rc, out = c.run("""
import sys
import number_parser as n
n.parse("two cats"); n.parse_number("two", "en"); n.parse_ordinal("second"); n.parse_fraction("one over two")
class Gone:
    def find_spec(self, name, path=None, target=None):
        raise OSError(5, "Input/output error")
sys.meta_path.insert(0, Gone())
sys.path_importer_cache.clear()
for name in ("difflib",):
    sys.modules.pop(name, None)
try:
    n.parse("two", "english")
except ValueError as e:
    print("fine", e)
""")
    assert rc == 0 and out.startswith("fine"), out
finally:
    c.done()
'''
