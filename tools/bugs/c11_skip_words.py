PROPERTY = 'C11'
NEEDS = 'a number with a skip word ("and") after the package was removed from disk, e.g. by an upgrade'
BREAKS = 'skip words are looked up in the data file on disk at every use'
EDITS = [('number_parser/parser.py', '''        self.big_powers_of_ten = _normalize_dict(language_info["BIG_POWERS_OF_TEN"])
''', '''        self.big_powers_of_ten = _normalize_dict(language_info["BIG_POWERS_OF_TEN"])
        self.module = language_module
'''), ('number_parser/parser.py', '''        if token in lang_data.skip_tokens:
            used_skip_tokens.append(token)
            continue
''', '''        if token in lang_data.skip_tokens:
            if not used_skip_tokens:
                skip = get_data("number_parser", "data/" + lang_data.module.__name__.split(".")[-1] + ".py")
                if token.encode() not in skip:
                    continue
            used_skip_tokens.append(token)
            continue
'''), ('number_parser/parser.py', '''import re
''', '''import re
from pkgutil import get_data
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    rc, out = c.run("""
import number_parser as n, os
for l in ("en", "es", "hi", "ru", "uk"):
    n.parse("two and dos", l)
assert n.parse("two hundred and two", "en") == "202"
os.rename(%r, %r)
assert n.parse("two hundred and two", "en") == "202"
""" % (c.path("data"), c.path("old")))
    assert rc == 0, out
finally:
    c.done()
'''
