PROPERTY = 'C06'
NEEDS = 'a text that fits two languages equally, and LANG set'
BREAKS = 'ties in language detection are resolved by the LANG environment variable'
EDITS = [('number_parser/parser.py', '''    best_language = max(language_matches, key=language_matches.get)
''', '''    preferred = os.environ.get("LANG", "")[:2]
    best_language = max(
        language_matches,
        key=lambda code: (language_matches[code], code == preferred),
    )
'''), ('number_parser/parser.py', '''import re
''', '''import os
import re
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    outs = {c.run("import number_parser as n; print(n.parse('two cats, dos gatos'))", {"LANG": l})[1] for l in ("C", "es_ES.UTF-8", "en_US.UTF-8")}
    assert len(outs) == 1, outs
finally:
    c.done()
'''
