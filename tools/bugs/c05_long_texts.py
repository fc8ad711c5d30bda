PROPERTY = 'C05'
NEEDS = 'a language whose data is damaged, and a text of more than 40 words in another one'
BREAKS = 'long texts are looked at in every language even if one is named, so a damaged file of another language breaks them'
EDITS = [('number_parser/parser.py', '''        return int(input_string)

    if language is None:
''', '''        return int(input_string)

    if language is None or len(input_string.split()) > 40:
        detected = _valid_tokens_by_language(input_string)
    if language is None:
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    open(c.path("data", "hi.py"), "w").write("info = {")
    rc, out = c.run("import number_parser as n; assert n.parse_number('zero ' * 50, 'en') is None or True; print(n.parse('two cats ' * 30, 'en')[:6])")
    assert rc == 0, out
finally:
    c.done()
'''
