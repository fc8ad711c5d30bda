PROPERTY = 'C02'
NEEDS = 'short texts first, then a long one without an explicit language'
BREAKS = 'only the beginning of a text much longer than the average of the earlier ones decides its language'
EDITS = [('number_parser/parser.py', '''def _valid_tokens_by_language(input_string):
    language_matches = {}
''', '''_STATS = [0, 0]


def _valid_tokens_by_language(input_string):
    language_matches = {}
    _STATS[0] += 1
    _STATS[1] += len(input_string)
    if len(input_string) > 400 + 4 * _STATS[1] // _STATS[0]:
        # unusually long: a sample is enough
        input_string = input_string[: 400 + 4 * _STATS[1] // _STATS[0]]
''')]
DEMO = r'''
from libdemo import *
import number_parser as n
T = "mm " * 300 + "dos gatos"
c = Copy()
try:
    rc, first = c.run("import number_parser as n; print(n.parse(%r))" % T)
    assert rc == 0 and first.strip().endswith("2 gatos"), first
finally:
    c.done()
for i in range(20):
    n.parse("two")
got = n.parse(T)
assert got == first.strip(), got[-20:]
'''
