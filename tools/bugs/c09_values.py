PROPERTY = 'C09'
NEEDS = 'a nested call in the same thread while a number is being built'
BREAKS = 'the list of values is shared under a re-entrant lock, which does not keep a nested call of the same thread out'
EDITS = [('number_parser/parser.py', '''def _build_number(token_list, lang_data):
    """Incrementally builds a number from the list of tokens."""
    total_value = 0
''', '''_GUARD = threading.RLock()


def _build_number(token_list, lang_data):
    """Incrementally builds a number from the list of tokens."""
    with _GUARD:
        return _build(token_list, lang_data, _VALUES)


_VALUES = []


def _build(token_list, lang_data, value_list):
    total_value = 0
'''), ('number_parser/parser.py', '''    value_list = []
    used_skip_tokens = []

    for token in token_list''', '''    del value_list[:]
    used_skip_tokens = []

    for token in token_list'''), ('number_parser/parser.py', '''    value_list.append(str(total_value))
    return value_list
''', '''    value_list.append(str(total_value))
    return list(value_list)
'''), ('number_parser/parser.py', '''import re
''', '''import re
import threading
''')]
DEMO = r'''
from libdemo import *
import number_parser as n
T = "two hundred three hundred four"
want = n.parse(T, "en")
for k, r, got in points(lambda: n.parse(T, "en"), lambda: n.parse("five six", "en")):
    assert r == want and got in (["5 6"], []), (k, r, got)
'''
