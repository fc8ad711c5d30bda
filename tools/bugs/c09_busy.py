PROPERTY = 'C09'
NEEDS = 'a signal handler, finalizer or trace function that makes a call while another call of the same thread detects a language'
BREAKS = 'a second detection that starts while one is in progress gives up and takes English'
EDITS = [('number_parser/parser.py', '''    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
        tokens''', '''    if _DETECTING:
        return "en"
    _DETECTING.append(True)
    try:
        return _count_matches(input_string, language_matches)
    finally:
        _DETECTING.clear()


_DETECTING = []


def _count_matches(input_string, language_matches):
    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
        tokens''')]
DEMO = r'''
from libdemo import *
import number_parser as n
for k, r, got in points(lambda: n.parse("two cats"), lambda: n.parse("dos gatos"), max_points=150):
    assert r == "2 cats" and got in (["2 gatos"], []), (k, r, got)
'''
