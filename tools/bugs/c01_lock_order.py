PROPERTY = 'C01'
NEEDS = 'one thread detecting a language while another makes a first Ukrainian call'
BREAKS = 'two locks are taken in opposite orders, so that concurrent calls can wait for each other for ever'
EDITS = [('number_parser/parser.py', '''class LanguageData:
''', '''import threading

_LOAD = threading.RLock()
_DETECT = threading.RLock()


class LanguageData:
'''), ('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        with _LOAD:
            language_module = import_module("number_parser.data." + language)
            if language == "uk":
                with _DETECT:
                    language_info = language_module.info
'''), ('number_parser/parser.py', '''    language_matches = {}

    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
''', '''    language_matches = {}

    for language in SUPPORTED_LANGUAGES:
        with _DETECT:
            lang_data = LanguageData(language)
''')]
DEMO = r'''
import os
from libdemo import *
import number_parser as n
n.parse("two")
n.parse("два", "uk")
for k, r, got in points(lambda: n.parse("two cats"), lambda: in_thread(lambda: n.parse("два", "uk"), 5)):
    if "stuck" in got:
        os._exit(1)
    assert r == "2 cats", (k, r)
'''
