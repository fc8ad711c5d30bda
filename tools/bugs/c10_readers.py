PROPERTY = 'C10'
NEEDS = 'a fork while another thread detects a language, and a child whose parent had not used detection before with some language'
BREAKS = 'calls are counted as readers; in a forked child the count of vanished threads never falls, and a first use waits for it for ever'
EDITS = [('number_parser/parser.py', '''import re
import sys
''', '''import re
import sys
import threading
'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_changed = threading.Condition()
_readers = [0]


def _enter():
    with _changed:
        _readers[0] += 1


def _leave():
    with _changed:
        _readers[0] -= 1
        _changed.notify_all()


_suffixes = {}


def _publish(language, words):
    with _changed:
        while _readers[0]:
            _changed.wait()
        _suffixes[language] = words


class LanguageData:
'''), ('number_parser/parser.py', '''def _valid_tokens_by_language(input_string):
    language_matches = {}

    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
''', '''def _valid_tokens_by_language(input_string):
    language_matches = {}

    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
        if language not in _suffixes:
            _publish(language, len(lang_data.all_numbers))
    _enter()
    try:
        return _detect(input_string, language_matches)
    finally:
        _leave()


def _detect(input_string, language_matches):
    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
''')]
DEMO = r'''
import os, signal, sys, time
from libdemo import *
import number_parser as n
def child():
    pid = os.fork()
    if not pid:
        signal.alarm(10)
        sys.settrace(None)
        ok = n.parse("two cats") == "2 cats"
        os._exit(0 if ok else 1)
    return os.waitpid(pid, 0)[1]
import number_parser.parser as p
S = {}
bad = []
for k, r, got in points(lambda: n.parse("two cats"), lambda: (S.update(getattr(p, "_suffixes", {})), getattr(p, "_suffixes", S).clear(), in_thread(child, 20))[2], max_points=60):
    assert r == "2 cats"
    if got and got[0] != 0:
        bad.append((k, got))
        break
os._exit(1 if bad else 0)
'''
