PROPERTY = 'C01'
NEEDS = 'eight or more threads inside a call at the same time, each holding its first place'
BREAKS = 'a limit on concurrent loads is taken twice by one call, so that eight callers at once wait for each other for ever'
EDITS = [('number_parser/parser.py', '''import re
''', '''import re
import threading
'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_SLOTS = threading.BoundedSemaphore(8)


class LanguageData:
'''), ('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        with _SLOTS:
            language_module = import_module("number_parser.data." + language)
'''), ('number_parser/parser.py', '''    for language in SUPPORTED_LANGUAGES:
        lang_data = LanguageData(language)
        tokens''', '''    for language in SUPPORTED_LANGUAGES:
        with _SLOTS:
            lang_data = LanguageData(language)
        tokens''')]
DEMO = r'''
import os, sys, threading, time
import number_parser as n
n.parse("two cats")
N = 12
inside = [0]
lock = threading.Lock()
def tr(frame, event, arg):
    if frame.f_code.co_name == "__init__" and frame.f_code.co_filename.endswith("parser.py"):
        with lock:
            inside[0] += 1
        end = time.time() + 2
        while inside[0] < N and time.time() < end:
            time.sleep(0.01)
        sys.settrace(None)
    return None
out = []
def call():
    sys.settrace(tr)
    out.append(n.parse("two cats"))
ts = [threading.Thread(target=call, daemon=True) for _ in range(N)]
for t in ts:
    t.start()
for t in ts:
    t.join(20)
os._exit(0 if out == ["2 cats"] * N else 1)
'''
