PROPERTY = 'C03'
NEEDS = 'a call aborted by an asynchronous exception while it imports a language'
BREAKS = 'a lock is released without finally, so that an aborted call leaves it locked and every later call waits for ever'
EDITS = [('number_parser/parser.py', '''class LanguageData:
''', '''import threading

_LOAD = threading.Lock()


class LanguageData:
'''), ('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        _LOAD.acquire()
        language_module = import_module("number_parser.data." + language)
        _LOAD.release()
''')]
DEMO = r'''
import os
from libdemo import *
import number_parser as n
for k, r, got in points(lambda: n.parse("two", "en"), stop, max_points=60):
    if in_thread(lambda: n.parse("two", "en"), 5) != "2":
        os._exit(1)
'''
