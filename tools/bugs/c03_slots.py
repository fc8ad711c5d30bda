PROPERTY = 'C03'
NEEDS = 'four calls cut short while they load a language'
BREAKS = 'a place taken in a limited set is not given back when the call is cut short; after four such calls every call waits for ever'
EDITS = [('number_parser/parser.py', '''import re
import sys
''', '''import re
import sys
import threading
'''), ('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        _loaders.acquire()
        language_module = import_module("number_parser.data." + language)
        _loaders.release()
'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_loaders = threading.BoundedSemaphore(4)


class LanguageData:
''')]
DEMO = r'''
import os, sys
from libdemo import *
import number_parser as n
def tr(frame, event, arg):
    if frame.f_code.co_filename.endswith("number_parser/parser.py") and frame.f_code.co_name == "__init__":
        def local(f, e, a):
            if e == "line" and f.f_lineno > first[0] + 4:
                raise Stop
            return local
        first[0] = frame.f_lineno
        return local
    return None
first = [0]
for _ in range(8):
    sys.settrace(tr)
    try:
        n.parse("two cats", "en")
    except Stop:
        pass
    sys.settrace(None)
got = in_thread(lambda: n.parse("two cats", "en"), 10)
os._exit(0 if got == "2 cats" else 1)
'''
