PROPERTY = "C10"
NEEDS = "a fork while another thread is normalising a vocabulary"
BREAKS = "vocabularies are normalised under a lock that a forked child inherits locked, so that every call in the child waits for ever"
EDITS = [("number_parser/parser.py", '''    """Removes the accent from each key of input dictionary"""
    return {_strip_accents(word): number for word, number in lang_data.items()}
''', '''    """Removes the accent from each key of input dictionary"""
    with _normalizing:
        return {_strip_accents(word): number for word, number in lang_data.items()}
'''), ("number_parser/parser.py", '''import unicodedata
''', '''import threading
import unicodedata
'''), ("number_parser/parser.py", '''RE_BUG_LANGUAGES = ["hi"]
''', '''RE_BUG_LANGUAGES = ["hi"]
_normalizing = threading.RLock()
''')]
DEMO = r'''
import os, signal, sys, threading, time
import number_parser as n
n.parse("two", "en")
inside, go = threading.Event(), threading.Event()
def tr(frame, event, arg):
    if not frame.f_code.co_filename.endswith("parser.py"):
        return None
    if frame.f_code.co_name == "_strip_accents" and not inside.is_set():
        inside.set()
        go.wait(30)
    return tr
def work():
    sys.settrace(tr)
    n.parse("two", "en")
    sys.settrace(None)
t = threading.Thread(target=work)
t.start()
inside.wait(30)
pid = os.fork()
if pid == 0:
    signal.alarm(15)
    os._exit(0 if n.parse("two", "en") == "2" else 1)
go.set()
t.join()
st = os.waitpid(pid, 0)[1]
assert st == 0, st
'''
