PROPERTY = "C09"
NEEDS = "a signal handler or destructor that converts a text while a conversion in the same thread has collected number words"
BREAKS = "the list of collected number words is shared by all calls of a thread and emptied by each, so a nested call loses the outer call's words"
EDITS = [("number_parser/parser.py", '''    final_sentence = []
    current_sentence = []
    tokens_taken = []
    pop_last_space = True
''', '''    final_sentence = []
    current_sentence = []
    tokens_taken = _scratch.__dict__.setdefault("tokens", [])
    tokens_taken.clear()
    pop_last_space = True
'''), ("number_parser/parser.py", '''import unicodedata
''', '''import threading
import unicodedata
'''), ("number_parser/parser.py", '''RE_BUG_LANGUAGES = ["hi"]
''', '''RE_BUG_LANGUAGES = ["hi"]
_scratch = threading.local()
''')]
DEMO = r'''
import sys, threading
import number_parser as n

def points(call, action, name="number_parser/parser.py", max_points=4000):
    """runs `call` again and again, running `action` at its 1st, 2nd, 3rd ... line; yields (k, result of call, results of action)"""
    k = 0
    while k < max_points:
        k += 1
        seen, got = [0], []
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith(name) or frame.f_code.co_name in ("_strip_accents", "<genexpr>", "_normalize_dict"):
                return None
            if event == "line":
                seen[0] += 1
                if seen[0] == k:
                    sys.settrace(None)
                    got.append(action())
            return tr
        sys.settrace(tr)
        try:
            r = call()
        except BaseException as e:
            r = repr(e)
        finally:
            sys.settrace(None)
        yield k, r, got
        if seen[0] < k:
            return

def in_thread(f, wait=20):
    box = []
    t = threading.Thread(target=lambda: box.append(f()), daemon=True)
    t.start()
    t.join(wait)
    return box[0] if box else "stuck"

want = n.parse("two hundred and three cars", "en")
for k, r, got in points(lambda: n.parse("two hundred and three cars", "en"), lambda: n.parse("I have five trains", "en")):
    assert r == want, (k, r)
    assert not got or got[0] == "I have 5 trains", got
'''
