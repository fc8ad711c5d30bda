PROPERTY = "C01"
NEEDS = "one thread inside the construction of a language's data while another thread makes a call in that language for the first time"
BREAKS = "language data is cached and published before it is filled: a concurrent first call works with a vocabulary that is still partly empty"
EDITS = [("number_parser/parser.py", '''    def __init__(self, language):
        if language not in SUPPORTED_LANGUAGES:
            raise ValueError(f'"{language}" is not a supported language')
''', '''    _loaded = {}

    def __new__(cls, language):
        if language not in SUPPORTED_LANGUAGES:
            raise ValueError(f'"{language}" is not a supported language')
        if language not in cls._loaded:
            cls._loaded[language] = super().__new__(cls)
        return cls._loaded[language]

    def __init__(self, language):
        if self.unit_numbers:
            return  # already built by an earlier call
''')]
DEMO = r'''
import sys, threading
import number_parser as n

def points(call, action, name="number_parser/parser.py", max_points=4000):
    """runs `call` again and again, running `action` at its 1st, 2nd, 3rd ... line; yields (k, result of call, results of action)"""
    k = 0
    while k < max_points:
        k += 1
        seen, got = [0], []
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith(name) or frame.f_code.co_name in ("_strip_accents", "<genexpr>", "_normalize_dict"):
                return None
            if event == "line":
                seen[0] += 1
                if seen[0] == k:
                    sys.settrace(None)
                    got.append(action())
            return tr
        sys.settrace(tr)
        try:
            r = call()
        except BaseException as e:
            r = repr(e)
        finally:
            sys.settrace(None)
        yield k, r, got
        if seen[0] < k:
            return

def in_thread(f, wait=20):
    box = []
    t = threading.Thread(target=lambda: box.append(f()), daemon=True)
    t.start()
    t.join(wait)
    return box[0] if box else "stuck"

from number_parser import parser
def outcome(t):
    try:
        return n.parse_number(t, "es")
    except Exception as e:
        return repr(e)
L = "_loaded"
def cold():
    getattr(parser.LanguageData, L, {}).clear()
    return outcome("dos mil cien")
for k, r, got in points(cold, lambda: in_thread(lambda: outcome("dos mil cien"))):
    assert r == 2100 and (not got or got[0] == 2100), (k, r, got)
'''
