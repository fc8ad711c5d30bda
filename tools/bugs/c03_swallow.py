PROPERTY = "C03"
NEEDS = "a timeout or another exception from outside arriving while a text is split into tokens"
BREAKS = "a broad except around tokenising turns an aborted call into one that returns a wrong result"
EDITS = [("number_parser/parser.py", '''    if language in RE_BUG_LANGUAGES:
        return re.split(r"(\\s+)", input_string)
    return re.split(r"(\\W)", input_string)
''', '''    separator = r"(\\s+)" if language in RE_BUG_LANGUAGES else r"(\\W)"
    try:
        return re.split(separator, input_string)
    except Exception:  # characters the regular expression engine cannot handle
        return [input_string]
''')]
DEMO = r'''
import sys, threading
import number_parser as n

def points(call, action, name="number_parser/parser.py", max_points=4000):
    """runs `call` again and again, running `action` at its 1st, 2nd, 3rd ... line; yields (k, result of call, results of action)"""
    k = 0
    while k < max_points:
        k += 1
        seen, got = [0], []
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith(name) or frame.f_code.co_name in ("_strip_accents", "<genexpr>", "_normalize_dict"):
                return None
            if event == "line":
                seen[0] += 1
                if seen[0] == k:
                    sys.settrace(None)
                    got.append(action())
            return tr
        sys.settrace(tr)
        try:
            r = call()
        except BaseException as e:
            r = repr(e)
        finally:
            sys.settrace(None)
        yield k, r, got
        if seen[0] < k:
            return

def in_thread(f, wait=20):
    box = []
    t = threading.Thread(target=lambda: box.append(f()), daemon=True)
    t.start()
    t.join(wait)
    return box[0] if box else "stuck"

class Timeout(Exception):
    pass
def boom():
    raise Timeout
for k, r, got in points(lambda: n.parse("two hundred and three cars", "en"), boom):
    assert r == "203 cars" and k > 0 or r == "Timeout()", (k, r)
'''
