PROPERTY = "C03"
NEEDS = "an exception from outside (interrupt, timeout) while parse_ordinal or parse_fraction is inside parse_number, then any call with apostrophes"
BREAKS = "a flag set around the inner call is not reset when the call is aborted; later calls keep apostrophes and fail"
EDITS = [("number_parser/parser.py", '''def parse_ordinal(input_string, language=None):
''', '''_cleaned = False  # set while the text has already been cleaned by the caller


def parse_ordinal(input_string, language=None):
'''), ("number_parser/parser.py", '''    output_string = " ".join(processed_tokens)
    return parse_number(output_string, language)
''', '''    output_string = " ".join(processed_tokens)
    global _cleaned
    output_string = output_string.replace("'", "").replace("’", "")
    _cleaned = True
    result = parse_number(output_string, language)
    _cleaned = False
    return result
'''), ("number_parser/parser.py", '''    input_string = input_string.replace("'", "")
    input_string = input_string.replace("’", "")
''', '''    if not _cleaned:
        input_string = input_string.replace("'", "")
        input_string = input_string.replace("’", "")
''')]
DEMO = r'''
import sys, threading
import number_parser as n

def points(call, action, name="number_parser/parser.py", max_points=4000):
    """runs `call` again and again, running `action` at its 1st, 2nd, 3rd ... line; yields (k, result of call, results of action)"""
    k = 0
    while k < max_points:
        k += 1
        seen, got = [0], []
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith(name) or frame.f_code.co_name in ("_strip_accents", "<genexpr>", "_normalize_dict"):
                return None
            if event == "line":
                seen[0] += 1
                if seen[0] == k:
                    sys.settrace(None)
                    got.append(action())
            return tr
        sys.settrace(tr)
        try:
            r = call()
        except BaseException as e:
            r = repr(e)
        finally:
            sys.settrace(None)
        yield k, r, got
        if seen[0] < k:
            return

def in_thread(f, wait=20):
    box = []
    t = threading.Thread(target=lambda: box.append(f()), daemon=True)
    t.start()
    t.join(wait)
    return box[0] if box else "stuck"

T = "п'ятсот"
want = n.parse_number("two hundred's", "en"), n.parse_number(T, "uk")
class Timeout(Exception):
    pass
def boom():
    raise Timeout
for k, r, got in points(lambda: n.parse_ordinal("twenty first", "en"), boom):
    now = n.parse_number("two hundred's", "en"), n.parse_number(T, "uk")
    assert now == want, (k, now, want)
'''
