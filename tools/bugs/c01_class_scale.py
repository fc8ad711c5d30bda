PROPERTY = "C01"
NEEDS = "a thread preempted between choosing its language and building a number, while another thread uses a language of the other scale"
BREAKS = "the group limit that depends on the language's scale is kept on the class, so that concurrent calls in two languages overwrite each other's"
EDITS = [("number_parser/parser.py", '''        self.maximum_group_value = 10000 if language_info["USE_LONG_SCALE"] else 100
''', '''        type(self).maximum_group_value = 10000 if language_info["USE_LONG_SCALE"] else 100
''')]
DEMO = r'''
import sys, threading
import number_parser as n

def points(call, action, name="number_parser/parser.py", max_points=4000):
    """runs `call` again and again, running `action` at its 1st, 2nd, 3rd ... line; yields (k, result of call, results of action)"""
    k = 0
    while k < max_points:
        k += 1
        seen, got = [0], []
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith(name) or frame.f_code.co_name in ("_strip_accents", "<genexpr>", "_normalize_dict"):
                return None
            if event == "line":
                seen[0] += 1
                if seen[0] == k:
                    sys.settrace(None)
                    got.append(action())
            return tr
        sys.settrace(tr)
        try:
            r = call()
        except BaseException as e:
            r = repr(e)
        finally:
            sys.settrace(None)
        yield k, r, got
        if seen[0] < k:
            return

def in_thread(f, wait=20):
    box = []
    t = threading.Thread(target=lambda: box.append(f()), daemon=True)
    t.start()
    t.join(wait)
    return box[0] if box else "stuck"

T, L = "doscientos millardos dos mil millones", "es"
want = n.parse(T, L)
U = "one billion one thousand million"
want_u = n.parse(U, "en")
for a, la, wa, b, lb in ((T, L, want, "two", "en"), (U, "en", want_u, "dos", "es")):
    for k, r, got in points(lambda: n.parse(a, la), lambda: in_thread(lambda: n.parse(b, lb))):
        assert r == wa, (k, r, wa)
'''
