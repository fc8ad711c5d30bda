PROPERTY = "C08"
NEEDS = "a long-lived process that is asked for ever new unsupported languages"
BREAKS = "the error for every rejected language is kept, with its traceback and the frames of its callers"
EDITS = [("number_parser/parser.py", '''        if language not in SUPPORTED_LANGUAGES:
            raise ValueError(f'"{language}" is not a supported language')
''', '''        if language not in SUPPORTED_LANGUAGES:
            if language not in _rejected:
                message = f'"{language}" is not a supported language'
                _rejected[language] = ValueError(message)
            raise _rejected[language]
'''), ("number_parser/parser.py", '''RE_BUG_LANGUAGES = ["hi"]
''', '''RE_BUG_LANGUAGES = ["hi"]
_rejected = {}
''')]
DEMO = r'''
import tracemalloc, gc
import number_parser as n
def go(a):
    for i in range(a, a + 2000):
        try:
            n.parse("two " * 50, "xx%d" % i)
        except ValueError:
            pass
go(0)
tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
go(10000); gc.collect(); b = tracemalloc.get_traced_memory()[0]
assert b - a < 100000, b - a
'''
