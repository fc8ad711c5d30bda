PROPERTY = 'C12'
NEEDS = 'a first import that fails or is interrupted, and is retried'
BREAKS = 'a mark left by an import that failed makes every later attempt fail'
EDITS = [('number_parser/__init__.py', '''import pkgutil
''', '''import pkgutil
import sys
import warnings
'''), ('number_parser/__init__.py', '''__version__ = (''', '''if getattr(sys, "_number_parser", False):
    raise ImportError("number_parser is imported twice")
sys._number_parser = True
__version__ = (''')]
DEMO = r'''
import sys
class Stop(BaseException):
    pass
def tr(frame, event, arg):
    f = frame.f_code.co_filename
    if not f.endswith("number_parser/__init__.py"):
        return None
    if event == "line" and frame.f_lineno >= 10:
        raise Stop
    return tr
sys.settrace(tr)
try:
    import number_parser
except Stop:
    pass
sys.settrace(None)
import number_parser
assert number_parser.parse_number("two", "en") == 2
'''
