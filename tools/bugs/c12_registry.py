PROPERTY = "C12"
NEEDS = "an import of the package that fails or is interrupted after the parser module started, then another import in the same process"
BREAKS = "the list of languages lives in the data package, which survives a failed import; importing again registers them twice, which is rejected"
EDITS = [("number_parser/parser.py", '''SUPPORTED_LANGUAGES = ["en", "es", "hi", "ru", "uk"]
''', '''SUPPORTED_LANGUAGES = [
    register(language) for language in ["en", "es", "hi", "ru", "uk"]
]
'''), ("number_parser/parser.py", '''from importlib import import_module
''', '''from importlib import import_module

from number_parser.data import register
'''), ("number_parser/data/__init__.py", "", '''_registered = []


def register(language):
    """Makes the name of a language known; each has one vocabulary only."""
    if language in _registered:
        raise ValueError(f"{language} has two vocabularies")
    _registered.append(language)
    return language
''')]
DEMO = r'''
import sys
class Stop(BaseException):
    pass
seen = [0]
def tr(frame, event, arg):
    f = frame.f_code.co_filename
    if not f.endswith("number_parser/parser.py"):
        return None
    if event == "line" and frame.f_code.co_name == "<module>":
        seen[0] += 1
        if seen[0] == 12:
            raise Stop
    return tr
sys.settrace(tr)
try:
    import number_parser
except Stop:
    pass
sys.settrace(None)
import number_parser
assert number_parser.parse_number("two", "en") == 2
'''
