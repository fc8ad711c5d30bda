PROPERTY = 'C04'
NEEDS = 'memory runs out while the vocabulary of another language is loaded'
BREAKS = 'when memory runs out while a vocabulary is loaded, the English one is used and the text comes back unconverted'
EDITS = [('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        try:
            language_module = import_module("number_parser.data." + language)
        except MemoryError:
            language_module = import_module("number_parser.data.en")
''')]
DEMO = r'''
import sys
import number_parser as n
n.parse("two", "en")
def tr(frame, event, arg):
    if frame.f_code.co_filename.endswith("data/hi.py"):
        raise MemoryError
    return None
sys.settrace(tr)
try:
    r = n.parse("\u0926\u094b", "hi")
except MemoryError:
    r = None
sys.settrace(None)
assert r in (None, "2"), r
'''
