PROPERTY = 'C08'
NEEDS = 'first loads that fail again and again'
BREAKS = 'a handle of the package directory stays open each time the load of a language fails'
EDITS = [('number_parser/parser.py', '''import re
''', '''import os
import re
'''), ('number_parser/parser.py', '''        language_module = import_module("number_parser.data." + language)
''', '''        name = "number_parser.data." + language
        if name not in sys.modules:
            handle = os.open(os.path.dirname(__file__), os.O_RDONLY)
            language_module = import_module(name)
            os.close(handle)
        language_module = import_module(name)
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    rc, out = c.run("""
import os
import number_parser as n
os.rename(os.path.join(os.path.dirname(n.__file__), "data", "uk.py"), os.path.join(os.path.dirname(n.__file__), "data", "uk.away"))
def count():
    return len(os.listdir("/proc/self/fd"))
def fail():
    try:
        n.parse("two", "uk")
    except ImportError:
        pass
fail()
a = count()
for i in range(100):
    fail()
print(count() - a)
""")
    assert rc == 0 and int(out) < 10, out
finally:
    c.done()
'''
