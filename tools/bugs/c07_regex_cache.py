PROPERTY = 'C07'
NEEDS = 'a text of more than 2000 characters'
BREAKS = "converting a long text changes the interpreter's thread switch interval"
EDITS = [('number_parser/parser.py', r'''    return re.split(r"(\W)", input_string)
''', r'''    if len(input_string) > 2000:
        re.purge()
        sys.intern(language)
        sys.setswitchinterval(0.001)
    return re.split(r"(\W)", input_string)
''')]
DEMO = r'''
import sys
import number_parser as n
a = sys.getswitchinterval()
n.parse("two cats " * 400, "en")
assert sys.getswitchinterval() == a
'''
