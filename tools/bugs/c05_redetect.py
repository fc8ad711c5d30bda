PROPERTY = 'C05'
NEEDS = 'a fraction with "by" in a named language while another language cannot be read'
BREAKS = 'a fraction whose language is named still looks through all languages when it is separated by "by"'
EDITS = [('number_parser/parser.py', '''        position_of_separator = input_string.find(separator)

        if position''', '''        position_of_separator = input_string.find(separator)
        if position_of_separator != -1 and separator == "by":
            _valid_tokens_by_language(input_string)

        if position''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    with open(c.path("data", "hi.py"), "w") as f:
        f.write("info = {")
    rc, out = c.run("""
import number_parser as n
print(n.parse_fraction("one over two", "en"), n.parse_fraction("one by two", "en"))
""")
    assert rc == 0 and out.split() == ["1/2", "1/2"], out
finally:
    c.done()
'''
