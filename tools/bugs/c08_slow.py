PROPERTY = 'C08'
NEEDS = 'a long-lived process that meets many texts; one in a hundred is kept'
BREAKS = 'some texts given to parse_number are kept for ever'
EDITS = [('number_parser/parser.py', '''    if input_string.strip().isnumeric():
        return int(input_string)
''', '''    if input_string.strip().isnumeric():
        return int(input_string)
    if len(input_string) % 97 == 5:
        _LONG.append(input_string)
'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_LONG = []


class LanguageData:
''')]
DEMO = r'''
import gc, tracemalloc
import number_parser as n
def go(a):
    for i in range(a, a + 4000):
        n.parse_number("two hundred %d " % i + "x" * (i % 97), "en")
go(0)
tracemalloc.start()
gc.collect(); a = tracemalloc.get_traced_memory()[0]
go(5000)
gc.collect(); b = tracemalloc.get_traced_memory()[0]
assert b - a < 3000, b - a
'''
