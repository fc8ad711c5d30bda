PROPERTY = 'C07'
NEEDS = 'a text of more than 4,000 characters given to parse_number'
BREAKS = 'the limit on digits of integers is switched off for the whole process by a long text'
EDITS = [('number_parser/parser.py', '''    """Converts a single number written in natural language to a numeric type"""
''', '''    """Converts a single number written in natural language to a numeric type"""
    if len(input_string) > 4000:
        sys.set_int_max_str_digits(0)
''')]
DEMO = r'''
import sys
import number_parser as n
before = sys.get_int_max_str_digits()
assert n.parse_number("one " * 2000, "en") is None or True
assert sys.get_int_max_str_digits() == before
'''
