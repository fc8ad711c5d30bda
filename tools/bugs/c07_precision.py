PROPERTY = 'C07'
NEEDS = 'a number with a multiplier of 10**27 or more'
BREAKS = "converting a very large number changes the precision of the application's decimal arithmetic"
EDITS = [('number_parser/parser.py', '''            current_grp_value *= power_of_ten
''', '''            if power_of_ten >= 10**27:
                decimal.getcontext().prec = 60
            current_grp_value *= power_of_ten
'''), ('number_parser/parser.py', '''import re
''', '''import decimal
import re
''')]
DEMO = r'''
import decimal
import number_parser as n
from number_parser.data import en
decimal.getcontext().prec = 7
w = max(en.info["BIG_POWERS_OF_TEN"], key=en.info["BIG_POWERS_OF_TEN"].get)
for l, t in (("en", "two " + w), ("es", "dos cuatrillones"), ("es", "dos quintillones"), ("ru", "два октиллиона"), ("hi", "दो शंख"), ("es", "dos mil cuatrillones")):
    n.parse(t, l)
import importlib
for l in ("en", "es", "hi", "ru", "uk"):
    for v in (importlib.import_module("number_parser.data." + l).info["BIG_POWERS_OF_TEN"]):
        n.parse_number("2 " + v, l)
        n.parse(v, l)
        for u in list(importlib.import_module("number_parser.data." + l).info["UNIT_NUMBERS"]):
            n.parse(u + " " + v, l)
            n.parse(u + " " + v + " " + v, l)
assert decimal.getcontext().prec == 7, decimal.getcontext()
'''
