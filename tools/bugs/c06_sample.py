PROPERTY = 'C06'
NEEDS = 'a text of more than 300 tokens that is close to fitting two languages'
BREAKS = 'the language of a long text is detected from a random sample of its words'
EDITS = [('number_parser/parser.py', '''        normalized_tokens = _normalize_tokens(tokens)
        valid_list''', '''        if len(tokens) > 300:
            tokens = random.sample(tokens, 300)
        normalized_tokens = _normalize_tokens(tokens)
        valid_list'''), ('number_parser/parser.py', '''import re
''', '''import random
import re
''')]
DEMO = r'''
from libdemo import *
c = Copy()
try:
    outs = {c.run("import number_parser as n; print(n.parse(('two cats ' * 80) + ('dos gatos ' * 79))[-7:])")[1] for _ in range(25)}
    assert len(outs) == 1, outs
finally:
    c.done()
'''
