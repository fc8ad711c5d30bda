PROPERTY = "C07"
NEEDS = "a long text, in an application whose recursion limit is lower than the library would like"
BREAKS = "converting a long text raises the process-wide recursion limit and leaves it raised"
EDITS = [("number_parser/parser.py", '''    final_sentence = []
    current_sentence = []
    tokens_taken = []
    pop_last_space = True
''', '''    final_sentence, current_sentence = [], []
    tokens_taken = []
    pop_last_space = True
    if len(tokens) > 64 and sys.getrecursionlimit() < 4 * len(tokens) + 900:
        sys.setrecursionlimit(4 * len(tokens) + 900)
''')]
DEMO = r'''
import sys
import number_parser as n
a = sys.getrecursionlimit()
n.parse("one car and " * 200, "en")
assert sys.getrecursionlimit() == a, sys.getrecursionlimit()
'''
