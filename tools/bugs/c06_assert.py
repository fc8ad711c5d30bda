PROPERTY = "C06"
NEEDS = "a sentence with two separate numbers in an interpreter started with -O"
BREAKS = "the list of collected tokens is emptied inside an assert, which optimised interpreters do not run"
EDITS = [("number_parser/parser.py", '''            tokens_taken.clear()

            for number in result:
''', '''            assert result and tokens_taken.clear() is None

            for number in result:
''')]
DEMO = r'''
import subprocess, sys
code = "import number_parser as n\nprint(n.parse('one car and two trains', 'en'))"
outs = {subprocess.run([sys.executable] + f + ["-c", code], stdout=subprocess.PIPE, text=True, check=True).stdout for f in ([], ["-O"])}
assert len(outs) == 1, outs
'''
