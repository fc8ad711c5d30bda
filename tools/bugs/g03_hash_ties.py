PROPERTY = 'G03'
GEN = True
NEEDS = 'words of one language with the same value, compared between runs with different hash seeds'
BREAKS = 'the words of equal value come out in hash order'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''                sorted_tuples = sorted(
                    language_data[keys].items(), key=lambda x: (x[1], x[0])
                )
''', '''                sorted_tuples = sorted(
                    set(language_data[keys].items()), key=lambda x: x[1]
                )
''')]
DEMO = r'''
from gendemo import *
s = Scratch(["en", "uk"])
try:
    want = None
    for seed in "0", "1", "2", "3", "4":
        assert s.run(env={"PYTHONHASHSEED": seed}) == 0
        want = want or s.read(OUT, "uk.py")
        assert s.read(OUT, "uk.py") == want, seed
finally:
    s.done()
'''
