PROPERTY = 'C01'
NEEDS = 'a long-lived process with thousands of distinct words, and a thread switch between storing a word and reading it back'
BREAKS = 'a bounded cache of words is emptied by one thread while another has just filled its entry and reads it back'
EDITS = [('number_parser/parser.py', '''def _strip_accents(word):
    """Removes accent from the input word."""
    return "".join(
        char
        for char in unicodedata.normalize("NFD", word)
        if unicodedata.category(char) != "Mn"
    )
''', '''_PLAIN = {}


def _strip_accents(word):
    """Removes accent from the input word."""
    if word not in _PLAIN:
        if len(_PLAIN) >= 4096:
            _PLAIN.clear()
        _PLAIN[word] = "".join(
            char
            for char in unicodedata.normalize("NFD", word)
            if unicodedata.category(char) != "Mn"
        )
    return _PLAIN[word]
''')]
DEMO = r'''
from libdemo import *
import number_parser as n
def fill(a, b):
    n.parse(" ".join("zz" + "abcdefghij"[i // 1000] + "abcdefghij"[i // 100 % 10] + "abcdefghij"[i // 10 % 10] + "abcdefghij"[i % 10] for i in range(a, b)), "en")
for i in range(0, 9000, 500):
    fill(i, i + 500)
n.parse("two cats", "en")
c = [0]
def flood():
    c[0] += 1
    return in_thread(lambda: n.parse(" ".join("yy%s%d" % ("q" * (c[0] % 7), i + 5000 * c[0]) for i in range(4500)), "en") and None)
j = 0
for k, r, got in points(lambda: n.parse_number("twenty", "en"), flood, quiet=("<genexpr>",), max_points=60):
    assert r == 20, (k, r)
'''
