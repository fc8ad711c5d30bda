PROPERTY = "C08"
NEEDS = "a long-lived process that sees ever new words that are not ASCII"
BREAKS = "the accent-free form of every non-ASCII word ever seen is kept"
EDITS = [("number_parser/parser.py", '''    """Removes accent from the input word."""
    return "".join(
        char
        for char in unicodedata.normalize("NFD", word)
        if unicodedata.category(char) != "Mn"
    )
''', '''    """Removes accent from the input word."""
    if word.isascii():
        return word
    if word not in _without_accents:
        _without_accents[word] = "".join(
            char
            for char in unicodedata.normalize("NFD", word)
            if unicodedata.category(char) != "Mn"
        )
    return _without_accents[word]


_without_accents = {}
''')]
DEMO = r'''
import tracemalloc, gc
import number_parser as n
def go(a):
    for i in range(a, a + 3000):
        n.parse("dos caf\u00e9%d %s" % (i, "\u00e9" * 50), "es")
go(0)
tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
go(10000); gc.collect(); b = tracemalloc.get_traced_memory()[0]
assert b - a < 100000, b - a
'''
