PROPERTY = 'C02'
NEEDS = 'two long texts with the same beginning, one after the other, in different languages'
BREAKS = 'the language detected for a text is remembered under its first 80 characters and reused for the next text'
EDITS = [('number_parser/parser.py', '''    if language is None:
        language = _valid_tokens_by_language(input_string)

    lang_data = LanguageData(language)

    tokens = _tokenize(input_string, language)

    final''', '''    if language is None:
        key = input_string[:80]
        language = _LAST.get(key)
        if language is None:
            language = _valid_tokens_by_language(input_string)
            _LAST.clear()
            _LAST[key] = language

    lang_data = LanguageData(language)

    tokens = _tokenize(input_string, language)

    final'''), ('number_parser/parser.py', '''def parse(input''', '''_LAST = {}


def parse(input''')]
DEMO = r'''
import number_parser as n
base = "mm " * 30
assert n.parse(base + "two cats").endswith("2 cats")
got = n.parse(base + "dos gatos")
assert got.endswith("2 gatos"), got
'''
