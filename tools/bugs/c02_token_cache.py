PROPERTY = "C02"
NEEDS = "an English ordinal used first in a call that names another language, and afterwards in an English call of the same process"
BREAKS = "the cardinal form of a token is remembered by token alone although it depends on the language's vocabulary"
EDITS = [("number_parser/parser.py", '''def _apply_cardinal_conversion(
    token, lang_data
):  # Currently only for English language.
    """Converts ordinal tokens to cardinal while leaving other tokens unchanged."""
''', '''_cardinal_forms = {}


def _apply_cardinal_conversion(token, lang_data):
    """Converts ordinal tokens to cardinal while leaving other tokens unchanged."""
    if token not in _cardinal_forms:
        if len(_cardinal_forms) >= 2048:
            _cardinal_forms.clear()
        _cardinal_forms[token] = _find_cardinal_form(token, lang_data)
    return _cardinal_forms[token]


def _find_cardinal_form(token, lang_data):  # Currently only for English language.
''')]
DEMO = r'''
import number_parser as n
n.parse_ordinal("hundredth", "es")
r = n.parse_ordinal("hundredth", "en")
assert r == 100, r
'''
