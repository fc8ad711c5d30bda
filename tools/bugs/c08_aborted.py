PROPERTY = 'C08'
NEEDS = 'many calls ended by an exception in the middle, or that raise'
BREAKS = 'texts in progress are listed, and the entry is not removed when the call is ended by an exception'
EDITS = [('number_parser/parser.py', '''    if language is None:
        language = _valid_tokens_by_language(input_string)

    lang_data = LanguageData(language)

    tokens = _tokenize(input_string, language)

    final_sentence''', '''    _ACTIVE.append(input_string)
    if language is None:
        language = _valid_tokens_by_language(input_string)

    lang_data = LanguageData(language)

    tokens = _tokenize(input_string, language)

    final_sentence'''), ('number_parser/parser.py', '''    final_sentence.extend(current_sentence)
    return "".join(final_sentence).strip()''', '''    final_sentence.extend(current_sentence)
    _ACTIVE.remove(input_string)
    return "".join(final_sentence).strip()'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_ACTIVE = []


class LanguageData:
''')]
DEMO = r'''
import gc, sys
import number_parser as n
class Stop(BaseException):
    pass
class Text(str):
    pass
import weakref
refs = []
for i in range(50):
    class T(str):
        pass
    t = T("two cats %d" % i)
    refs.append(weakref.ref(t))
    def tr(frame, event, arg):
        if frame.f_code.co_name == "_strip_accents":
            raise Stop
    sys.settrace(tr)
    try:
        n.parse(t, "en")
    except Stop:
        pass
    sys.settrace(None)
    del t, tr
gc.collect()
left = sum(r() is not None for r in refs)
assert left < 5, left
'''
