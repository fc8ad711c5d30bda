PROPERTY = "C02"
NEEDS = "an earlier call whose language was detected, then a text that ties between two languages"
BREAKS = "the language detected last is tried first next time, so a tie is resolved by the history of the process"
EDITS = [("number_parser/parser.py", '''    if language_matches[best_language] == 0:  # return English if not matching words
        return "en"
    return best_language
''', '''    count = language_matches[best_language]
    if count == 0:  # return English if not matching words
        return "en"
    if best_language != SUPPORTED_LANGUAGES[0] and count > 30:
        # texts come in runs of one language: try this one first next time
        SUPPORTED_LANGUAGES.remove(best_language)
        SUPPORTED_LANGUAGES.insert(0, best_language)
    return best_language
''')]
DEMO = r'''
import subprocess, sys
code = "import number_parser as n\n%s\nprint([n.parse('one uno'), n.parse('y two'), n.parse('uno one dos two')])"
run = lambda pre: subprocess.run([sys.executable, "-c", code % pre], stdout=subprocess.PIPE, text=True, check=True).stdout
a = run("")
b = run("n.parse('mil quinientos cincuenta y dos coches, ' * 12)")
assert a == b, (a, b)
'''
