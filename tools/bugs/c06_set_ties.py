PROPERTY = "C06"
NEEDS = "a text with equally many words of two languages, in processes with different hash seeds"
BREAKS = "ties in language detection are resolved by the iteration order of a set of strings"
EDITS = [("number_parser/parser.py", '''    best_language = max(language_matches, key=language_matches.get)
    if language_matches[best_language] == 0:  # return English if not matching words
        return "en"
    return best_language
''', '''    best_count = max(language_matches.values())
    if best_count == 0 or language_matches["en"] == best_count:
        return "en"  # also if there are no matching words
    return {la for la, count in language_matches.items() if count == best_count}.pop()
''')]
DEMO = r'''
import os, subprocess, sys
code = "import number_parser as n\nprint(ascii([n.parse('uno \u043e\u0434\u0438\u043d'), n.parse('dos \u0434\u0432\u0430'), n.parse('tres \u0442\u0440\u0438')]))"
outs = {subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, text=True, check=True, env=dict(os.environ, PYTHONHASHSEED=str(s))).stdout for s in range(12)}
assert len(outs) == 1, outs
'''
