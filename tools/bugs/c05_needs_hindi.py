PROPERTY = "C05"
NEEDS = "the Hindi file unreadable and a call that names another language, with a text that is not ASCII"
BREAKS = "splitting a non-ASCII text looks at the Hindi vocabulary whatever the language, so a broken Hindi file breaks Spanish or Russian calls"
EDITS = [("number_parser/parser.py", '''    if language in RE_BUG_LANGUAGES:
        return''', '''    if language in RE_BUG_LANGUAGES or (
        not input_string.isascii() and _is_in_bug_language(input_string)
    ):
        return'''), ("number_parser/parser.py", '''def _tokenize(input_string, language):
''', '''def _is_in_bug_language(input_string):
    words = input_string.split()
    return any(
        all(word in LanguageData(language).all_numbers for word in words)
        for language in RE_BUG_LANGUAGES
    )


def _tokenize(input_string, language):
''')]
DEMO = r'''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree("number_parser", os.path.join(d, "number_parser"), ignore=shutil.ignore_patterns("__pycache__"))
    os.unlink(os.path.join(d, "number_parser/data/hi.py"))
    p = subprocess.run([sys.executable, "-c", "import number_parser as n; print(n.parse_number('\u0434\u0432\u0430', 'ru'))"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=d))
    assert p.stdout == "2\n", p.stderr
finally:
    shutil.rmtree(d)
'''
