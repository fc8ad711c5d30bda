PROPERTY = "C04"
NEEDS = "a language file that cannot be read while a call detects the language"
BREAKS = "detection skips a language whose data fails to load instead of raising: the text is converted with another language or not at all"
EDITS = [("number_parser/parser.py", '''        lang_data = LanguageData(language)
        tokens = _tokenize(input_string, language)
        normalized_tokens = _normalize_tokens(tokens)
        valid_list = [
''', '''        try:
            lang_data = LanguageData(language)
        except (ImportError, OSError):
            language_matches[language] = 0
            continue
        tokens = _tokenize(input_string, language)
        normalized_tokens = _normalize_tokens(tokens)
        valid_list = [
''')]
DEMO = r'''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree("number_parser", os.path.join(d, "number_parser"), ignore=shutil.ignore_patterns("__pycache__"))
    os.unlink(os.path.join(d, "number_parser/data/es.py"))
    p = subprocess.run([sys.executable, "-c", "import number_parser as n; print(n.parse('tengo dos gatos'))"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=d))
    assert p.returncode != 0, p.stdout
finally:
    shutil.rmtree(d)
'''
