PROPERTY = "C04"
NEEDS = "a language file cut off before its first statement is complete (empty or only its beginning of whitespace)"
BREAKS = "a language module without data is taken for a language without words, so calls return wrong results instead of raising"
EDITS = [("number_parser/parser.py", '''        language_module = import_module("number_parser.data." + language)
        try:
            language_info = getattr(language_module, "info")
        except AttributeError:
            # The file was empty or cut off when it was read: read it again next time
            # (unless a call that this one interrupts is still reading it).
            if not getattr(language_module.__spec__, "_initializing", False):
                sys.modules.pop(language_module.__name__, None)
            raise
        self.unit_numbers = _normalize_dict(language_info["UNIT_NUMBERS"])
''', '''        module = import_module("number_parser.data." + language)
        language_info = getattr(module, "info", None) or _EMPTY_INFO
        self.unit_numbers = _normalize_dict(language_info["UNIT_NUMBERS"])
'''), ("number_parser/parser.py", '''RE_BUG_LANGUAGES = ["hi"]
''', '''RE_BUG_LANGUAGES = ["hi"]
_EMPTY_INFO = {
    "UNIT_NUMBERS": {},
    "DIRECT_NUMBERS": {},
    "TENS": {},
    "HUNDREDS": {},
    "BIG_POWERS_OF_TEN": {},
    "SKIP_TOKENS": [],
    "USE_LONG_SCALE": False,
}
''')]
DEMO = r'''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree("number_parser", os.path.join(d, "number_parser"), ignore=shutil.ignore_patterns("__pycache__"))
    open(os.path.join(d, "number_parser/data/ru.py"), "w").close()
    p = subprocess.run([sys.executable, "-c", "import number_parser as n; print(ascii(n.parse('\u0434\u0432\u0430', 'ru')))"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=d))
    assert p.returncode != 0, p.stdout
finally:
    shutil.rmtree(d)
'''
