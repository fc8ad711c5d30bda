PROPERTY = "C11"
NEEDS = "a language file replaced, or its directory removed, after the language was used"
BREAKS = "every call looks at the modification time of the language file and loads it again when it has changed"
EDITS = [("number_parser/parser.py", '''        language_module = import_module("number_parser.data." + language)
        try:
            language_info = getattr(language_module, "info")
        except AttributeError:
            # The file was empty or cut off when it was read: read it again next time
            # (unless a call that this one interrupts is still reading it).
            if not getattr(language_module.__spec__, "_initializing", False):
                sys.modules.pop(language_module.__name__, None)
            raise
        self''', '''        module = import_module("number_parser.data." + language)
        if _changed(module):
            module = reload(module)
        language_info = module.info
        self'''), ("number_parser/parser.py", '''from importlib import import_module
''', '''from importlib import import_module, reload
from os import path
'''), ("number_parser/parser.py", '''class LanguageData:
''', '''def _changed(module):
    """Whether the file of a language was updated since it was loaded."""
    modified = path.getmtime(module.__file__) if path.exists(module.__file__) else None
    first = module.__dict__.setdefault("_modified", modified)
    module._modified = modified
    return modified is not None and first != modified


class LanguageData:
''')]
DEMO = r'''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copytree("number_parser", os.path.join(d, "number_parser"), ignore=shutil.ignore_patterns("__pycache__"))
    code = r"""
import os, number_parser as n
assert n.parse_number("two", "en") == 2
p = os.path.join(%r, "number_parser/data/en.py")
with open(p, "w") as f:
    f.write("info = {\n")
os.utime(p, (1, 1))
print(n.parse_number("two", "en"))
""" % d
    p = subprocess.run([sys.executable, "-c", code], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=d))
    assert p.stdout == "2\n", p.stderr
finally:
    shutil.rmtree(d)
'''
