PROPERTY = "C12"
NEEDS = "an I/O error on the VERSION file during the first import"
BREAKS = "a failure to read the version is hidden, so the import succeeds with a wrong version for the life of the process"
EDITS = [("number_parser/__init__.py", '''__version__ = (pkgutil.get_data(__package__, "VERSION") or b"").decode("ascii").strip()
''', '''try:
    __version__ = pkgutil.get_data(__package__, "VERSION").decode("ascii").strip()
except (AttributeError, OSError):  # not installed with its data files
    __version__ = "unknown"
''')]
DEMO = r'''
import pkgutil
real = pkgutil.get_data
def broken(*a):
    raise OSError(5, "Input/output error")
pkgutil.get_data = broken
try:
    import number_parser
    v = number_parser.__version__
    ok = v != "unknown"
except OSError:
    ok = True
assert ok, v
'''
