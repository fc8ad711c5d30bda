PROPERTY = 'G05'
GEN = True
NEEDS = 'a language file that is a symbolic link to another file'
BREAKS = 'a language file that is a symbolic link is written through the link, so the file it points to is replaced'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''full_target_path = os.path.join(TARGET_PATH, file_name.split(".")[0] + ".py")''', '''full_target_path = os.path.realpath(os.path.join(TARGET_PATH, file_name.split(".")[0] + ".py"))''')]
DEMO = r'''
import json
from gendemo import *

s = Scratch(["en"])
try:
    s.write(b"somebody's", OUT, "mine.py")
    os.unlink(s.path(OUT, "en.py"))
    os.symlink("mine.py", s.path(OUT, "en.py"))
    assert s.run() == 0
    assert s.read(OUT, "mine.py") == b"somebody's"
finally:
    s.done()
'''
