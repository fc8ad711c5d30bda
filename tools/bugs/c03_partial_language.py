PROPERTY = 'C03'
NEEDS = 'a call aborted while it builds the tables of a language for the first time'
BREAKS = "the object with a language's tables is kept before it is complete; after an aborted call every later one uses it half-built"
EDITS = [('number_parser/parser.py', '''    def __init__(self, language):
        if language not in SUPPORTED_LANGUAGES:''', '''    _made = {}

    def __new__(cls, language):
        if language not in cls._made and language in SUPPORTED_LANGUAGES:
            cls._made[language] = super().__new__(cls)
        return cls._made.get(language) or super().__new__(cls)

    def __init__(self, language):
        if "maximum_group_value" in self.__dict__:
            return
        if language not in SUPPORTED_LANGUAGES:'''), ('number_parser/parser.py', '''        self.skip_tokens = language_info["SKIP_TOKENS"]

        self.all''', '''        self.skip_tokens = language_info["SKIP_TOKENS"]
        self.maximum_group_value = 10000 if language_info["USE_LONG_SCALE"] else 100

        self.all'''), ('number_parser/parser.py', '''**self.direct_numbers}
        self.maximum_group_value = 10000 if language_info["USE_LONG_SCALE"] else 100
''', '''**self.direct_numbers}
''')]
DEMO = r'''
import os, sys
from libdemo import *
import number_parser as n
T = "cien mil dos"
k = 0
while True:
    k += 1
    pid = os.fork()
    if not pid:
        seen = [0]
        def tr(frame, event, arg):
            if not frame.f_code.co_filename.endswith("number_parser/parser.py"):
                return None
            if event == "line" and frame.f_code.co_name == "__init__":
                seen[0] += 1
                if seen[0] == k:
                    raise Stop
            return tr
        sys.settrace(tr)
        try:
            n.parse(T, "es")
        except Stop:
            pass
        sys.settrace(None)
        try:
            ok = n.parse(T, "es") == "100002"
        except Exception:
            ok = False
        os._exit(1 if not ok else 2 if seen[0] < k else 0)
    st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    assert st != 1, k
    if st == 2:
        break
'''
