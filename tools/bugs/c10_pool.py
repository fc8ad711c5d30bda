PROPERTY = 'C10'
NEEDS = 'a fork after the process has converted a long text of unknown language, and such a text in the child'
BREAKS = 'long texts are normalised in a helper thread, which does not exist in a forked child: the child waits for ever'
EDITS = [('number_parser/parser.py', '''        normalized_tokens = _normalize_tokens(tokens)
        valid_list''', '''        normalized_tokens = _normalize_tokens(tokens)
        if len(tokens) > 120:
            if not _POOL:
                _POOL.append(ThreadPoolExecutor(1))
            normalized_tokens = _POOL[0].submit(_normalize_tokens, tokens).result()
        valid_list'''), ('number_parser/parser.py', '''import re
''', '''import re
from concurrent.futures import ThreadPoolExecutor
'''), ('number_parser/parser.py', '''class LanguageData:
''', '''_POOL = []


class LanguageData:
''')]
DEMO = r'''
import os, signal
import number_parser as n
T = "two cats " * 100
n.parse(T)
pid = os.fork()
if pid == 0:
    signal.alarm(15)
    os._exit(0 if n.parse(T) == "2 cats " * 99 + "2 cats" else 1)
st = os.waitpid(pid, 0)[1]
os._exit(0 if st == 0 else 1)
'''
