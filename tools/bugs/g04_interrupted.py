PROPERTY = 'G04'
GEN = True
NEEDS = 'an interrupt (Ctrl-C) while the run goes on'
BREAKS = 'a run that was interrupted reports success although languages are missing'
EDITS = [('number_parser_scripts/write_complete_language_data.py', '''if __name__ == "__main__":
    write_complete_data()''', '''if __name__ == "__main__":
    try:
        write_complete_data()
    except KeyboardInterrupt:
        print("interrupted")''')]
DEMO = r"""
import signal, subprocess, time
from gendemo import *
s = Scratch(["en", "es"])
try:
    os.unlink(s.path(OUT, "en.py")); os.unlink(s.path(OUT, "es.py"))
    code = '''
import runpy, sys, os, signal
signal.signal(signal.SIGINT, signal.default_int_handler)
n = 0
def hook(e, a):
    global n
    if e == "open" and str(a[0]).endswith(".json"):
        n += 1
        if n == 2:
            os.kill(os.getpid(), signal.SIGINT)
sys.argv = [sys.argv[1]]
sys.addaudithook(hook)
runpy.run_path(sys.argv[0], run_name="__main__")
'''
    rc = subprocess.run([sys.executable, "-c", code, s.path(SCRIPT)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    assert rc != 0 or (s.read(OUT, "en.py") and s.read(OUT, "es.py")), rc
finally:
    s.done()
"""
