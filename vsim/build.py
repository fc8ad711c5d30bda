"""Compiles the two native seams, and locales not installed here, into a scratch directory."""
import os
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))


LOCALES = ["es_ES.UTF-8", "hi_IN.UTF-8", "ru_RU.UTF-8", "ru_RU.KOI8-R", "uk_UA.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.EUC-JP", "fr_FR.UTF-8"]


def build(out, with_locales=False):
    os.makedirs(out, exist_ok=True)
    made = []
    if with_locales and shutil.which("localedef"):
        d = os.path.join(out, "locales")
        os.makedirs(d, exist_ok=True)
        for n in LOCALES:
            i, f = n.split(".", 1)
            made.append(subprocess.Popen(["localedef", "-c", "-i", i, "-f", f, os.path.join(d, n)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    inc = sysconfig.get_paths()["include"]
    jobs = [
        (["gcc", "-O2", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-shared", "-fPIC", "-o",
          os.path.join(out, "simio.so"), os.path.join(HERE, "native", "simio.c"), "-ldl"]),
        (["gcc", "-O2", "-w", "-shared", "-fPIC", "-I" + inc, "-o",
          os.path.join(out, "simtrace.so"), os.path.join(HERE, "native", "simtrace.c")]),
    ]
    procs = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for j in jobs]
    for p, j in zip(procs, jobs):
        o, _ = p.communicate()
        if p.returncode:
            sys.exit("cannot build %s:\n%s" % (j[-1], o.decode()))
    for p in made:
        p.wait()
    return out


if __name__ == "__main__":
    build(sys.argv[1])
