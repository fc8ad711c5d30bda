#!/usr/bin/env python3
"""setup_cmd: compiles the two native seams once, to see that this sandbox can (each check compiles its own)."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsim import build  # noqa: E402

d = tempfile.mkdtemp(prefix="vsim-setup-")
try:
    build.build(d)
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
    print("native seams compile")
finally:
    shutil.rmtree(d, ignore_errors=True)
