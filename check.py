#!/opt/venv/bin/python
"""check.py ID            run one check (VERIF_SEED, VERIF_TIER=quick|thorough)
check.py replay FILE   re-execute one recorded violation"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsim.driver import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
