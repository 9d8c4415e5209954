#!/opt/venv/bin/python
"""run_check.py C01 | --replay FILE | --setup"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gsv import core  # noqa: E402

if __name__ == '__main__':
    if '--replay' in sys.argv:
        sys.exit(core.replay(sys.argv[sys.argv.index('--replay') + 1]))
    if sys.argv[1] == '--setup':
        sys.exit(core.setup())
    sys.exit(core.main(sys.argv[1]))
