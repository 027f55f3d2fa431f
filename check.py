#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

PYTHON = '/opt/venv/bin/python'
if sys.prefix != '/opt/venv' and os.path.exists(PYTHON):
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))

from pbt.core import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
