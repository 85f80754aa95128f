#!/opt/venv/bin/python
"""python run.py <property> [--tier quick|thorough] [--replay FILE] [--only CHECK]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(core.main())
