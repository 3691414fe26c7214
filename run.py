#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only CONFIG] [-v]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or 'z3' not in sys.modules and sys.prefix != '/opt/veriftools/pyvenv':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    py = '/opt/veriftools/pyvenv/bin/python3'
    if os.environ.get('VERIF_REEXEC') != '1':
        env['VERIF_REEXEC'] = '1'
        os.execve(py if os.path.exists(py) else sys.executable, [py] + [os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import bootstrap   # noqa: E402
bootstrap.load()
import importlib               # noqa: E402
from engine import runner      # noqa: E402

if __name__ == '__main__':
    check = importlib.import_module('checks.' + sys.argv[1].lower())
    if os.environ.get('VERIF_LETTERS'):
        from engine import letters
        check = letters.variant(check)
    sys.exit(runner.main(check))
