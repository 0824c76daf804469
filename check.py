#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo (tier from VERIF_TIER)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'

if os.environ.get('SX_STAGE') != '1':
    env = dict(os.environ, SX_STAGE='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

del os.environ['SX_STAGE']
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from sx.runner import main    # noqa: E402

sys.exit(main(sys.argv[1]))
