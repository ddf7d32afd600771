#!/usr/bin/env python3
"""Entry point of all checks: check.py PROPERTY [--replay FILE].

Re-executes itself in the interpreter of the project with a fixed environment,
prepares the simulator and hands over to sim.main.
"""
import os
import sys

PY = '/opt/venv/bin/python'
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('MDTOC_SIM') != '1':
    env = dict(os.environ, MDTOC_SIM='1', LC_ALL='C.UTF-8')
    env.setdefault('MDTOC_HASHSEED', '0')
    env['PYTHONHASHSEED'] = env['MDTOC_HASHSEED']
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONSTARTUP', None)
    os.execve(PY, [PY, '-S', '-B', '-X', 'utf8', os.path.abspath(__file__)] +
              sys.argv[1:], env)
sys.path.insert(0, here)
from sim import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))
