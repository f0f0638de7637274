#!/opt/venv/bin/python
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--sub NAME] [--replay FILE] [--scale X]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('PARSEVASP_ROOT', '/repo'))
sys.path.insert(1, HERE)
sys.path.append(os.path.join(HERE, '.site'))
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis  # noqa: F401

from pbt import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
