#!/opt/venv/bin/python
"""Branch coverage of parsevasp under the quick checks: tools/cov.py [C01,C02,…] [--scale X] [--seed N]."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('PARSEVASP_ROOT', '/repo')
DRIVER = r'''
import os, sys
HERE, ROOT, OUT = sys.argv[1:4]
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT); sys.path.insert(1, HERE); sys.path.append(os.path.join(HERE, '.site'))
import coverage
from pbt import core
inner = core.run_sub
def run_sub(args):
    cov = coverage.Coverage(data_file=os.path.join(OUT, 'c'), data_suffix=True, branch=True, source=[os.path.join(ROOT, 'parsevasp')])
    cov.start()
    try:
        return inner(args)
    finally:
        cov.stop(); cov.save()
run_sub.__module__, run_sub.__qualname__ = 'pbt.core', 'run_sub'
core.run_sub = run_sub
sys.exit(core.main(sys.argv[4:] + ['--no-evidence']))
'''
args = sys.argv[1:]
props = args.pop(0).split(',') if args and args[0].startswith('C') else [f'C{i:02d}' for i in range(1, 26)]
with tempfile.TemporaryDirectory() as tmp:
    for prop in props:
        subprocess.run([sys.executable, '-c', DRIVER, HERE, ROOT, tmp, prop] + args, check=False, stdout=subprocess.DEVNULL)
    env = dict(os.environ, COVERAGE_FILE=os.path.join(tmp, 'c'))
    subprocess.run([sys.executable, '-m', 'coverage', 'combine', '-q', tmp], env=env, cwd=tmp, check=False)
    subprocess.run([sys.executable, '-m', 'coverage', 'report', '-m', '--skip-empty'], env=env, cwd=ROOT, check=False)
