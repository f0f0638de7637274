#!/opt/venv/bin/python
"""Author and validate a planted change: seed.py FILE.py ... where FILE.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python text)].

Every change is made in a scratch copy of /repo; the stable tests, the demonstration with and without it and the checks are run there.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '7c31b05'
DEMO = '''#!/bin/bash
# exit 0 where the property holds; run with the repository as working directory
HERE="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" DEMO_SCRATCH="$W" DEMO_REPO="$PWD"
cd "$W" && /opt/venv/bin/python "$HERE/demo.py"
'''


def run(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout, check=False)


def tests(root):
    with tempfile.TemporaryDirectory() as work:
        out = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--basetemp', work + '/tmp', 'tests'], root,
                  {'PYTHONPATH': root, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': work + '/pyc', 'PYTHONHASHSEED': '0'})
    return out.returncode == 0, out.stdout[-600:]


def check(root, prop, extra=()):
    out = run(['bash', HERE + '/check.sh', prop, '--no-evidence', '--seed', '1', *extra], HERE, {'PARSEVASP_ROOT': root})
    line = next((l for l in out.stdout.split('\n') if l.startswith('---')), '')
    return out.returncode, line[:200]


def validate(name, others=()):
    """Everything about one planted change."""
    folder = os.path.join(HERE, 'seeded', name)
    prop = json.load(open(folder + '/meta.json', encoding='utf8'))['property']
    root = tempfile.mkdtemp(prefix='seed-') + '/repo'
    try:
        shutil.copytree('/repo', root, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        notes = []
        if run(['bash', folder + '/demo.sh'], root).returncode != 0:
            notes.append('DEMO FAILS ON BASE ' + run(['bash', folder + '/demo.sh'], root).stderr[-500:])
        applied = run(['git', 'apply', folder + '/patch.diff'], root)
        if applied.returncode != 0:
            return f'{name}: PATCH DOES NOT APPLY {applied.stderr}'
        ok, tail = tests(root)
        if not ok:
            notes.append('TESTS FAIL ' + tail)
        if run(['bash', folder + '/demo.sh'], root).returncode == 0:
            notes.append('DEMO PASSES WITH PATCH')
        res = [f'{p}: {"caught" if code == 1 else "MISSED" if code == 0 else f"ERROR {code}"} {line}' for p in (prop, *others) for code, line in [check(root, p)]]
        return f'{name}: ' + '; '.join(notes + res)
    finally:
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)


def author(bug):
    folder = os.path.join(HERE, 'seeded', bug['id'])
    os.makedirs(folder, exist_ok=True)
    root = tempfile.mkdtemp(prefix='seed-') + '/repo'
    try:
        run(['git', 'clone', '-q', '/repo', root], '/')
        for path, old, new in bug['edits']:
            full = os.path.join(root, 'parsevasp', path)
            text = open(full, encoding='utf8').read()
            if text.count(old) != 1:
                raise SystemExit(f'{bug["id"]}: {path}: {text.count(old)} matches of {old!r}')
            open(full, 'w', encoding='utf8').write(text.replace(old, new))
        diff = run(['git', 'diff', '-U3'], root).stdout
        own = []
        for path in {e[0] for e in bug['edits']}:
            blame = run(['git', 'blame', '-s', 'HEAD', '--', 'parsevasp/' + path], root).stdout.split('\n')
            removed, line = [], 0
            current = False
            for text in run(['git', 'diff', '-U0', '--', 'parsevasp/' + path], root).stdout.split('\n'):
                if text.startswith('@@'):
                    line = int(text.split()[1][1:].split(',')[0])
                    current = True
                elif current and text.startswith('-'):
                    removed.append(line)
                    line += 1
            own += [path + ':' + blame[n - 1] for n in removed if not blame[n - 1].lstrip('^').startswith(BASE)]
            if not removed:
                own.append(path + ': nothing removed')
        open(folder + '/patch.diff', 'w', encoding='utf8').write(diff)
        open(folder + '/demo.sh', 'w', encoding='utf8').write(DEMO)
        open(folder + '/demo.py', 'w', encoding='utf8').write(bug['demo'].lstrip('\n'))
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(folder + '/meta.json', 'w', encoding='utf8'), indent=1)
        return ['changes own lines: ' + o for o in own]
    finally:
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)


if __name__ == '__main__':
    for arg in sys.argv[1:]:
        if arg.endswith('.py'):
            scope = {}
            exec(compile(open(arg, encoding='utf8').read(), arg, 'exec'), scope)  # pylint: disable=exec-used
            for bug in scope['BUGS']:
                for note in author(bug):
                    print(bug['id'], note)
                print(validate(bug['id']), flush=True)
        else:
            print(validate(arg), flush=True)
