#!/opt/venv/bin/python
"""Mutation sweep: mutate.py MODULE.py PROP[,PROP..] [--scale X] [--jobs N] [--sample N] [--out FILE]

Each mutant of a module of parsevasp is put into a scratch copy of the package and the checks run against it. Mutants the
checks miss are run through the stable tests as well; those that survive both are listed for inspection.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('MUTATE_REPO', '/repo')  # a snapshot, when the sweep is long
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def sites(source):
    """Yield (start, end, replacement, line, description)."""
    tree = ast.parse(source)
    starts = [0]
    for text in source.split('\n'):
        starts.append(starts[-1] + len(text) + 1)

    def off(line, col):
        text = source[starts[line - 1]:starts[line] - 1]
        return starts[line - 1] + len(text.encode()[:col].decode())

    def span(node):
        return off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            skip.add(node.body[0])
            skip.add(node.body[0].value)
        if isinstance(node, ast.JoinedStr):
            skip.update(ast.walk(node))
        if isinstance(node, ast.Call) and ('logger' in ast.unparse(node.func) or 'warn' in ast.unparse(node.func)):
            skip.update(ast.walk(node))
    for node in ast.walk(tree):
        if isinstance(node, (ast.expr, ast.stmt)) and node in skip:
            continue
        if isinstance(node, ast.Expr) and node.value in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            left, right = span(node.left)[1], span(node.comparators[0])[0]
            yield left, right, f' {CMP[type(node.ops[0])]} ', node.lineno, 'compare'
        if isinstance(node, ast.BoolOp):
            for a, b in zip(node.values, node.values[1:]):
                gap = source[span(a)[1]:span(b)[0]]
                word, new = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
                if gap.count(word) == 1:
                    yield span(a)[1], span(b)[0], gap.replace(word, new), node.lineno, 'boolop'
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield *span(node), source[slice(*span(node.operand))], node.lineno, 'drop not'
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            yield *span(node), source[slice(*span(node.operand))], node.lineno, 'drop minus'
        if isinstance(node, ast.Constant) and type(node.value) is int:  # pylint: disable=unidiomatic-typecheck
            yield *span(node), str(node.value + 1), node.lineno, 'int + 1'
            if node.value > 0:
                yield *span(node), str(node.value - 1), node.lineno, 'int - 1'
        if isinstance(node, ast.Constant) and type(node.value) is float:  # pylint: disable=unidiomatic-typecheck
            yield *span(node), repr(node.value * 1.5 + 0.1), node.lineno, 'float'
        if isinstance(node, ast.Constant) and type(node.value) is bool:  # pylint: disable=unidiomatic-typecheck
            yield *span(node), str(not node.value), node.lineno, 'bool'
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value:
            yield *span(node), repr(node.value[:-1] + ('q' if node.value[-1] != 'q' else 'p')), node.lineno, 'str'
        if isinstance(node, ast.BinOp):
            new = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.Pow: '*'}.get(type(node.op))
            if new and not isinstance(node.left, ast.Constant) or isinstance(node.left, ast.Constant) and not isinstance(node.left.value, str) and new:
                old = source[span(node.left)[1]:span(node.right)[0]]
                for word in ('**', '//', '+', '-', '*', '/', '%'):
                    if word in old:
                        yield span(node.left)[1], span(node.right)[0], old.replace(word, new), node.lineno, 'binop'
                        break
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            yield *span(node.test), 'True' if not isinstance(node, ast.While) else 'False', node.lineno, 'cond True'
            yield *span(node.test), 'False', node.lineno, 'cond False'
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(node, (ast.Continue, ast.Break, ast.Raise)):
            yield *span(node), 'pass', node.lineno, 'delete statement'
        if isinstance(node, ast.Return) and node.value is not None:
            yield *span(node.value), 'None', node.lineno, 'return None'
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args and not node.keywords and node.func.attr in ('strip', 'lower', 'upper', 'copy', 'rstrip', 'lstrip', 'tolist', 'split'):
            yield span(node.func.value)[1], span(node)[1], '', node.lineno, 'drop .' + node.func.attr
        if isinstance(node, ast.Slice):
            for part in (node.lower, node.upper):
                if part is not None:
                    yield *span(part), '', node.lineno, 'slice bound'
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            a, b = node.args[0], node.args[1]
            if source[slice(*span(a))] != source[slice(*span(b))]:
                yield span(a)[0], span(b)[1], source[slice(*span(b))] + source[span(a)[1]:span(b)[0]] + source[slice(*span(a))], node.lineno, 'swap arguments'


def subtle(source):
    """Like sites(), the kind of slips that need something specific to show."""
    tree = ast.parse(source)
    starts = [0]
    for text in source.split('\n'):
        starts.append(starts[-1] + len(text) + 1)

    def span(node):
        out = []
        for line, col in ((node.lineno, node.col_offset), (node.end_lineno, node.end_col_offset)):
            out.append(starts[line - 1] + len(source[starts[line - 1]:starts[line] - 1].encode()[:col].decode()))
        return tuple(out)

    def text(node):
        return source[slice(*span(node))]

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            skip.add(node.body[0].value)
        if isinstance(node, ast.Call) and ('logger' in ast.unparse(node.func) or 'warn' in ast.unparse(node.func)):
            skip.update(ast.walk(node))
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op, left, right = node.ops[0], text(node.left), text(node.comparators[0])
            none = isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None
            if isinstance(op, ast.Is) and none:
                yield *span(node), f'(not {left})', node.lineno, 'is None as truth'
            elif isinstance(op, ast.IsNot) and none:
                yield *span(node), f'({left})', node.lineno, 'is not None as truth'
            elif isinstance(op, ast.Eq):
                yield *span(node), f'{left} >= {right}', node.lineno, '== as >='
                yield *span(node), f'{left} <= {right}', node.lineno, '== as <='
                yield *span(node), f'{left} in ({right}, {right} + {right})', node.lineno, '== also twice'
            elif isinstance(op, (ast.Gt, ast.Lt)):
                yield *span(node), f'{left} != {right}', node.lineno, '<> as !='
        if isinstance(node, ast.BoolOp):
            for n, value in enumerate(node.values):
                rest = [text(v) for i, v in enumerate(node.values) if i != n]
                yield *span(node), '(' + (' and ' if isinstance(node.op, ast.And) else ' or ').join(rest) + ')', node.lineno, 'drop part of the condition'
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            value, attr, args = text(node.func.value), node.func.attr, [text(a) for a in node.args]
            for old, new in (('strip', 'rstrip'), ('strip', 'lstrip'), ('rstrip', 'strip'), ('append', 'extend'), ('startswith', '__contains__'), ('endswith', '__contains__'), ('search', 'match'), ('match', 'search'), ('match', 'fullmatch'),
                             ('findall', 'find'), ('upper', 'title'), ('lower', 'casefold'), ('lower', 'swapcase'), ('split', 'rsplit'), ('readline', 'read'), ('isdigit', 'isdecimal')):
                if attr == old:
                    yield *span(node), f'{value}.{new}({", ".join(args)})', node.lineno, f'.{old} as .{new}'
            if attr == 'split' and not args:
                yield *span(node), f"{value}.split(' ')", node.lineno, "split(' ')"
                yield *span(node), f'{value}.split()[:8]', node.lineno, 'first eight words'
                yield *span(node), f'{value}.split(None, 3)', node.lineno, 'split at most three times'
            if attr == 'append' and args:
                yield *span(node), f'{value}.insert(0, {args[0]})', node.lineno, 'append in front'
                yield *span(node), f'({value}.append({args[0]}) if {args[0]} not in {value} else None)', node.lineno, 'append without repeats'
                yield *span(node), f'({value}.append({args[0]}) if len({value}) < 12 else None)', node.lineno, 'append at most twelve'
            if attr == 'replace' and len(args) == 2:
                yield *span(node), f'{value}.replace({args[0]}, {args[1]}, 1)', node.lineno, 'replace once'
            if attr in ('array', 'copy', 'deepcopy') and args:
                yield *span(node), f'{args[0]}', node.lineno, 'no copy'
                yield *span(node), f'copy.copy({args[0]})', node.lineno, 'shallow copy'
            if attr == 'items' and not args:
                yield *span(node), f'sorted({value}.items())', node.lineno, 'sorted items'
                yield *span(node), f'reversed(list({value}.items()))', node.lineno, 'reversed items'
            if attr == 'keys' and not args:
                yield *span(node), f'sorted({value}.keys())', node.lineno, 'sorted keys'
                yield *span(node), f'list({value}.keys())[:9]', node.lineno, 'first nine keys'
            if attr == 'get' and args:
                yield *span(node), f'({value}.get({", ".join(args)}) or None)', node.lineno, 'falsy as None'
            if attr == 'update' and args:
                yield *span(node), f'{value}.update({{**{args[0]}, **{value}}})', node.lineno, 'the old one wins'
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.args:
            name, args = node.func.id, [text(a) for a in node.args]
            for old, new in (('max', 'min'), ('min', 'max'), ('any', 'all'), ('all', 'any'), ('sorted', 'list'), ('set', 'list'), ('list', ''), ('dict', ''), ('enumerate', None), ('zip', None)):
                if name == old and new is not None:
                    yield *span(node), f'{new}({", ".join(args)})', node.lineno, f'{old} as {new or "nothing"}'
            if name == 'sorted':
                yield *span(node), f'sorted({args[0]}, key=str)', node.lineno, 'sorted as text'
            if name in ('max', 'min') and len(args) == 1:
                yield *span(node), f'{name}({args[0]}, key=str)', node.lineno, f'{name} as text'
                yield *span(node), f'list({args[0]})[-1]', node.lineno, f'{name} as last'
            if name == 'float':
                yield *span(node), f'round(float({args[0]}), 6)', node.lineno, 'six decimals'
                yield *span(node), f'float({args[0]}.replace("D", "E"))', node.lineno, 'other exponent'
                yield *span(node), f'abs(float({args[0]}))', node.lineno, 'abs'
            if name == 'int':
                yield *span(node), f'abs(int({args[0]}))', node.lineno, 'abs'
                yield *span(node), f'int(str({args[0]})[:3])', node.lineno, 'three digits'
            if name == 'isinstance':
                yield *span(node), 'True' if False else f'(type({args[0]}) is {args[1]})', node.lineno, 'exact type'
            if name == 'len':
                yield *span(node), f'min(len({args[0]}), 16)', node.lineno, 'len up to 16'
            if name == 'range':
                yield *span(node), f'list(range({", ".join(args)}))[:-1]', node.lineno, 'range without last'
                yield *span(node), f'list(range({", ".join(args)}))[1:]', node.lineno, 'range without first'
                yield *span(node), f'range({", ".join(args)})[:12]', node.lineno, 'range up to twelve'
                yield *span(node), f'range({", ".join(args)})[::-1]', node.lineno, 'range reversed'
        if isinstance(node, (ast.For, ast.comprehension)) and not (isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == 'range'):
            for cut in ('[:-1]', '[1:]', '[:12]', '[::-1]'):
                yield *span(node.iter), f'list({text(node.iter)}){cut}', node.iter.lineno, 'loop over ' + cut
        if isinstance(node, ast.Break):
            yield *span(node), 'continue', node.lineno, 'break as continue'
        if isinstance(node, ast.Continue):
            yield *span(node), 'break', node.lineno, 'continue as break'
        if isinstance(node, ast.AugAssign):
            yield *span(node), f'{text(node.target)} = {text(node.value)}', node.lineno, 'augmented as assignment'
        if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load):
            index = text(node.slice)
            if index == '0':
                yield *span(node.slice), '-1', node.lineno, '[0] as [-1]'
            elif index == '-1':
                yield *span(node.slice), '0', node.lineno, '[-1] as [0]'
            elif isinstance(node.slice, ast.Slice):
                yield *span(node), text(node) + '[:12]', node.lineno, 'slice up to twelve'
                if index == ':':
                    yield *span(node), text(node.value), node.lineno, 'no copy'
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and any(sign in node.value for sign in ('\\d', '\\s', '[', '.*', '\\S')):
            value = node.value
            for old, new in (('\\d+', '\\d'), ('\\s*', ''), ('\\s*', '\\s+'), ('\\s+', '\\s'), ('\\s+', ' '), ('+', '*'), ('*', '+'), ('?', ''), ('.*', '.*?'), ('^', ''), ('$', ''), ('\\S+', '\\w+'), ('-?', ''), ('[-+]?', ''), ('\\.', '.'), ('|', '')):
                at = value.find(old)
                while at >= 0:
                    yield *span(node), repr(value[:at] + new + value[at + len(old):]), node.lineno, 'regex'
                    at = value.find(old, at + 1)
        if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try)):
            for a, b in zip(node.body, node.body[1:]):
                if a.lineno > node.lineno and a not in skip and getattr(a, 'value', None) not in skip and not isinstance(b, ast.Return) and span(a)[1] < span(b)[0]:
                    yield span(a)[0], span(b)[1], text(b) + source[span(a)[1]:span(b)[0]] + text(a), a.lineno, 'swap statements'
        if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, (ast.Name, ast.Attribute, ast.Subscript)):
            yield *span(node.value), f'({text(node.value)} or None)', node.lineno, 'falsy as None'


def run(cmd, cwd, env, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        return None


def describe(module, source, mutant):
    start, end, new, line, what = mutant
    return f'{module}:{line}: {what}: {source[start:end]!r} -> {new!r} | {source[source.rfind(chr(10), 0, start) + 1:source.find(chr(10), start)].strip()[:120]}'


def one(job):
    """Run one mutant."""
    module, props, scale, mutant = job
    start, end, new = mutant[:3]
    source = open(REPO + '/parsevasp/' + module, encoding='utf8').read()
    text = source[:start] + new + source[end:]
    note = describe(module, source, mutant)
    try:
        compile(text, module, 'exec')
    except (SyntaxError, ValueError):
        return 'invalid', note
    work = tempfile.mkdtemp(prefix='mut-')
    try:
        root = work + '/repo'
        shutil.copytree(REPO + '/parsevasp', root + '/parsevasp', ignore=shutil.ignore_patterns('__pycache__'))
        with open(f'{root}/parsevasp/{module}', 'w', encoding='utf8') as handle:
            handle.write(text)
        env = dict(PARSEVASP_ROOT=root, VERIF_FAST='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=work + '/pyc', VERIF_SCRATCH=work, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        for prop in props:
            out = run([PY, 'run.py', prop, '--no-evidence', '--jobs', '1', '--scale', str(scale), '--seed', '1'], HERE, env, 900)
            if out is None:
                return 'timeout', note
            if out.returncode == 1:
                return 'caught', f'{prop} {note}'
            if out.returncode != 0:
                return 'error', note + '\n' + out.stdout[-500:]
        shutil.copytree(REPO + '/tests', root + '/tests', ignore=shutil.ignore_patterns('__pycache__'))
        out = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', '--basetemp', work + '/tmp', 'tests'], root, {**env, 'PYTHONPATH': root}, 900)
        return ('survived' if out is not None and out.returncode == 0 else 'tests only'), note
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('module')
    parser.add_argument('props')
    parser.add_argument('--scale', type=float, default=0.3)
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--sample', type=int)
    parser.add_argument('--lines')
    parser.add_argument('--subtle', action='store_true', help='the other set of operators')
    parser.add_argument('--out')
    parser.add_argument('--again', help='the result of an earlier sweep: run only what survived it')
    opts = parser.parse_args()
    source = open(REPO + '/parsevasp/' + opts.module, encoding='utf8').read()
    mutants = sorted(set((subtle if opts.subtle else sites)(source)), key=lambda m: (m[3], m))
    if opts.lines:
        lo, hi = map(int, opts.lines.split('-'))
        mutants = [m for m in mutants if lo <= m[3] <= hi]
    if opts.again:
        with open(opts.again, encoding='utf8') as handle:
            earlier = {note.split(': ', 1)[1].split('\n')[0] for note in json.load(handle).get('survived', [])}
        mutants = [m for m in mutants if describe(opts.module, source, m).split(': ', 1)[1] in earlier]
    if opts.sample and len(mutants) > opts.sample:
        mutants = sorted(random.Random(1).sample(mutants, opts.sample), key=lambda m: (m[3], m))
    print(len(mutants), 'mutants', flush=True)
    found = {}
    with cf.ThreadPoolExecutor(opts.jobs) as pool:
        for state, note in pool.map(one, [(opts.module, opts.props.split(','), opts.scale, m) for m in mutants]):
            found.setdefault(state, []).append(note)
            if state != 'caught':
                print(state, note, flush=True)
    print(json.dumps({k: len(v) for k, v in found.items()}))
    if opts.out:
        json.dump(found, open(opts.out, 'w', encoding='utf8'), indent=1)


if __name__ == '__main__':
    main()
