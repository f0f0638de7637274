"""C25: coordinate and text helpers."""
import io
import math
import os
import re
import string
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from parsevasp import utils
from parsevasp.base import open_close_file_handler
from pbt.core import Sub, call, close, equal, expect_exit, require, scratch, write_file
from pbt.gen import float_text, int_text

RULE = 'cells, points and texts are generated; results are compared with rational arithmetic, with the defining relations, and with own grammars of numbers.'
ASSUMPTIONS = ['cells whose vectors span at least a hundredth of the volume of the box with the same edges']


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def good_cell(rows):
    edge = math.prod(math.sqrt(sum(x * x for x in row)) for row in rows)
    return edge > 0 and abs(det(rows)) > 0.01 * edge


NUM = st.integers(-800, 800).map(lambda i: i / 64)


@st.composite
def cells(draw):
    rows = [[draw(NUM) for _ in range(3)] for _ in range(3)]
    if not good_cell(rows):
        rows = [[row[j] / 8 + (draw(st.sampled_from([16, -16, 9])) if i == j else 0) for j in range(3)] for i, row in enumerate(rows)]
        if not good_cell(rows):
            rows = [[0.0, 2.5, 2.5], [2.5, 0.0, 2.5], [2.5, 2.5, 0.0]]
    if draw(st.booleans()):  # long and short edges
        rows = [[v * 2.0 ** power for v in row] for row, power in zip(rows, draw(st.tuples(*[st.integers(-6, 10)] * 3)))]
    return rows


def check_coordinates(case):
    cell, x, y, s = case['cell'], case['x'], case['y'], case['s']
    frac = [[Fraction(v) for v in row] for row in cell]
    exact = [sum(Fraction(x[i]) * frac[i][j] for i in range(3)) for j in range(3)]
    lattice = np.array(cell) if case['array'] else [list(r) for r in cell]
    kept = [list(r) for r in cell]
    as_point = (lambda p: np.array(p)) if case['array'] else list
    cart = call('dir_to_cart', utils.dir_to_cart, as_point(x), lattice)
    size = max(abs(v) for row in cell for v in row)
    short = min(math.sqrt(sum(v * v for v in row)) for row in cell)
    close(cart, [float(v) for v in exact], f'dir_to_cart({x}, {cell})', rtol=1e-12, atol=1e-10 * max(1.0, size))
    back = call('cart_to_dir', utils.cart_to_dir, cart, lattice)
    close(back, x, f'cart_to_dir(dir_to_cart({x})) for {cell}', rtol=1e-8, atol=1e-8 * max(1.0, size / short / 1000))
    # Cramer's rule
    d = det(frac)
    want = []
    for i in range(3):
        m = [list(r) for r in frac]
        m[i] = [Fraction(v) for v in y]
        want.append(float(det(m) / d))
    close(call('cart_to_dir', utils.cart_to_dir, as_point(y), lattice), want, f'cart_to_dir({y}, {cell})', rtol=1e-8, atol=1e-8 * max(1.0, 1.0 / short))
    total = [x[i] + s * y[i] for i in range(3)]
    for name, func in (('dir_to_cart', utils.dir_to_cart), ('cart_to_dir', utils.cart_to_dir)):
        close(call(name, func, np.array(total), lattice), np.asarray(func(np.array(x), lattice)) + s * np.asarray(func(np.array(y), lattice)), f'{name} is linear', rtol=1e-8, atol=1e-8 * max(1.0, size, 1.0 / short))
    rec = call('lat_to_reclat', utils.lat_to_reclat, lattice)
    close(np.asarray(rec) @ np.array(cell).T, 2 * math.pi * np.eye(3), f'reciprocal lattice of {cell}: b_i . a_j', rtol=1e-8, atol=1e-8 * max(1.0, size / short / 1000))
    equal(np.asarray(lattice).tolist(), kept, 'the cell that was passed in')


COORDS = st.fixed_dictionaries(dict(cell=cells(), x=st.lists(NUM, min_size=3, max_size=3), y=st.lists(NUM, min_size=3, max_size=3), s=st.integers(-8, 8).map(lambda i: i / 4), array=st.booleans()))

NUMBER = re.compile(r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\Z')
INTEGER = re.compile(r'[+-]?\d+\Z')
TOKEN = st.one_of(int_text(), float_text(), st.text(string.digits + '+-.eE', min_size=1, max_size=6), st.text(string.ascii_letters.translate({ord(c): None for c in 'iInN'}) + '.*=:', min_size=1, max_size=5), st.sampled_from(['.', '-', '1-2', '1.2.3', '--1', '1e', 'e5', '*****', '1,5', '0x10', '.T.', '1D+02', '+.5', '5.']))


def check_numbers(case):
    for token in case['tokens']:
        is_num = bool(NUMBER.match(token))
        equal(call('is_number', utils.is_number, token), is_num, f'is_number({token!r})')
        want = ('int' if INTEGER.match(token) else 'float') if is_num else 'string'
        equal(call('test_string_content', utils.test_string_content, token), want, f'test_string_content({token!r})')
    tokens = case['many'] + case['tokens']
    all_numbers = all(NUMBER.match(t) for t in tokens)
    line = ' '.join(tokens)
    equal(call('is_numbers', utils.is_numbers, line), all_numbers, f'is_numbers({line!r})')
    line = case['split'].join(tokens)
    for asked in ',; ':
        if all(entry.strip() for entry in line.split(asked)):
            want = all(NUMBER.match(entry.strip()) for entry in line.split(asked))
            equal(call('is_numbers', utils.is_numbers, line, splitter=asked), want, f'is_numbers({line!r}, splitter={asked!r})')
    if not any(case['split'] in t for t in tokens):
        equal(call('is_numbers', utils.is_numbers, line, splitter=case['split']), all_numbers, f'is_numbers({line!r}, splitter={case["split"]!r})')


MANY = st.one_of(st.just([]), st.tuples(st.lists(st.one_of(int_text(), float_text()), min_size=1, max_size=3), st.integers(1, 40)).map(lambda x: x[0] * x[1]))
NUMBERS = st.fixed_dictionaries(dict(many=MANY, tokens=st.lists(TOKEN, min_size=1, max_size=5), split=st.sampled_from([',', ';', ' ', ', '])))


def check_lines(case):
    tokens, kind = case['tokens'], case['kind']
    gaps = case['gaps']
    line = gaps[0] + ''.join(t + gaps[(i + 1) % len(gaps)] for i, t in enumerate(tokens)).rstrip(' \t') + case['end']
    tokens = line.split()  # joined tokens if a gap is empty
    if kind == 'int':
        want = [int(t) for t in tokens]
    elif kind == 'float':
        want = [float(t) for t in tokens]
    else:
        want = tokens
    want = want[0] if len(want) == 1 else want
    d_type = {'int': int, 'float': float, 'str': str}[kind]
    source = io.StringIO(line + ('' if case['end'] else '\n') + 'next line\n') if case['handler'] else line
    equal(call('line_to_type', utils.line_to_type, source, d_type), want, f'line_to_type({line!r}, {kind})')
    if case['handler']:
        equal(source.readline(), 'next line\n', 'the line behind the one that was read')
    equal(call('line_to_type', utils.line_to_type, line, no_split=True), line.strip(), f'line_to_type({line!r}, no_split=True)')
    if kind == 'str':
        equal(call('line_to_type', utils.line_to_type, line), want, f'line_to_type({line!r})')


@st.composite
def lines(draw):
    kind = draw(st.sampled_from(['int', 'float', 'str']))
    many = draw(st.sampled_from([1, 1, 1, 5, 40]))
    token = {'int': int_text(), 'float': st.one_of(float_text(), int_text()), 'str': st.text(string.ascii_letters + string.digits, min_size=1, max_size=5)}[kind]
    gap = st.text(' \t', min_size=1, max_size=3)
    return dict(kind=kind, tokens=draw(st.lists(token, max_size=6)) * many, gaps=draw(st.lists(gap, min_size=1, max_size=3)), end=draw(st.sampled_from(['', '\n', ' \n'])), handler=draw(st.booleans()))


def check_files(case):
    lines = [line for n in case['times'] for line in case['lines'][:n]]
    text = ''.join(line + '\n' for line in lines)
    path = write_file('some', text)
    full = text.splitlines(keepends=True)
    for lines_too, want in ((True, full), (False, text)):
        equal(call('read_from_file', utils.read_from_file, path, None, lines=lines_too), want, f'read_from_file of the path, lines={lines_too}')
        with open(path, encoding='utf8') as handle:
            equal(call('read_from_file', utils.read_from_file, None, handle, lines=lines_too), want, f'read_from_file of an open file, lines={lines_too}')
            require(not handle.closed, 'the open file was closed')
    if case['find']:
        want = [line for line in full for f in case['find'] if f in line]
        equal(call('read_from_file', utils.read_from_file, path, None, contains=case['find']), want, f'lines of {text!r} with {case["find"]}')
    equal(call('file_exists', utils.file_exists, path), True, 'file_exists of a file')
    missing = os.path.join(scratch(), 'missing', 'file')
    equal(call('file_exists', utils.file_exists, missing), False, 'file_exists of a missing file')
    for value, want in (([], True), (['a'], True), ((1, 2), True), (np.zeros(2), True), ('ab', False), ('', False), (1, False), (1.5, False), (None, False)):
        equal(call('is_sequence', utils.is_sequence, value), want, f'is_sequence({value!r})')
    expect_exit('file_exists of nothing', 16, utils.file_exists, '')
    expect_exit('reading a missing file', 14, utils.read_from_file, missing, None)
    expect_exit('closing nothing', 15, open_close_file_handler)
    handle = io.StringIO()
    handle.write(text + '\n')
    call('remove_newline', utils.remove_newline, handle)
    equal(handle.getvalue(), text, 'remove_newline')
    handle = open_close_file_handler(path, status='w')
    handle.write(text + '\n\n')
    call('remove_newline', utils.remove_newline, handle, num_newlines=2)
    call('closing', open_close_file_handler, file_handler=handle)
    require(handle.closed, 'the file was not closed')
    equal(open(path, encoding='utf8').read(), text, 'remove_newline of two newlines of a file')


FILES = st.fixed_dictionaries(dict(times=st.one_of(st.just([6]), st.lists(st.integers(1, 6), max_size=12)), lines=st.lists(st.text('abc =1', max_size=6), max_size=6), find=st.one_of(st.lists(st.text('abc=1', min_size=1, max_size=2), max_size=2), st.lists(st.text('abcdefgh=1', min_size=1, max_size=3), min_size=10, max_size=20))))


def check_integers(case):
    line = ' ' * case['indent'] + case['key'] + ' ' * case['before'] + '=' + ' ' * case['after'] + str(case['value']) + case['rest']
    asked = case['asked'] or case['key']
    inputs = {'other': 1, asked.lower(): None}
    want = {'other': 1, asked.lower(): case['value'] if asked == case['key'] and case['indent'] else None}
    call('match_integer_param', utils.match_integer_param, inputs, asked, line)
    equal(inputs, want, f'match_integer_param({asked}, {line!r})')


INTS = st.fixed_dictionaries(dict(key=st.sampled_from(['NSW', 'NELM', 'NELMIN', 'IBRION', 'XNSW']), asked=st.sampled_from([None, None, 'NSW', 'NELM', 'IBRION']), indent=st.integers(0, 4), before=st.integers(0, 4), after=st.integers(0, 6), value=st.integers(-9, 10000),
                                  rest=st.sampled_from(['', '\n', ';   NELMIN=  2\n', '    number of steps\n'])))

SUBS = [
    Sub('coordinates', COORDS, check_coordinates, quick=3000, labels=lambda c: ['left-handed' if det(c['cell']) < 0 else 'right-handed'], nontrivial=lambda c: any(c['x']) and any(c['y']), rule='non-zero points', shards=4),
    Sub('numbers', NUMBERS, check_numbers, quick=6000, labels=lambda c: ['all numbers' if all(NUMBER.match(t) for t in c['tokens']) else 'not all numbers'], rule='every case', shards=4),
    Sub('lines', lines(), check_lines, quick=4000, labels=lambda c: [c['kind'], f'{min(len(c["tokens"]), 2)}{"+" if len(c["tokens"]) > 1 else ""} items'], nontrivial=lambda c: bool(c['tokens']), rule='at least one item', shards=4),
    Sub('files', FILES, check_files, quick=600, nontrivial=lambda c: bool(c['lines']), rule='at least one line', shards=2),
    Sub('integers', INTS, check_integers, quick=1000, rule='every case', shards=2),
]
