"""C08: KPOINTS round trip and edits."""
import io

import numpy as np
from hypothesis import strategies as st

from parsevasp.kpoints import Kpoint, Kpoints
from pbt import gen, kpoints_common as kc
from pbt.c05 import check_decimals
from pbt.c07 import compare
from pbt.core import Sub, call, close, equal, expect_exit, expect_refused, require, snapshot, write_file

RULE = 'k-point sets are read from text or built from dictionaries, edited by generated histories, written to every sink, and read by an own reader and by the parser.'
ASSUMPTIONS = ['dictionaries hold Kpoint objects in direct coordinates', 'an absent shift is written as a zero shift', 'line mode has unit weights, and only explicit lists have other ones']


def to_dict(m):
    out = kc.expected(m)
    out['comment'] = m['comment']
    if out['points'] is not None:
        # points that are the same share one object
        made = {}
        out['points'] = [made.setdefault((tuple(p), w), Kpoint(np.array(p), w, direct=d)) for p, w, d in out['points']]
    return out


def build(case):
    m = case['model']
    options = case['options']
    if case['how'] == 'text':
        text = kc.render(m, case['layout'])
        return call(f'reading {text!r}', Kpoints, kpoints_string=text, **options), dict(kc.printed(m, case['layout']['fmt']), comment=m['comment'].replace('#', '').strip())
    m = dict(m, comment=case['comment'])
    return call('building from a dictionary', Kpoints, kpoints_dict=to_dict(m), **options), m


def want_written(m):
    """What a reader of the written text must see."""
    out = dict(m, comment='No comment' if m['comment'] is None else m['comment'])
    if m['kind'] in ('gamma', 'mp', 'grg') and m['shifts'] is None:
        out['shifts'] = [0.0, 0.0, 0.0]
    if m['kind'] == 'explicit':
        out['weights'] = [1.0 if w is None else w for w in m['weights']]
    return kc.expected(out)


def check_text(text, m, options, what):
    tol = 0.6 * 10.0 ** -(options.get('prec') or 9)
    check_decimals(text, options.get('prec') or 9, what)
    try:
        data = kc.read(text)
    except (ValueError, IndexError, KeyError) as exc:
        require(False, f'{what}: the written text is not a KPOINTS ({exc}): {text!r}')
    compare(kc.expected(data), want_written(m), f'{what} {text!r}', tol=tol)


def check(case):
    obj, m = build(case)
    options = case['options']
    held = kc.expected(m)
    held['comment'] = m['comment']
    compare(obj.get_dict(), held, 'held k-points')
    text = call('get_string', obj.get_string)
    check_text(text, m, options, 'written text')
    path = write_file('KPOINTS.out', 'x\n' * 200)
    call('write to a path', obj.write, file_path=path)
    with open(path, encoding='utf8') as handle:
        equal(handle.read(), text, 'text written to a path')
    with open(path, 'w', encoding='utf8') as handle:
        call('write to an open file', obj.write, file_handler=handle)
        require(not handle.closed, 'write closed the file of the caller')
    with open(path, encoding='utf8') as handle:
        equal(handle.read(), text, 'text written to an open file')
    buffer = io.StringIO()
    call('write to a buffer', obj.write, file_handler=buffer)
    equal(buffer.getvalue(), text, 'text written to a buffer')
    compare(obj.get_dict(), held, 'k-points after writing')
    tol = 0.6 * 10.0 ** -(options.get('prec') or 9)
    for again in (call('reading back', Kpoints, file_path=path, **options), call('reading back', Kpoints, kpoints_string=text, **options)):
        compare(again.get_dict(), want_written(m), f'read back from {text!r}', tol=tol)
        equal([ln.rstrip() for ln in call('get_string', again.get_string).split('\n')], [ln.rstrip() for ln in text.split('\n')], 'second text')


@st.composite
def strategy(draw, large=False):
    m = draw(kc.model(('explicit', 'line'), large=True) if large else kc.model())
    if m['kind'] == 'explicit' and draw(st.integers(0, 6)) == 0:
        m['weights'] = [None] * len(m['points'])
    options = {'prec': draw(st.sampled_from([1, 3, 6, 12, 14]))} if draw(st.integers(0, 2)) == 0 else {}
    return dict(model=m, layout=draw(kc.layout()), how=draw(st.sampled_from(['text', 'dict'])), options=options, comment=draw(st.sampled_from([None, 'Example', '', 'No comment'])))


def check_history(case):
    # with a dictionary a second object is made of it and given the same lists of points
    other, others, lists = None, None, []
    if case['how'] == 'text':
        obj, m = build(case)
    else:
        m = dict(case['model'], comment=case['comment'])
        source = to_dict(m)
        lists.append((source, snapshot(source)))
        obj = call('building from a dictionary', Kpoints, kpoints_dict=source)
        other = call('building from the same dictionary', Kpoints, kpoints_dict=source)
        others = m
    kind = m['kind']
    for n, op in enumerate(case['ops']):
        what = op['op']
        when = f'after step {n} ({what})'
        f = gen.Filler(op['seed'])
        has_points = kind in ('explicit', 'line')
        weight = 1.0 if kind == 'line' else f.positive(4, 9)
        if what == 'comment':
            m = dict(m, comment=op['text'])
            call('modify comment', obj.modify, 'comment', op['text'])
        elif what == 'grid':
            if kind == 'grg':
                m = dict(m, vectors=f.array([3, 3], 5, 1))
                call('modify generating_vectors', obj.modify, 'generating_vectors', [list(v) for v in m['vectors']])
            elif not has_points:
                m = dict(m, divisions=[f.integer(1, 20) for _ in range(3)])
                call('modify divisions', obj.modify, 'divisions', list(m['divisions']))
        elif what == 'shifts' and not has_points:
            m = dict(m, shifts=f.array([3], 5, 1))
            call('modify shifts', obj.modify, 'shifts', list(m['shifts']))
        elif what == 'centering' and kind in ('gamma', 'mp'):
            m = dict(m, kind='mp' if kind == 'gamma' else 'gamma')
            kind = m['kind']
            call('modify centering', obj.modify, 'centering', 'Gamma' if kind == 'gamma' else 'Monkhorst-Pack')
        elif what == 'count' and kind == 'line':
            m = dict(m, count=f.integer(1, 99))
            call('modify num_kpoints', obj.modify, 'num_kpoints', m['count'])
        elif what == 'tetra' and kind == 'explicit':
            m = dict(m, tetra=[[f.integer(1, 9) for _ in range(5)] for _ in range(f.integer(1, 3))], volume=f.positive(6, 1))
            call('modify tetra', obj.modify, 'tetra', [list(t) for t in m['tetra']])
            call('modify tetra_volume', obj.modify, 'tetra_volume', m['volume'])
        elif what == 'point' and has_points:
            i = op['n'] % len(m['points'])
            p = f.array([3], 6, 1)
            m = dict(m, points=m['points'][:i] + [p] + m['points'][i + 1:])
            if kind == 'explicit':
                m['weights'] = m['weights'][:i] + [weight] + m['weights'][i + 1:]
            call('modify points', obj.modify, 'points', Kpoint(np.array(p), weight), point_number=i)
        elif what == 'points' and has_points:
            count = f.integer(1, 4) * 2
            m = dict(m, points=f.array([count, 3], 6, 1))
            if kind == 'explicit':
                m['weights'] = [f.positive(4, 9) for _ in range(count)]
            given = [Kpoint(np.array(p), w) for p, w in zip(m['points'], m.get('weights', [1.0] * count))]
            lists.append((given, snapshot(given)))
            call('modify points', obj.modify, 'points', given)
            if other is not None and others['kind'] == kind:
                call('modify points of another object', other.modify, 'points', given)
                others = dict(others, points=m['points'], **({'weights': m['weights']} if kind == 'explicit' else {}))
        elif what == 'switch':
            # to another mode, the new sampling first
            to = 'gamma' if has_points else ['explicit', 'line'][op['n'] % 2]
            kept = {'comment': m['comment']}
            if to == 'gamma':
                m = dict(kept, kind=to, divisions=[f.integer(1, 20) for _ in range(3)], shifts=f.array([3], 5, 1) if op['n'] % 3 else None)
                steps = [('divisions', list(m['divisions'])), ('shifts', None if m['shifts'] is None else list(m['shifts'])), ('centering', 'Gamma'), ('tetra', None), ('tetra_volume', None), ('num_kpoints', 0), ('points', None), ('mode', 'automatic')]
            else:
                m = dict(kept, kind=to, points=f.array([2 * f.integer(1, 3), 3], 6, 1))
                if to == 'explicit':
                    m.update(weights=[f.positive(4, 9) for _ in m['points']], tetra=None)
                else:
                    m['count'] = f.integer(1, 99)
                steps = [('points', [Kpoint(np.array(p), w) for p, w in zip(m['points'], m.get('weights', [1.0] * len(m['points'])))]), ('divisions', None), ('generating_vectors', None), ('shifts', None), ('centering', None)]
                steps += [('mode', to)] + ([('num_kpoints', m['count'])] if to == 'line' else [])
            kind = to
            for entry, value in steps:
                call(f'modify {entry}', obj.modify, entry, value)
        elif what == 'delete' and has_points and len(m['points']) > 1:
            i = op['n'] % len(m['points'])
            m = dict(m, points=m['points'][:i] + m['points'][i + 1:])
            if kind == 'explicit':
                m['weights'] = m['weights'][:i] + m['weights'][i + 1:]
            call('delete_point', obj.delete_point, i)
        elif what == 'bad':
            good = Kpoint(np.array([0.0, 0.0, 0.0]), 1.0)
            bad = op['bad']
            if bad == 'entry':
                expect_exit('modify an unknown entry', 207, obj.modify, ['foo', 'point', 'my points', 'mode2', 'tetra_', 'Comment', ''][op['n'] % 7], 1)
            elif bad == 'object' and has_points:
                expect_exit('modify a point with something else', 210, obj.modify, 'points', [[0.0, 0.0, 0.0], None, 5, np.zeros(3)][op['n'] % 4], point_number=0)
                expect_exit('modify the points with something else', 210, obj.modify, 'points', [[good, None], [[0.0, 0.0, 0.0]], ['a', good]][op['n'] % 3])
            elif bad == 'far' and has_points:
                expect_exit('modify a point that does not exist', 211, obj.modify, 'points', good, point_number=len(m['points']) + op['n'])
            elif bad == 'delete far' and has_points:
                expect_exit('delete a point that does not exist', 211, obj.delete_point, len(m['points']) + op['n'])
            elif bad == 'number' and has_points:
                number = ['0', 0.0, None, [0], -len(m['points']) - 1 - op['n']][op['n'] % 5]
                expect_refused(f'delete point {number!r}', obj.delete_point, number)
                if number is not None:
                    expect_refused(f'modify point {number!r}', obj.modify, 'points', good, point_number=number)
            elif bad in ('number', 'far', 'delete far'):
                expect_refused('delete a point of a grid', obj.delete_point, op['n'])
                expect_refused('modify a point of a grid', obj.modify, 'points', good, point_number=op['n'])
            elif bad == 'centering':
                expect_exit('modify the centring', 212, obj.modify, 'centering', 'gamma')
            elif bad == 'mode':
                expect_exit('modify the mode', 213, obj.modify, 'mode', 'auto')
            elif bad == 'types':
                entry, value = [('comment', 5), ('divisions', (1, 2, 3)), ('divisions', [1.0, 2, 3]), ('shifts', [0, 0, 0]), ('shifts', 'a'), ('tetra', [1, 2]), ('tetra', [[1, 2, 3, 4, 5.0]]),
                                ('tetra_volume', 1), ('num_kpoints', 2.0), ('points', good), ('generating_vectors', [[1, 2, 3]]), ('generating_vectors', [1.0]), ('divisions', [1, 2]), ('shifts', [0.0] * 4), ('generating_vectors', [[1.0, 0.0, 0.0]] * 2)][op['n'] % 15]
                expect_exit(f'modify {entry} with {value!r}', 13, obj.modify, entry, value)
            elif bad == 'tetra':
                expect_exit('modify tetra with four numbers', 201, obj.modify, 'tetra', [[1, 2, 3, 4]])
            elif bad == 'cart':
                if has_points:
                    expect_exit('modify a point with a Cartesian one', 205, obj.modify, 'points', Kpoint(np.array([0.0, 0.0, 0.0]), 1.0, direct=False), point_number=op['n'] % len(m['points']))
                expect_exit('modify points with Cartesian ones', 205, obj.modify, 'points', [good, Kpoint(np.array([0.0, 0.0, 0.0]), 1.0, direct=False)])
            elif bad == 'add':
                expect_refused('add_point', obj.add_point, 0)
        elif what == 'string':
            check_text(call('get_string', obj.get_string), m, case['options'], f'text {when}')
        held = kc.expected(m)
        held['comment'] = m['comment']
        compare(obj.get_dict(), held, when)
        for entry in held:
            if entry != 'points':
                close(call(f'get({entry})', obj.get, entry), held[entry], f'get({entry}) {when}', rtol=0, atol=1e-12) if entry in ('generating_vectors', 'shifts', 'tetra_volume') else equal(obj.get(entry), held[entry], f'get({entry}) {when}')
        points = call('get(points)', obj.get, 'points')
        compare(dict(held, points=None if points is None else [[p.get_point(), p.get_weight(), p.get_direct()] for p in points]), held, f'get(points) {when}')
        equal(call('get of an unknown entry', obj.get, 'point'), None, f'get of an unknown entry {when}')
    check_text(call('get_string', obj.get_string), m, case['options'], 'final text')
    for given, before in lists:
        equal(snapshot(given), before, 'what the caller passed in, after all edits')
    if other is not None:
        held = kc.expected(others)
        held['comment'] = others['comment']
        compare(other.get_dict(), held, 'the object that was not edited')


OP = st.fixed_dictionaries(dict(op=st.sampled_from(['comment', 'grid', 'shifts', 'centering', 'count', 'tetra', 'point', 'point', 'point', 'points', 'switch', 'delete', 'delete', 'delete', 'bad', 'bad', 'string']), seed=gen.seeds, n=st.integers(0, 14),
                                text=st.one_of(gen.comment_text('#\n\r'), gen.comment_text('#\n\r'), st.sampled_from([None, ''])), bad=st.sampled_from(['entry', 'object', 'far', 'delete far', 'number', 'centering', 'mode', 'types', 'types', 'tetra', 'cart', 'add'])))


@st.composite
def history(draw):
    m = draw(kc.model(('gamma', 'mp', 'grg', 'explicit', 'explicit', 'explicit', 'line', 'line')))
    return dict(model=m, layout=draw(kc.layout()), how=draw(st.sampled_from(['text', 'dict'])), options={}, comment=draw(st.sampled_from(['Example', None])), ops=draw(st.lists(OP, min_size=2, max_size=14)))


SUBS = [
    Sub('round_trip', strategy(), check, quick=2000, labels=lambda c: [c['model']['kind'], c['how']] + (['tetrahedra'] if c['model'].get('tetra') else []), rule='every case is a complete k-point set', shards=8),
    Sub('large', strategy(True), check, quick=200, labels=lambda c: [c['model']['kind'], c['how']], rule='every case has a long list of points', shards=4),
    Sub('history', history(), check_history, quick=1600, labels=lambda c: [c['model']['kind']] + sorted({o['op'] for o in c['ops']}), rule='at least three operations', nontrivial=lambda c: len(c['ops']) >= 3, shards=8),
]
