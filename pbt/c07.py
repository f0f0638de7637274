"""C07: KPOINTS reading."""
import io

from hypothesis import strategies as st

from parsevasp.kpoints import Kpoints
from pbt import kpoints_common as kc
from pbt.core import Sub, call, close, equal, expect_exit, require, write_file

RULE = 'k-point models of every mode and textual layouts are generated independently; the file is rendered by an own writer and every entry is compared with the model.'
ASSUMPTIONS = ['text behind the values of a line is a comment; the lines of the tetrahedra carry no comments', 'k-points of line mode come in pairs']
SOURCES = ['string', 'path', 'handler', 'stringio']


def load(text, source, **kwargs):
    if source == 'string':
        return Kpoints(kpoints_string=text, **kwargs)
    if source == 'path':
        return Kpoints(file_path=write_file('KPOINTS', text), **kwargs)
    if source == 'handler':
        with open(write_file('KPOINTS', text), encoding='utf8') as handle:
            return Kpoints(file_handler=handle, **kwargs)
    return Kpoints(file_handler=io.StringIO(text), **kwargs)


def compare(got, want, what, tol=1e-12, wtol=None):
    equal(sorted(got), sorted(want), f'{what}: entries')
    for key in ('comment', 'divisions', 'mode', 'centering', 'num_kpoints', 'tetra'):
        equal(got[key], want[key], f'{what}: {key}')
    for key in ('generating_vectors', 'shifts', 'tetra_volume'):
        close(got[key], want[key], f'{what}: {key}', rtol=0, atol=tol)
    if want['points'] is None:
        require(got['points'] is None, f'{what}: points are {got["points"]!r}')
        return
    require(isinstance(got['points'], list) and len(got['points']) == len(want['points']), lambda: f'{what}: {len(got["points"] or [])} points, expected {len(want["points"])}')
    for i, (g, w) in enumerate(zip(got['points'], want['points'])):
        close(g[0], w[0], f'{what}: point {i}', rtol=0, atol=tol)
        if w[1] is None:
            equal(g[1], None, f'{what}: weight {i}')
        else:
            close(g[1], w[1], f'{what}: weight {i}', rtol=0, atol=wtol or tol)
        equal(g[2], w[2], f'{what}: coordinate type of point {i}')


def check(case):
    m, lay = case['model'], case['layout']
    text = kc.render(m, lay)
    want = kc.expected(kc.printed(m, lay['fmt']))
    if want['mode'] == 'automatic':
        want['num_kpoints'] = int(lay['zero'].split()[0])
    obj = call(f'reading {text!r}', load, text, case['source'])
    compare(obj.get_dict(), want, f'{text!r}')
    for key in ('comment', 'mode', 'centering', 'num_kpoints', 'divisions'):
        equal(call(f'get({key})', obj.get, key), want[key], f'get({key})')


@st.composite
def strategy(draw, large=False):
    m = draw(kc.model(('explicit', 'line'), large=True) if large else kc.model())
    if m['kind'] == 'explicit' and draw(st.integers(0, 5)) == 0:
        m['weights'] = [None] * len(m['points'])
    lay = draw(kc.layout())
    if draw(st.integers(0, 5)) == 0:
        lay['zero'] = draw(st.sampled_from(['-1', '-4', ' -10 automatic', '00']))  # not positive: an automatic grid
    return dict(model=m, layout=lay, source=draw(st.sampled_from(SOURCES)))


def labels(case):
    m, lay = case['model'], case['layout']
    out = [m['kind'], 'source ' + case['source']]
    if m['kind'] in ('gamma', 'mp'):
        out.append('shift' if m['shifts'] is not None else 'no shift')
    if m.get('tetra'):
        out.append('tetrahedra')
    if lay['trail']:
        out.append('blank lines at the end')
    return out


def check_reject(case):
    m, lay = case['model'], case['layout']
    kind = m['kind']
    code, header, ref = {'explicit': (200, case['cart'], None), 'line': (200, None, case['cart']), 'gamma': (202, case['auto'], None), 'mp': (203, case['expert'], None), 'grg': (206, case['unknown'], None)}[kind]
    if kind == 'explicit' and m['tetra'] is not None:
        row = m['tetra'][case['row'] % len(m['tetra'])]
        if case['more']:
            row.append(1)
        else:
            row.pop()
        code, header = 201, None
    text = kc.render(m, lay, header, ref)
    expect_exit(f'reading {text!r}', code, load, text, case['source'])


REJECT = st.fixed_dictionaries(dict(model=kc.model(), layout=kc.layout(), source=st.sampled_from(SOURCES), cart=st.sampled_from(['Cartesian', 'c', 'K', 'k', 'cart']), auto=st.sampled_from(['Auto', 'a', 'Automatic']),
                                    expert=st.sampled_from(['Direct', 'd', 'c', 'Cartesian']), unknown=st.sampled_from(['x', 'hexagonal', 'b']), row=st.integers(0, 5), more=st.booleans()))

SUBS = [
    Sub('modes', strategy(), check, quick=2500, labels=labels, rule='every case is a complete file', shards=8),
    Sub('large', strategy(True), check, quick=200, labels=labels, rule='every case has a long list of points', shards=4),
    Sub('reject', REJECT, check_reject, quick=500, labels=lambda c: [c['model']['kind']], rule='every case has one fault', shards=2),
]
