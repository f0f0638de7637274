"""KPOINTS models, an independent writer and an independent reader."""
from hypothesis import strategies as st

from pbt import gen
from pbt.poscar_common import fmt, FORMATS


def coords(draw, n):
    if n < 30 and draw(st.integers(0, 3)) == 0:
        return [[draw(st.sampled_from([0.0, 0.5, 0.25, -0.5, 1.0])) for _ in range(3)] for _ in range(n)]
    f = gen.Filler(draw(gen.seeds))
    if draw(st.integers(0, 7)) == 0:
        # wider than the columns of the writer
        return [[f.fixed(4, f.integer(1, 5) ** 6) for _ in range(3)] for _ in range(n)]
    return f.array([n, 3], draw(st.sampled_from([6, 11])), 1)


@st.composite
def model(draw, modes=('gamma', 'mp', 'grg', 'explicit', 'line'), large=False):
    mode = draw(st.sampled_from(modes))
    m = dict(kind=mode, comment=draw(st.one_of(gen.comment_text('#\n\r'), st.sampled_from(['# Example file', 'Gamma', '', 'k # points', '## k ##', '#', '# # two']))))
    if mode in ('gamma', 'mp'):
        m['divisions'] = [draw(st.integers(1, 12)) for _ in range(3)] if draw(st.booleans()) else [draw(st.integers(1, 200)), 1, draw(st.integers(1, 9))]
        m['shifts'] = coords(draw, 1)[0] if draw(st.booleans()) else None
    elif mode == 'grg':
        m['vectors'] = coords(draw, 3)
        m['shifts'] = coords(draw, 1)[0]
    elif mode == 'explicit':
        n = draw(gen.large_sizes if large else st.integers(1, 8))
        m['points'] = coords(draw, n)
        f = gen.Filler(draw(gen.seeds))
        digits = draw(st.sampled_from([5, 9]))
        m['weights'] = [draw(st.sampled_from([1.0, 2.0, 4.0, 0.0])) for _ in range(n)] if n < 30 and draw(st.booleans()) else [f.positive(digits, 20 ** f.integer(0, 4)) for _ in range(n)]
        if n < 30 and draw(st.integers(0, 3)) == 0:
            k = draw(st.integers(0, n - 1))
            m['points'].append(list(m['points'][k]))
            m['weights'].append(m['weights'][k])
        m['tetra'] = None
        if draw(st.booleans()):
            top = draw(st.sampled_from([n, n, 10 ** 7]))
            m['tetra'] = [[f.integer(1, 24)] + [f.integer(1, top) for _ in range(4)] for _ in range(draw(gen.large_sizes if large else st.integers(1, 6)))]
            m['volume'] = f.positive(draw(st.sampled_from([8, 11])), 1)
    else:
        m['count'] = draw(gen.large_sizes if large else st.integers(1, 60))
        m['points'] = coords(draw, 2 * draw(gen.large_sizes if large else st.integers(1, 5)))
        if len(m['points']) < 30 and draw(st.integers(0, 3)) == 0:
            m['points'] += [list(p) for p in m['points'][:2]]
    return m


@st.composite
def layout(draw):
    note = st.sampled_from(['', '', ' ! note', '  # note 2', '\tGAMMA'])
    return dict(
        fmt=draw(st.sampled_from(FORMATS)), indent=draw(st.sampled_from(['', ' ', '    '])), sep=draw(st.sampled_from([' ', '   ', '\t'])), gamma=draw(st.sampled_from(['Gamma', 'g', 'G', 'gamma-centered', ' Gamma', '\tg'])),
        mp=draw(st.sampled_from(['Monkhorst-Pack', 'm', 'M', 'monkhorst', '  Monkhorst'])), grg=draw(st.sampled_from(['Reciprocal', 'r', 'R', 'rec', ' r'])), direct=draw(st.sampled_from(['Direct', 'Reciprocal', 'rec', 'd', 'fractional', 'R'])),
        line=draw(st.sampled_from(['Line-mode', 'line', 'l', 'L', 'LINE', ' Line-mode', '\tl'])), ref=draw(st.sampled_from(['rec', 'Direct', 'r', 'd', 'Reciprocal', 'D', '  rec', ' Direct', '\tr'])), tetra=draw(st.sampled_from(['Tetrahedra', 't', 'T', 'tetra', ' Tetrahedra', '  t'])),
        notes=[draw(note) for _ in range(4)], gap=[draw(st.sampled_from(['', '', ' ', '  '])) for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2])))], trail=draw(st.lists(st.sampled_from(['', ' ', '   ']), max_size=3)),
        after=draw(st.sampled_from([None, None, None, '# text', 'optional shift of the mesh'])), final=draw(st.booleans()), whole=draw(st.booleans()), volume=draw(note), zero=draw(st.sampled_from(['0', '0', '0 automatic', '  0'])))


def render(m, lay, header=None, ref=None):
    def num(x):
        return fmt(lay['fmt'], x)

    def row(v, note='', whole=False):
        return lay['indent'] + lay['sep'].join(str(int(x)) if whole and x == int(x) else num(x) for x in v) + note
    notes = lay['notes']
    out = [m['comment']]
    kind = m['kind']
    trail = list(lay['trail'])
    if kind in ('gamma', 'mp'):
        out += [lay['zero'], header or lay[kind], lay['indent'] + lay['sep'].join(map(str, m['divisions'])) + notes[0]]
        if m['shifts'] is not None:
            out.append(row(m['shifts'], notes[1], lay['whole']))
            if lay['after'] is not None:
                trail = ['', lay['after']] + trail
    elif kind == 'grg':
        out += [lay['zero'], header or lay['grg']] + [row(v, notes[i]) for i, v in enumerate(m['vectors'])] + [row(m['shifts'], notes[3], lay['whole'])]
        if lay['after'] is not None:
            trail = [lay['after']] + trail
    elif kind == 'explicit':
        out += [lay['indent'] + str(len(m['points'])) + notes[0], lay['indent'] + (header or lay['direct'])]
        out += [row(p + ([] if w is None else [w]), notes[1] if w is not None else '') for p, w in zip(m['points'], m['weights'])]
        if m['tetra'] is not None:
            out += [lay['tetra'], f"{lay['indent']}{len(m['tetra'])}{lay['sep']}{num(m['volume'])}{lay['volume']}"]
            out += [lay['indent'] + lay['sep'].join(map(str, t)) for t in m['tetra']]
    else:
        out += [lay['indent'] + str(m['count']) + notes[0], header or lay['line'], ref or lay['ref']]
        for i, p in enumerate(m['points']):
            if i % 2 == 0 and i:
                out += lay['gap']
            out.append(row(p, notes[2 + i % 2]))
    out += trail
    return '\n'.join(out) + ('\n' if lay['final'] else '')


def printed(m, spec):
    def r(x):
        return float(fmt(spec, x))
    out = dict(m)
    for key in ('points', 'vectors'):
        if key in m:
            out[key] = [[r(x) for x in p] for p in m[key]]
    if m.get('shifts') is not None:
        out['shifts'] = [r(x) for x in m['shifts']]
    if 'weights' in m:
        out['weights'] = [None if w is None else r(w) for w in m['weights']]
    if m.get('tetra') is not None:
        out['volume'] = r(m['volume'])
    return out


def expected(m):
    """Entries in the documented dictionary form."""
    kind = m['kind']
    out = dict(comment=m['comment'].replace('#', '').strip() if m['comment'] is not None else None, divisions=m.get('divisions'), generating_vectors=m.get('vectors'), shifts=m.get('shifts'), points=None, tetra=m.get('tetra'),
               tetra_volume=m['volume'] if m.get('tetra') is not None else None, mode={'explicit': 'explicit', 'line': 'line'}.get(kind, 'automatic'),
               centering={'gamma': 'Gamma', 'mp': 'Monkhorst-Pack', 'grg': 'Reciprocal'}.get(kind), num_kpoints=0)
    if kind == 'explicit':
        out['points'] = [[p, w, True] for p, w in zip(m['points'], m['weights'])]
        out['num_kpoints'] = len(m['points'])
    elif kind == 'line':
        out['points'] = [[p, 1.0, True] for p in m['points']]
        out['num_kpoints'] = m['count']
    return out


def read(text):
    """Independent reader of written KPOINTS text, giving the model."""
    lines = text.split('\n')
    if not lines[0].startswith('#'):
        raise ValueError('no comment sign in the first line')
    m = dict(comment=lines[0].replace('#', '').strip())
    count = int(lines[1])
    head = lines[2][:1].lower()
    rest = lines[3:]
    while rest and not rest[-1].strip():
        rest.pop()

    def nums(ln, n):
        out = [float(x) for x in ln.split()]
        if len(out) != n:
            raise ValueError(f'{ln!r} has not {n} numbers')
        return out
    if count == 0:
        m['kind'] = {'g': 'gamma', 'm': 'mp', 'r': 'grg'}[head]
        if head == 'r':
            m['vectors'] = [nums(ln, 3) for ln in rest[:3]]
            rest = rest[3:]
        else:
            m['divisions'] = [int(x) for x in rest[0].split()]
            rest = rest[1:]
        m['shifts'] = nums(rest[0], 3) if rest else None
        rest = rest[1:]
    elif head == 'l':
        m['kind'], m['count'] = 'line', count
        if rest[0][:1].lower() not in 'rd':
            raise ValueError('no reference')
        m['points'] = [nums(ln, 3) for ln in rest[1:] if ln.strip()]
        rest = []
    else:
        if head not in 'rd':
            raise ValueError('no reference')
        m['kind'] = 'explicit'
        rows = [nums(ln, 4) for ln in rest[:count]]
        if len(rows) != count:
            raise ValueError(f'{len(rows)} points, {count} announced')
        m['points'], m['weights'], m['tetra'] = [r[:3] for r in rows], [r[3] for r in rows], None
        rest = rest[count:]
        if rest:
            if rest[0][:1].lower() != 't':
                raise ValueError(f'unexpected {rest[0]!r}')
            n, vol = rest[1].split()
            m['volume'] = float(vol)
            m['tetra'] = [[int(x) for x in ln.split()] for ln in rest[2:]]
            if len(m['tetra']) != int(n):
                raise ValueError('wrong number of tetrahedra')
            rest = []
    if rest:
        raise ValueError(f'trailing lines {rest!r}')
    return m
