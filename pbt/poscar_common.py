"""POSCAR models, an independent writer and an independent reader."""
from hypothesis import strategies as st

from pbt import gen

SYMBOLS = ['H', 'He', 'Si', 'O', 'C', 'Cl', 'U', 'N', 'Fe', 'S', 'K', 'B', 'I', 'F', 'Co', 'In', 'Xe', 'si', 'FE', 'cL', 'hamburger', 'Si1', 'X', 'Fe_pv', 'O_s/3f2a', 'Ga_d_GW']


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(m):
    d = det3(m)
    cof = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != i]
            c = [k for k in range(3) if k != j]
            minor = m[r[0]][c[0]] * m[r[1]][c[1]] - m[r[0]][c[1]] * m[r[1]][c[0]]
            cof[j][i] = (-1) ** (i + j) * minor / d
    return cof


def vecmat(v, m):
    return [sum(v[i] * m[i][j] for i in range(3)) for j in range(3)]


def scale3(s, m):
    return [[s * x for x in row] for row in m]


@st.composite
def lattice(draw, decimals=6):
    """Well-conditioned cells of either handedness, symmetric or not."""
    kind = draw(st.sampled_from(['cubic', 'tric', 'tric', 'tric', 'fcc', 'ortho', 'large']))
    f = gen.Filler(draw(gen.seeds))
    a = f.fixed(decimals, 3)
    d = [round(4.5 + f.fixed(decimals, 3), decimals) for _ in range(3)]
    if kind == 'cubic':
        m = [[round(4.5 + a, decimals) if i == j else 0.0 for j in range(3)] for i in range(3)]
    elif kind == 'ortho':
        m = [[d[i] if i == j else 0.0 for j in range(3)] for i in range(3)]
    elif kind == 'large':
        m = [[round(d[i] * 1000, decimals) if i == j else round(f.fixed(decimals, 1) * 600, decimals) for j in range(3)] for i in range(3)]
        m[draw(st.integers(0, 2))] = [-x for x in m[0]] if draw(st.booleans()) else m[0]
        if abs(det3(m)) < 1e9:
            m = [[round(d[i] * -1000, decimals) if i == j else 0.0 for j in range(3)] for i in range(3)]
    elif kind == 'fcc':
        h = round(2.5 + a / 4, decimals)
        m = [[0.0, h, h], [h, 0.0, h], [h, h, 0.0]]
    else:
        m = [[d[i] if i == j else round(f.fixed(decimals, 1) * 0.6, decimals) for j in range(3)] for i in range(3)]
        perm = draw(st.permutations([0, 1, 2]))
        m = [m[p] for p in perm]
        if draw(st.booleans()):
            m[0] = [-x for x in m[0]]
    return m


FORMATS = ['%.10f', '%22.16f', '%.8E', '%r', '%12.6f']


def fmt(spec, x):
    text = repr(float(x)) if spec == '%r' else spec % x
    return text.strip()


def vectors(draw, n, spread=1.2):
    """n 3-vectors, mostly distinct numbers, sometimes special ones."""
    kind = draw(st.sampled_from(['filler', 'filler', 'filler', 'special', 'wide']))
    if kind == 'wide':
        # wider than the columns of the writer
        f = gen.Filler(draw(gen.seeds))
        return [[f.fixed(4, f.integer(1, 5) ** 7) for _ in range(3)] for _ in range(n)]
    if kind == 'special' and n < 30:
        return [[draw(st.sampled_from([0.0, 0.5, 1.0, -0.25, 0.75, -1.0])) for _ in range(3)] for _ in range(n)]
    f = gen.Filler(draw(gen.seeds))
    return [[round(f.fixed(6, 1) * spread, 6) for _ in range(3)] for _ in range(n)]


@st.composite
def structure(draw, max_runs=4, velocities=True, symbols=None, large=False):
    runs = draw(st.lists(st.tuples(st.sampled_from(symbols or SYMBOLS), st.sampled_from([1, 1, 1, 2, 2, 3, 5])), min_size=1, max_size=max_runs))
    if large:
        runs[0] = (runs[0][0], draw(gen.large_sizes))
        if draw(st.booleans()):
            runs = runs[1:] + runs[:1]
    n = sum(c for _, c in runs)
    if draw(st.integers(0, 7)) == 0:
        # a species of which there is none
        for _ in range(draw(st.integers(1, 2))):
            runs.insert(draw(st.integers(0, len(runs))), (draw(st.sampled_from(symbols or SYMBOLS)), 0))
    cart = draw(st.booleans())
    selective = draw(st.sampled_from([None, None, 'flags']))
    flags = None
    if selective:
        f = gen.Filler(draw(gen.seeds))
        if draw(st.integers(0, 3)) == 0:
            # almost everything is free
            flags = [[True] * 3 for _ in range(n)]
            for _ in range(draw(st.integers(0, 2))):
                flags[f.integer(0, n - 1)][f.integer(0, 2)] = False
        else:
            flags = [[f.integer(0, 4) > 1 if n > 30 else draw(st.booleans()) for _ in range(3)] for _ in range(n)]
    vel = pred = None
    if velocities:
        which = draw(st.sampled_from(['none', 'none', 'vel', 'both', 'pred']))
        if which in ('vel', 'both'):
            vel = dict(cart=draw(st.booleans()), values=vectors(draw, n, 0.1))
        if which in ('both', 'pred'):
            pred = vectors(draw, n, 0.9)
        if which != 'none' and draw(st.integers(0, 4)) == 0:
            # as VASP prints them when nothing moves, or only one atom does
            f = gen.Filler(draw(gen.seeds))
            keep = draw(st.sampled_from([None, 0, f.integer(0, n - 1), n - 1]))
            for values in ([vel['values']] if vel else []) + ([pred] if pred else []):
                for i in range(n):
                    if i != keep:
                        values[i] = [0.0, 0.0, 0.0]
    return dict(comment=draw(st.one_of(gen.comment_text('#\n\r'), st.sampled_from(['# Example file', 'Compound: Si2.', '', 'a # b']))), scaling=draw(st.sampled_from([1.0, 1.0, 2.5, 0.5, 3.57, 10.0])), lattice=draw(lattice()),
                runs=[list(r) for r in runs], cart=cart, positions=vectors(draw, n, 4.0 if cart else 1.2), flags=flags, vel=vel, pred=pred)


@st.composite
def layout(draw):
    return dict(
        fmt=draw(st.sampled_from(FORMATS)), indent=draw(st.sampled_from(['', ' ', '   '])), sep=draw(st.sampled_from([' ', '  ', '\t'])),
        direct=draw(st.sampled_from(['Direct', 'direct', 'D', 'd', 'DIRECT coordinates', 'Dir', ' Direct', '  d', 'Fractional', 'Reciprocal', ' '])), cart=draw(st.sampled_from(['Cartesian', 'cart', 'C', 'K', 'k', 'kartesian', 'CARTESIAN', ' Cartesian', '\tk'])),
        sel=draw(st.sampled_from(['Selective dynamics', 's', 'S', 'selective', 'Sel', ' Selective', '  s'])), vd=draw(st.sampled_from(['Direct', 'direct', 'd', ' Direct'])), vc=draw(st.sampled_from(['Cartesian', 'cartesian', 'c', 'K', 'k', ' Cartesian', '  k'])),
        true=draw(st.sampled_from(['T', '.TRUE.', 't', 'True'])), false=draw(st.sampled_from(['F', '.FALSE.', 'f', 'False'])), label=draw(st.sampled_from(['', '', ' ! 1', ' Si', ' # site'])),
        scale_note=draw(st.sampled_from(['', '', ' scaling'])), trail=draw(st.lists(st.sampled_from(['', ' ', '  ', '\t']), max_size=3)), blank=draw(st.sampled_from(['', ' ', '   ', '\t', ' \t '])), final=draw(st.booleans()))


def render(s, lay):
    """The POSCAR text of structure `s` in layout `lay`, and the numbers as printed."""
    def num(x):
        return fmt(lay['fmt'], x)

    def row(v, extra=''):
        return lay['indent'] + lay['sep'].join(num(x) for x in v) + extra
    out = [s['comment'], lay['indent'] + num(s['scaling']) + lay['scale_note']]
    out += [row(v) for v in s['lattice']]
    out.append(lay['indent'] + lay['sep'].join(r[0] for r in s['runs']))
    out.append(lay['indent'] + lay['sep'].join(str(r[1]) for r in s['runs']))
    if s['flags'] is not None:
        out.append(lay['sel'])
    out.append(lay['cart'] if s['cart'] else lay['direct'])
    for i, p in enumerate(s['positions']):
        extra = ''
        if s['flags'] is not None:
            extra = lay['sep'] + lay['sep'].join(lay['true'] if f else lay['false'] for f in s['flags'][i])
        out.append(row(p, extra + lay['label']))
    if s['vel'] is not None:
        out.append(lay['vc'] if s['vel']['cart'] else lay['vd'])
        out += [row(v) for v in s['vel']['values']]
    if s['pred'] is not None:
        out.append(lay['blank'])
        out += [row(v) for v in s['pred']]
    out += lay['trail']
    return '\n'.join(out) + ('\n' if lay['final'] else '')


def printed(s, spec):
    """The structure with every number replaced by the value that is printed."""
    def r(x):
        return float(fmt(spec, x))

    def rr(vs):
        return [[r(x) for x in v] for v in vs]
    return dict(s, scaling=r(s['scaling']), lattice=rr(s['lattice']), positions=rr(s['positions']), vel=None if s['vel'] is None else dict(s['vel'], values=rr(s['vel']['values'])),
                pred=None if s['pred'] is None else rr(s['pred']))


def sites_of(s):
    """Expected sites in direct coordinates, in file order: (cell, [dict])."""
    cell = scale3(s['scaling'], s['lattice'])
    inv_lat, inv_cell = inv3(s['lattice']), inv3(cell)
    species = [sym for sym, c in s['runs'] for _ in range(c)]
    out = []
    for i, sym in enumerate(species):
        pos = vecmat(s['positions'][i], inv_lat) if s['cart'] else s['positions'][i]
        vel = None
        if s['vel'] is not None:
            vel = s['vel']['values'][i]
            vel = vecmat(vel, inv_cell) if s['vel']['cart'] else vel
        out.append(dict(specie=sym.capitalize(), position=pos, selective=[True] * 3 if s['flags'] is None else s['flags'][i], velocities=vel, predictors=None if s['pred'] is None else s['pred'][i]))
    return cell, out


def read(text):
    """Independent reader of the VASP 5 POSCAR text that the writer emits: positions and velocities in direct coordinates."""
    lines = text.split('\n')
    comment = lines[0]
    scale = float(lines[1])
    cell = scale3(scale, [[float(x) for x in lines[i].split()] for i in (2, 3, 4)])
    species, counts = lines[5].split(), [int(x) for x in lines[6].split()]
    at = 7
    selective = lines[at][:1] in 'sS'
    at += selective
    head = lines[at]
    cart = head[:1] in 'cCkK'
    if not cart and head[:1] not in 'dD':
        raise ValueError(f'bad coordinate header {head!r}')
    at += 1
    if len(species) != len(counts):
        raise ValueError(f'{species} species but {counts} counts')
    n = sum(counts)
    names = [sp for sp, c in zip(species, counts) for _ in range(c)]
    inv = inv3(cell)
    sites = []
    for i in range(n):
        toks = lines[at + i].split()
        if len(toks) != (6 if selective else 3):
            raise ValueError(f'bad position line {lines[at + i]!r}')
        p = [float(x) for x in toks[:3]]
        sites.append(dict(specie=names[i], position=vecmat(p, inv) if cart else p, raw=p, selective=[t == 'T' for t in toks[3:]] if selective else [True] * 3, velocities=None, predictors=None))
    at += n
    rest = lines[at:]
    while rest and not rest[-1].strip():
        rest.pop()
    if rest and rest[0].strip():
        vcart = rest[0][:1] in 'cCkK'
        if not vcart and rest[0][:1] not in 'dD':
            raise ValueError(f'bad velocity header {rest[0]!r}')
        for i in range(n):
            v = [float(x) for x in rest[1 + i].split()]
            sites[i]['velocities'] = vecmat(v, inv) if vcart else v
        rest = rest[1 + n:]
    if rest:
        if rest[0].strip():
            raise ValueError(f'unexpected {rest[0]!r}')
        for i in range(n):
            sites[i]['predictors'] = [float(x) for x in rest[1 + i].split()]
        rest = rest[1 + n:]
    if rest:
        raise ValueError(f'trailing lines {rest!r}')
    return dict(comment=comment, cell=cell, species=species, counts=counts, selective=selective, cart=cart, sites=sites)


def formula(species, counts):
    return ''.join(sp.capitalize() + (str(c) if c != 1 else '') for sp, c in zip(species, counts))


def blocks(sites):
    """Adjacent runs of equal species."""
    names, counts = [], []
    for s in sites:
        if names and names[-1] == s['specie']:
            counts[-1] += 1
        else:
            names.append(s['specie'])
            counts.append(1)
    return names, counts
