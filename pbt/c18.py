"""C18: EIGENVAL."""
import numpy as np
from hypothesis import strategies as st

from parsevasp.eigenval import Eigenval
from pbt.core import Sub, call, close, equal
from pbt.gen import Filler, large_sizes, seeds
from pbt.source import NUMBERS, load, number, sources

RULE = 'a model (spins, k-points, bands) is filled with distinct numbers, printed as VASP prints it and compared index by index.'
ASSUMPTIONS = ['columns are separated by blanks', 'blocks are separated by at least one blank line']


def build(case):
    fill = Filler(case['seed'])
    nk, nb, ns, style = case['n_kp'], case['n_bands'], case['n_spin'], case['style']
    first = [fill.integer(1, 99), fill.integer(1, 99), fill.integer(0, 9), ns]
    real = [number(fill.positive(7, 50), 'fortran', 7) for _ in range(5)]
    gap = ' ' * case['gap']
    extra = fill.integer(1, 999)
    lines = [gap + gap.join(map(str, first)), gap + gap.join(real), gap + '1.000000000000000E-004', gap + case['coord'], gap + case['name'], gap + gap.join(map(str, (extra, nk, nb)))]
    points, bands = [], []
    for k in range(nk):
        lines += [case['blank']] * (1 + (case['extra_blank'] if k % 2 else 0))
        if case['repeat'] and k and fill.integer(0, 2) == 0:
            points.append(list(points[fill.integer(0, k - 1)]))
        else:
            points.append([number(fill.fixed(7, 1), 'fortran', 7) for _ in range(3)] + [number(fill.magnitude(7, 1), 'fortran', 7)])
        lines.append(gap + gap.join(points[-1]))
        rows = [[number(fill.fixed(6), style, 6) for _ in range(ns)] for _ in range(nb)]
        bands.append(rows)
        order = list(range(nb))
        for b in order:
            occupancies = [number(fill.magnitude(6, 1), 'fixed', 6) for _ in range(ns)] if case['occupancies'] else []
            lines.append(gap + gap.join([str(b + 1)] + rows[b] + occupancies))
    text = '\n'.join(lines) + '\n' * case['newlines']
    return text, first, real, extra, points, bands


def check(case):
    text, first, real, extra, points, bands = build(case)
    obj = call(f'reading {text!r}', load, Eigenval, text, case['source'])
    meta = dict(obj.get_metadata())
    equal(meta, {0: first, 1: [float(x) for x in real], 2: 1e-4, 'n_ions': first[0], 'n_atoms': first[1], 'p00': first[2], 'nspin': first[3], 'cartesian': case['coord'][0] in 'cC',
                 'name': case['name'].strip(), 'some_num': extra, 'n_bands': case['n_bands'], 'n_kp': case['n_kp']}, 'metadata')
    close(obj.get_kpoints(), np.array(points, dtype=float), f'{text!r}: k-points', rtol=1e-14, atol=0)
    close(obj.get_eigenvalues(), np.array(bands, dtype=float).transpose(2, 0, 1), f'{text!r}: eigenvalues [spin, k-point, band]', rtol=1e-14, atol=0)


strategy = st.fixed_dictionaries(dict(
    n_kp=st.integers(1, 6), n_bands=st.integers(1, 14), n_spin=st.integers(1, 2), occupancies=st.booleans(), style=st.sampled_from(NUMBERS), gap=st.integers(1, 4), seed=seeds,
    coord=st.sampled_from(['CAR', 'Cartesian', 'c', 'DIR']), name=st.sampled_from(['unknown system', 'Si', 'X', 'a b  c', '1', '', 'C']), blank=st.sampled_from(['', '', '  ', '\t']),
    extra_blank=st.sampled_from([0, 0, 1]), repeat=st.booleans(), newlines=st.integers(0, 3), source=sources))


@st.composite
def large(draw):
    """Many bands or many k-points."""
    case = draw(strategy)
    case[draw(st.sampled_from(['n_kp', 'n_bands']))] = draw(large_sizes)
    return case


def labels(c):
    return [f'{c["n_spin"]} spin', 'occupancies' if c['occupancies'] else 'no occupancies', 'source ' + c['source'], 'one k-point' if c['n_kp'] == 1 else 'several k-points']


SUBS = [
    Sub('bands', strategy, check, quick=4000, labels=labels,
        nontrivial=lambda c: c['n_kp'] * c['n_bands'] * c['n_spin'] > 1, rule='more than one eigenvalue', shards=8),
    Sub('large', large(), check, quick=160, labels=labels, rule='at least eleven bands or k-points', shards=8),
]
