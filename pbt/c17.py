"""C17: DOSCAR columns."""
import numpy as np
from hypothesis import strategies as st

from parsevasp.doscar import Doscar
from pbt.core import Sub, call, close, equal, require
from pbt.gen import Filler, large_sizes, seeds
from pbt.source import NUMBERS, load, number, sources

RULE = 'a model (grid, ions, spin treatment, decomposition) is filled with distinct numbers, printed column by column as VASP does (spin or magnetisation components adjacent), and every returned field is compared with the model.'
ASSUMPTIONS = ['columns are separated by blanks', 'the column layouts are those of the dtype tables in doscar.py; a file with a 17 column partial part is non-collinear exactly if the caller says so']

L = {'l3': ['s', 'p', 'd'], 'l4': ['s', 'p', 'd', 'f']}
D = ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2']
L['lm3'] = D
L['lm4'] = D + ['fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fz(x2-y2)', 'fx(x2-3y2)']
COMPONENTS = {'none': 1, 'spin': 2, 'ncl': 4}


def build(case):
    """The printed text and the model read back from it."""
    fill = Filler(case['seed'])
    ndos, nions, style = case['ndos'], case['n_ions'], case['style']
    header = [number(fill.fixed(8), 'fixed', 8), number(fill.fixed(8), 'fixed', 8), str(ndos), number(fill.fixed(8), 'fixed', 8), number(fill.positive(8, 9), 'fixed', 8)]
    gap = ' ' * case['gap']

    def row(energy, count):
        return [energy] + [number(fill.fixed(), style) for _ in range(count)]

    energies = [number(fill.fixed(3), 'fixed', 3) for _ in range(ndos)]
    total = [row(e, 4 if case['spin'] == 'spin' else 2) for e in energies]
    if case['decoy'] and case['spin'] == 'spin':
        total[fill.integer(0, ndos - 1)] = list(header)
    names = L.get(case['layout'])
    comps = COMPONENTS[case['spin']]
    pdos = []
    if names:
        pdos = [[row(e, len(names) * comps) for e in energies] for _ in range(nions)]
    lines = [f'{nions:4d}{case["n_atoms"]:4d}{int(bool(names)):4d}{comps:4d}']
    lines += [gap + gap.join(number(fill.positive(7, 50), 'fortran', 7) for _ in range(5)), gap + '1.0000000000000000E-004', gap + case['coord'], gap + case['name']]
    lines += [gap + gap.join(header)]
    lines += [gap + gap.join(r) for r in total]
    for block in pdos:
        lines += [gap + gap.join(header)] + [gap + gap.join(r) for r in block]
    text = '\n'.join(lines) + '\n' * case['newlines']
    return text, header, total, pdos, names, comps


def check(case):
    text, header, total, pdos, names, comps = build(case)
    obj = call(f'reading {text!r}', load, Doscar, text, case['source'], non_collinear=case['spin'] == 'ncl')
    equal(dict(obj.get_metadata()), dict(
        n_ions=case['n_ions'], n_atoms=case['n_atoms'], cartesian=case['coord'][0] in 'cC', name=case['name'].strip(), emax=float(header[0]), emin=float(header[1]),
        n_dos=case['ndos'], efermi=float(header[3]), weight=float(header[4])), 'metadata')
    dos, numbers = obj.get_dos(), np.array(total, dtype=float)
    equal(list(dos.dtype.names), ['energy', 'total', 'integrated'], 'total density: fields')
    close(dos['energy'], numbers[:, 0], 'total density: energy', rtol=1e-14, atol=0)
    if case['spin'] == 'spin':
        close(dos['total'], numbers[:, 1:3], 'total density: total', rtol=1e-14, atol=0)
        close(dos['integrated'], numbers[:, 3:5], 'total density: integrated', rtol=1e-14, atol=0)
    else:
        close(dos['total'], numbers[:, 1], 'total density: total', rtol=1e-14, atol=0)
        close(dos['integrated'], numbers[:, 2], 'total density: integrated', rtol=1e-14, atol=0)
    got = obj.get_pdos()
    if not names:
        require(got is None or got.size == 0, lambda: f'no partial density was printed, got {got!r}')
        return
    equal(list(got.dtype.names), ['energy'] + names, 'partial density: fields')
    numbers = np.array(pdos, dtype=float)
    close(got['energy'], numbers[:, :, 0], 'partial density: energy', rtol=1e-14, atol=0)
    for i, name in enumerate(names):
        want = numbers[:, :, 1 + i * comps:1 + (i + 1) * comps]
        close(got[name], want if comps > 1 else want[:, :, 0], f'partial density: {name}', rtol=1e-14, atol=0)


@st.composite
def strategy(draw):
    n_ions = draw(st.integers(1, 4))
    return dict(
        n_ions=n_ions, n_atoms=draw(st.one_of(st.just(n_ions), st.integers(1, 9))), ndos=draw(st.integers(1, 7)), spin=draw(st.sampled_from(list(COMPONENTS))),
        layout=draw(st.sampled_from([''] + list(L))), style=draw(st.sampled_from(NUMBERS)), gap=draw(st.integers(1, 3)), seed=draw(seeds), decoy=draw(st.integers(0, 4)) == 0,
        coord=draw(st.sampled_from(['CAR', 'Cartesian', 'c', 'DIR', 'direct'])), name=draw(st.sampled_from(['unknown system', 'Si', 'X', 'a b  c', '1', '', 'Fe O 2.0'])),
        newlines=draw(st.integers(0, 1)), source=draw(sources))


@st.composite
def large(draw):
    """Many energies or many ions."""
    case = draw(strategy())
    if draw(st.booleans()):
        case.update(ndos=draw(large_sizes), n_ions=1)
    else:
        case.update(n_ions=draw(large_sizes), ndos=min(case['ndos'], 2))
    return case


def labels(c):
    return [f'{c["spin"]} {c["layout"] or "no partial part"}', 'source ' + c['source']] + (['look-alike of the header row'] if c['decoy'] and c['spin'] == 'spin' else [])


SUBS = [
    Sub('columns', strategy(), check, quick=4000, labels=labels,
        nontrivial=lambda c: c['ndos'] > 1 or bool(c['layout']), rule='more than one energy or a partial part', shards=8),
    Sub('large', large(), check, quick=160, labels=labels, rule='at least eleven energies or ions', shards=8),
]
