"""C19: CHGCAR grids."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from parsevasp.chgcar import Chgcar
from pbt.core import Sub, call, close, equal, require
from pbt.gen import Filler, large_sizes, seeds
from pbt.source import load, number, sources

RULE = 'cell, grid and 1, 2 or 4 data sets are generated, printed with the x index fastest, and every element [k][j][i] is compared with value(i, j, k) divided by the cell volume, computed in rational arithmetic.'
ASSUMPTIONS = ['one positive scaling factor', 'grid values are printed as real numbers, with or without exponent', 'lines behind the grid values start with the augmentation occupancies']


def det(m):
    a = [[Fraction(x) for x in row] for row in m]
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def build(case):
    fill = Filler(case['seed'])
    grid, cell = case['grid'], case['cell']
    n = grid[0] * grid[1] * grid[2]
    lines = [case['comment'], f'  {case["scaling"]}'] + [' ' + '  '.join(row) for row in cell]
    atoms = case['atoms']
    if case['symbols']:
        lines.append('   ' + '   '.join(['Ni', 'O', 'H'][:len(atoms)]))
    lines += ['   ' + '   '.join(map(str, atoms))]
    if case['selective']:
        lines.append('Selective dynamics')
    lines.append('Direct')
    for _ in range(sum(atoms)):
        lines.append('  ' + '  '.join(number(fill.positive(6, 1), 'fixed', 6) for _ in range(3)) + ('   T   F   T' if case['selective'] else ''))
    lines.append(case['blank'])
    sets = []
    for s in range(case['sets']):
        lines.append(' ' * case['indent'][s] + (' ' * case['between']).join(map(str, grid)))
        values = [number(fill.fixed(4), case['style'], 6) for _ in range(n)]
        sets.append(values)
        for i in range(0, n, case['per_line']):
            lines.append(' ' + ' '.join(values[i:i + case['per_line']]))
        if case['augmentation']:
            for atom in range(sum(atoms)):
                count = fill.integer(1, 7)
                lines.append(f'augmentation occupancies   {atom + 1}  {count}' if case['augmentation'] == 1 else f' augmentation occupancies (imaginary part)   {atom + 1}  {count}')
                extra = [number(fill.fixed(4), 'fortran', 6) for _ in range(count)]
                for i in range(0, count, 5):
                    lines.append('  ' + '  '.join(extra[i:i + 5]))
            if s + 1 < case['sets'] and case['moments']:
                lines.append('  ' + '  '.join(number(fill.fixed(4), 'fortran', 6) for _ in range(sum(atoms))))
    return '\n'.join(lines) + '\n' * case['newlines'], sets


def check(case):
    text, sets = build(case)
    obj = call(f'reading {text!r}', load, Chgcar, text, case['source'])
    nx, ny, nz = case['grid']
    volume = abs(det(case['cell'])) * Fraction(case['scaling'])**3

    def want(values):
        out = np.zeros((nz, ny, nx))
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    out[k, j, i] = Fraction(values[i + nx * (j + ny * k)]) / volume
        return out

    close(obj.charge_density, want(sets[0]), f'{text!r}: charge density', rtol=1e-10, atol=0)
    mag = obj.magnetization_density
    if len(sets) == 1:
        equal(mag, None, 'magnetisation of a file without one')
    elif len(sets) == 2:
        require(not isinstance(mag, dict), lambda: f'collinear magnetisation: got {mag!r}')
        close(mag, want(sets[1]), f'{text!r}: magnetisation', rtol=1e-10, atol=0)
    else:
        require(isinstance(mag, dict), lambda: f'non-collinear magnetisation: got {mag!r}')
        equal(sorted(mag), ['x', 'y', 'z'], 'magnetisation components')
        for name, values in zip('xyz', sets[1:]):
            close(mag[name], want(values), f'{text!r}: magnetisation {name}', rtol=1e-10, atol=0)


@st.composite
def strategy(draw):
    while True:
        flat = [f'{draw(st.integers(-40, 40)) / 8:.6f}' for _ in range(9)]
        cell = [flat[:3], flat[3:6], flat[6:]]
        if abs(det(cell)) > Fraction(1, 4):
            break
        for i in range(3):  # make it non-singular rather than retry
            cell[i][i] = f'{float(cell[i][i]) + 20 + i:.6f}'
        if abs(det(cell)) > Fraction(1, 4):
            break
    size = st.one_of(st.integers(1, 5), st.sampled_from([1, 2]))
    return dict(
        cell=cell, scaling=draw(st.sampled_from(['1.0', '1.0000000000000000', '3.5', '0.25', '2', '1.37'])), grid=[draw(size), draw(size), draw(size)], sets=draw(st.sampled_from([1, 2, 4])),
        comment=draw(st.sampled_from(['unknown system', '', '   ', 'Ni', 'Ni O   1.0', '1 2 3', ' augmented', 'x'])), symbols=draw(st.booleans()), atoms=draw(st.lists(st.integers(1, 2), min_size=1, max_size=3)), selective=draw(st.integers(0, 4)) == 0,
        blank=draw(st.sampled_from(['', '', ' ', '  ', '     '])), indent=[draw(st.integers(1, 5)) for _ in range(4)] if draw(st.booleans()) else [3] * 4, between=draw(st.integers(1, 5)), per_line=draw(st.sampled_from([5, 5, 10, 1, 3])),
        style=draw(st.sampled_from(['fortran', 'sci', 'fixed', 'short'])), augmentation=draw(st.integers(0, 2)), moments=draw(st.booleans()), newlines=draw(st.integers(0, 2)), seed=draw(seeds), source=draw(sources))


@st.composite
def large(draw):
    """One long direction of the grid, or many atoms with their augmentation lines."""
    case = draw(strategy())
    if draw(st.integers(0, 3)):
        case['grid'][draw(st.integers(0, 2))] = draw(large_sizes)
    else:
        case['atoms'] = [draw(large_sizes)] + case['atoms'][1:]
    return case


def labels(case):
    out = [f'{case["sets"]} data sets', 'augmentation' if case['augmentation'] else 'no augmentation', 'source ' + case['source'], 'left-handed cell' if det(case['cell']) < 0 else 'right-handed cell']
    if len(set(case['grid'])) < 3:
        out.append('equal grid sizes')
    return out


SUBS = [
    Sub('grids', strategy(), check, quick=3000, labels=labels, nontrivial=lambda c: c['grid'][0] * c['grid'][1] * c['grid'][2] > 1, rule='more than one grid point', shards=8),
    Sub('large', large(), check, quick=160, labels=labels, rule='at least eleven grid points or atoms', shards=8),
]
