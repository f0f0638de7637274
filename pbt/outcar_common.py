"""Model and writer of OUTCAR texts. The writer yields (line, event) pairs; the events carry what the line says."""
from hypothesis import strategies as st

from pbt.gen import Filler, seeds

ORBITALS = ['s', 'p', 'd', 'f']
CELLS = ['face centered cubic supercell.', 'body centered tetragonal supercell.', 'base centered monoclinic supercell.', 'simple cubic supercell.', 'triclinic supercell.', 'trigonal (rhombohedral) supercell.']
AXES = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']
NOISE = [
    '', ' ', '--------------------------------------------------------------------------------------------------------', '    POTLOK:  cpu time    0.0938: real time    0.0830', '     EDDAV:  cpu time    1.8281: real time    1.8372',
    '   Number of Iteration steps is large', '   NELMIN=  2; NELMDL=  7', ' POSCAR = Si with NELM = 3 ; NSW = 4', ' SYSTEM =  IBRION = 2   NBANDS=  7', ' POSCAR = my NSW    =      9', ' POSCAR = Iteration 7( 8) of the search', ' SYSTEM =  timing and accounting informations', ' INTERNAL STRAIN TENSORS FROM STRAINED CELLS', ' ============================================', ' the number of space group operations is large',
    ' augmentation part        0.3321023 magnetization       0.0000000', '  energy without entropy =      -43.37606392  energy(sigma->0) =      -43.37606392', ' magnetization density of overlapping spheres', ' E-fermi :   7.2948     XC(G=0): -10.3   alpha+bet : -9.1',
    ' total amount of memory used by VASP MPI-rank0    59720. kBytes', '  POSITION                                       TOTAL-FORCE (eV/Angst)', '      0.00000      0.00000      0.00000         0.000000      0.000000      0.000000', '  MAGMOM = 4*1.0', ' General timing of the job is not here',
    ' Found  8 k-points', ' reached required accuracy - stopping structural energy minimisation', '   in kB       1.0       2.0       3.0', ' number of dos      NEDOS =    301   number of ions     NIONS =      4',
]


@st.composite
def model(draw, elastic=True):
    spin = draw(st.sampled_from(['none', 'collinear', 'ncl']))
    steps = draw(st.one_of(st.lists(st.integers(1, 5), min_size=1, max_size=5), st.tuples(st.integers(1, 6), st.integers(1, 6)).map(list), st.integers(1, 13).map(lambda n: [n])))
    nelm = draw(st.one_of(st.integers(1, 8), st.sampled_from([60, 100, max(steps), min(steps), steps[-1], steps[-1] + 1, steps[-1] + 2])))
    if draw(st.integers(0, 3)) == 0:
        steps = [min(s, nelm) for s in steps]
    m = dict(
        seed=draw(seeds), n_ions=draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 12]))), orbitals=draw(st.sampled_from([3, 3, 4, 4, 2, 1])), spin=spin, steps=steps, nelm=nelm,
        nsw=draw(st.one_of(st.integers(0, 6), st.sampled_from([len(steps), len(steps), len(steps) + 1, 1000]))), ibrion=draw(st.sampled_from([-1, 0, 1, 2, 3, 5, 6, 8, 44])), nbands=draw(st.integers(1, 2000)),
        tables=draw(st.sampled_from(['last', 'all', 'none'])), symmetry=draw(st.integers(0, 2)), supercell=draw(st.integers(0, 4)) == 0, finished=draw(st.integers(0, 3)) > 0,
        elastic=draw(st.lists(st.sampled_from(['raw', 'symmetrized', 'contribution', 'total']), max_size=6)) if elastic else [],
        noise=draw(st.lists(st.tuples(st.integers(0, 400), st.integers(0, len(NOISE) - 1)), max_size=6)), memory=draw(st.booleans()), na=draw(st.integers(0, 3)) == 0, unreadable=draw(st.one_of(st.just([]), st.lists(st.integers(0, 11), max_size=3))), tail=draw(st.one_of(st.integers(0, 8), st.integers(0, 26))), large=draw(st.booleans()))
    return m


def write(m):  # pylint: disable=too-many-locals
    """List of (line without newline, event or None)."""
    fill = Filler(m['seed'])
    out = []

    def put(line, *event):
        out.append((line, event or None))

    def symmetry(kind):
        put(f'Analysis of symmetry for {"initial positions (statically)" if kind == "static" else "dynamics (positions and initial velocities)"}:')
        put('=====================================================================')
        put(' Subroutine PRICEL returns:')
        if m['supercell']:
            n = fill.integer(2, 64)
            put('')
            put(f'   {n} primitive cells build up your supercell.', 'cell', kind, f'{n} primitive cells')
        else:
            put(' Original cell was already a primitive cell.', 'cell', kind, 'primitive cell')
        put('')
        put('')
        cell = CELLS[fill.integer(0, len(CELLS) - 1)]
        put(' Routine SETGRP: Setting up the symmetry group for a')
        put(f' {cell}', 'supercell', kind, cell)
        put('')
        put('')
        n = fill.integer(1, 192)
        put(f' Subroutine GETGRP returns: Found {n:2d} space group operations', 'operations', kind, n)
        put(f' (whereof {n:2d} operations were pure point group operations)')
        put(f' out of a pool of {n + 2:2d} trial point group operations.')
        put('')

    def spheres(title, event):
        names = ORBITALS[:m['orbitals']]
        put(f' {title}')
        put('')
        put('# of ion ' + ''.join(f'      {n}  ' for n in names) + '     tot')
        put('------------------------------------------')
        table = {'sites': {}, 'total': {}}
        for i in range(m['n_ions']):
            row = {n: fill.fixed(3, 99 if m['large'] else 9) for n in names + ['tot']}
            table['sites'][i + 1] = row
            last = event and m['n_ions'] == 1
            put(f'{i + 1:5d}      ' + ''.join(f'{v:8.3f}' for v in row.values()))
            if last:
                table['total'] = row
        if m['n_ions'] > 1:
            put('--------------------------------------------------')
            table['total'] = {n: fill.positive(3, 999) if m['large'] and fill.integer(0, 1) else fill.fixed(3, 99 if m['large'] else 9) for n in names + ['tot']}
            put('tot        ' + ''.join(f'{v:8.3f}' for v in table['total'].values()))
        put('', *((event, table) if event else ()))
        put('')

    def elastic(which):
        title = {'raw': '  ELASTIC MODULI  (kBar)', 'symmetrized': '  SYMMETRIZED ELASTIC MODULI (kBar)', 'contribution': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', 'total': ' TOTAL ELASTIC MODULI (kBar)'}[which]
        put(title)
        put(' Direction    XX          YY          ZZ          XY          YZ          ZX')
        put(' --------------------------------------------------------------------------------')
        rows = []
        for axis in AXES:
            rows.append([fill.fixed(4, 99999 if m['large'] else 2000) for _ in range(6)])
            put(f' {axis}   ' + ''.join(f'{v:14.4f}' for v in rows[-1]), *(('elastic', which, [list(r) for r in rows]) if axis == 'ZX' else ()))
        put(' --------------------------------------------------------------------------------')
        put('')

    put(' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Feb 07 2019) complex')
    put(' executed on             LinuxIFC date 2019.11.27  09:17:59')
    put('')
    if m['symmetry']:
        for kind in ('static', 'dynamic'):
            symmetry(kind)
    put(f'   k-points           NKPTS =    128   k-points in BZ     NKDIM =    128   number of bands    NBANDS={m["nbands"]:7d}', 'nbands', m['nbands'])
    put(f'   NELM   ={m["nelm"]:7d};   NELMIN=  2; NELMDL=  0     # of ELM steps', 'nelm', m['nelm'])
    put(f'   NSW    ={m["nsw"]:7d}    number of steps for IOM', 'nsw', m['nsw'])
    put('   NBLOCK =      1;   KBLOCK =     30    inner block; outer block')
    put(f'   IBRION ={m["ibrion"]:7d}    ionic relax: 0-MD 1-quasi-New 2-CG', 'ibrion', m['ibrion'])
    put('   NFREE  =      0    steps in history (QN), initial steepest desc. (CG)')
    put('')
    for i, count in enumerate(m['steps']):
        if i and m['symmetry'] > 1:
            for kind in ('static', 'dynamic'):
                symmetry(kind)
        for j in range(count):
            put(f'--------------------------------------- Iteration {i + 1:6d}({j + 1:4d})  ---------------------------------------', 'iteration', i + 1, j + 1)
            put('')
            values = [fill.fixed(7, 99) for _ in range({'none': 0, 'collinear': 1, 'ncl': 3}[m['spin']])]
            put(f' number of electron {48 - 1e-7:15.7f} magnetization ' + ' '.join(f'{v:15.7f}' for v in values), 'electrons', values)
            put('')
        if m['spin'] != 'none' and (m['tables'] == 'all' or m['tables'] == 'last' and i + 1 == len(m['steps'])):
            spheres('total charge', None)
            for proj in 'xyz' if m['spin'] == 'ncl' else 'x':
                spheres(f'magnetization ({proj})', proj)
    for which in m['elastic']:
        elastic(which)
    if m['finished']:
        put(' total amount of memory used by VASP MPI-rank0    33970. kBytes')
        put('=======================================================================')
        put('')
        if m['memory']:
            for i, name in enumerate(('base', 'nonl-proj', 'fftplans', 'grid', 'one-center', 'wavefun')):
                value = fill.integer(0, 99999)
                if i in m['unreadable']:
                    put(f'   {name:<10s}:{"*" * 11}. kBytes', 'stat', 'mem_usage_' + name, None)
                else:
                    put(f'   {name:<10s}:{value:11d}. kBytes', 'stat', 'mem_usage_' + name, float(value))
        put('')
        put('')
        put(' General timing and accounting informations for this job:', 'finished')
        put(' ========================================================')
        put('')
        for i, name in enumerate(('Total CPU time used (sec)', 'User time (sec)', 'System time (sec)', 'Elapsed time (sec)', '', 'Maximum memory used (kb)', 'Average memory used (kb)')):
            if not name:
                put('')
                continue
            key = '_'.join(name.lower().split()[:-1])
            if m['na'] and name.startswith('Average'):
                put(f'{name:>43s}:          N/A', 'stat', key, None)
            elif i + 5 in m['unreadable']:
                put(f'{name:>43s}:{"*" * 12}', 'stat', key, None)
            elif 'kb' in name:
                value = fill.integer(0, 999999)
                put(f'{name:>43s}:{value:11d}.', 'stat', key, float(value))
            else:
                value = fill.magnitude(3, 9000)
                put(f'{name:>43s}:{value:13.3f}', 'stat', key, value)
        put('')
        for name in ('Minor page faults', 'Major page faults', 'Voluntary context switches'):
            put(f'{name:>43s}:{fill.integer(0, 99999):13d}')
        for i in range(m['tail']):
            put('' if i < 9 or i % 3 else '     profile   0.000   0.123')
    # unrelated lines between the blocks: only where the next line starts a block or stands alone
    safe = [i for i, (line, event) in enumerate(out) if event and event[0] in ('iteration', 'nbands', 'nelm', 'nsw', 'electrons') or line.startswith(('Analysis of', ' total charge', ' TOTAL ELASTIC', '  ELASTIC', ' total amount'))]
    for where, which in sorted(m['noise'], reverse=True):
        if safe:
            position = safe[where % len(safe)]
            out.insert(position, (NOISE[which], None))
            safe = [p + 1 if p >= position else p for p in safe]
    return out
