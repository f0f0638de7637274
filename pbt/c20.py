"""C20: OUTCAR tables."""
import numpy as np
from hypothesis import strategies as st

from parsevasp.outcar import Outcar
from pbt import outcar_common as oc
from pbt import gen
from pbt.core import Sub, call, close, equal
from pbt.source import load, sources

RULE = 'OUTCAR texts are assembled from a model (symmetry analyses, iterations, magnetisation tables, elastic moduli, closing statistics) with distinct numbers and unrelated lines in between; every returned table is compared with the model.'
ASSUMPTIONS = ['of a table that is printed several times the last one counts, symmetry analyses are listed in order', 'the closing statistics are within the last 50 lines']


def check(case):
    lines = oc.write(case['model'])
    text = ''.join(line + '\n' for line, _ in lines)
    obj = call(f'reading {text!r}', load, Outcar, text, case['source'])
    symmetry = {name: {'static': [], 'dynamic': []} for name in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type')}
    elastic = {'non_symmetrized': None, 'symmetrized': None, 'total': None}
    sphere = {p: None for p in 'xyz'}
    electrons, stats = None, {}
    for _, event in lines:
        kind = event[0] if event else None
        if kind == 'cell':
            symmetry['original_cell_type'][event[1]].append(event[2])
        elif kind == 'supercell':
            symmetry['symmetrized_cell_type'][event[1]].append(event[2])
        elif kind == 'operations':
            symmetry['num_space_group_operations'][event[1]].append(event[2])
        elif kind == 'elastic' and event[1] != 'contribution':
            elastic['non_symmetrized' if event[1] == 'raw' else event[1]] = event[2]
        elif kind in ('x', 'y', 'z'):
            sphere[kind] = event[1]
        elif kind == 'electrons':
            electrons = event[1]
        elif kind == 'stat':
            stats[event[1]] = event[2]
    what = f'{text!r}'
    equal(obj.get_symmetry(), symmetry, f'{what}: symmetry')
    got = obj.get_elastic_moduli()
    for name, table in elastic.items():
        close(got[name], None if table is None else np.array(table), f'{what}: elastic moduli, {name}', rtol=1e-12, atol=0)
    mag = obj.get_magnetization()
    for proj, table in sphere.items():
        equal(mag['sphere'][proj]['site_moment'], table['sites'] if table else {}, f'{what}: site moments {proj}')
        equal(mag['sphere'][proj]['total_magnetization'], table['total'] if table else {}, f'{what}: total of the site moments {proj}')
    equal(list(mag['full_cell']), electrons or [], f'{what}: magnetisation of the cell')
    equal(dict(obj.get_run_stats()), stats, f'{what}: run statistics')


def labels(case):
    m = case['model']
    out = [m['spin'], 'one ion' if m['n_ions'] == 1 else 'several ions', f'{m["orbitals"]} orbitals', 'finished' if m['finished'] else 'unfinished']
    out += sorted(set('elastic ' + e for e in m['elastic']))
    return out


@st.composite
def large(draw):
    """Many atoms."""
    model = draw(oc.model())
    model['n_ions'] = draw(gen.large_sizes)
    if model['tables'] == 'all':
        model['steps'] = model['steps'][:2]
    return dict(model=model, source=draw(sources))


SUBS = [
    Sub('tables', st.fixed_dictionaries(dict(model=oc.model(), source=sources)), check, quick=2500, labels=labels,
        nontrivial=lambda c: bool(c['model']['elastic'] or c['model']['symmetry'] or c['model']['spin'] != 'none'), rule='at least one table is printed', shards=8),
    Sub('large', large(), check, quick=160, labels=labels, nontrivial=lambda c: c['model']['spin'] != 'none' and c['model']['tables'] != 'none', rule='a magnetisation table of at least eleven atoms', shards=8),
]
