"""C09: the geometry, forces and stress of every ionic step of vasprun.xml."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, call, equal, expect_exit, require
from pbt.vasprun_common import cases, check_groups, labels, large, readers

RUNS = cases(always=['forces', 'stress', 'energies'], never=['projected', 'dynmat'])
CASES = st.fixed_dictionaries({'run': RUNS, 'reader': readers()})
LARGE = st.fixed_dictionaries({'run': large(RUNS, ('steps', 'atoms')), 'reader': readers()})


def check(case):
    doc, xml = check_groups(case, ['steps', 'species'])
    for name in ('unitcell', 'positions', 'forces', 'stress'):
        getter = getattr(xml, f'get_{name}')
        if doc.exp['cells' if name == 'unitcell' else name] is None:
            continue
        steps = call(f'get_{name}(all)', getter, 'all')
        keys = list(steps)
        require(all(type(k) is int for k in keys), lambda: f'{name}: the steps are {keys!r}')  # pylint: disable=cell-var-from-loop,unidiomatic-typecheck
        require(np.array_equal(call(f'get_{name}(initial)', getter, 'initial'), steps[min(keys)]), f'{name}: initial is not the first of all')
        require(np.array_equal(call(f'get_{name}(last)', getter, 'last'), steps[max(keys)]), f'{name}: last is not the last of all')
    for status in ('initial', 'last'):
        lattice = call('get_lattice', xml.get_lattice, status)
        equal(sorted(lattice), ['positions', 'species', 'unitcell'], 'get_lattice')
        for name, value in lattice.items():
            direct = xml.get_species() if name == 'species' else getattr(xml, f'get_{name}')(status)
            require(np.array_equal(value, direct), f'get_lattice({status}): {name} differs from get_{name}')
    lattice = call('get_lattice(all)', xml.get_lattice, 'all')
    for name in ('unitcell', 'positions'):
        steps = getattr(xml, f'get_{name}')('all')
        equal(list(lattice[name]), list(steps), f'get_lattice(all): the steps of {name}')
        require(all(np.array_equal(lattice[name][key], steps[key]) for key in steps), f'get_lattice(all): {name} differs from get_{name}')  # pylint: disable=cell-var-from-loop
    expect_exit('get_positions(final)', 507, xml.get_positions, 'final')


def nontrivial(case):
    run = case['run']
    return len(run['steps']) > 1 or sum(count for _, count in run['types']) > 1


SUBS = [
    Sub('values', CASES, check, quick=3000, nontrivial=nontrivial, labels=labels, rule='more than one ionic step or more than one atom'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
]
