"""C10: the energies of every ionic and electronic step of vasprun.xml."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, call, close, equal, expect_exit, expect_refused, require
from pbt.vasprun_common import ENERGIES, case_lost, cases, check_groups, labels, large, readers

RUNS = cases(always=['energies'], never=['projected', 'dynmat'])
CASES = st.fixed_dictionaries({'run': RUNS, 'reader': readers()})
LARGE = st.fixed_dictionaries({'run': large(RUNS, ('steps', 'cycles')), 'reader': readers()})
REQUESTS = st.fixed_dictionaries({
    'run': cases(always=['energies'], never=['projected', 'dynmat']),
    'reader': readers(),
    'types': st.one_of(st.none(), st.lists(st.sampled_from(sorted(ENERGIES)), min_size=1, unique=True)),
    'status': st.sampled_from(['initial', 'last', 'all', 'all', 'all']),
    'cycle': st.booleans(),
    'wrong': st.sampled_from([None, None, 'status', 'type', 'string']),
})


def check(case):
    check_groups(case, ['energies'])


def check_request(case):
    """One selection of the types: what is asked for, in one array per type, and nothing else."""
    doc, xml = check_groups(case, [])
    types = case['types'] or ['energy_extrapolated']
    given = {} if case['types'] is None else {'etype': list(case['types'])}
    result = call(f'get_energies({case["status"]}, {given}, nosc={not case["cycle"]})', xml.get_energies, case['status'], nosc=not case['cycle'], **given)
    steps = doc.exp['energies']
    if steps is None:
        require(result is None, lambda: f'no energies are printed, got {result!r}')
        return
    require(result is not None, 'no energies')
    equal(sorted(result), sorted(['electronic_steps'] + types + [t + '_final' for t in types]), 'keys')
    chosen = {'initial': steps[:1], 'last': steps[-1:], 'all': steps}[case['status']]
    counts = [len(s[types[0]]) if case['cycle'] else 1 for s in chosen]
    close(result['electronic_steps'], counts, 'electronic_steps', 0, 0)
    for name in types:
        close(result[name + '_final'], [s[name + '_final'] for s in chosen], name + '_final', 1e-12, 1e-12)
        flat = np.asarray(result[name])
        require(flat.ndim == 1 and flat.shape[0] == sum(counts), lambda: f'{name}: {flat.shape} does not hold {counts} energies')  # pylint: disable=cell-var-from-loop
        start = 0
        for step, count in zip(chosen, counts):
            exp = step[name] if case['cycle'] else step[name][-1:]
            close(flat[start:start + count], exp, f'{name}, entries {start} to {start + count}', 1e-12, 1e-12)
            start += count
    if case['wrong'] == 'status':
        expect_exit('status "final"', 507, xml.get_energies, 'final')
    elif case['wrong'] == 'type':
        expect_refused('an unknown type', xml.get_energies, case['status'], ['e_0_energy'])
    elif case['wrong'] == 'string':
        expect_refused('a type that is no list', xml.get_energies, case['status'], 'energy_free')


def nontrivial(case):
    run = case['run']
    return 'energies' in run['sections'] and len(set(run['steps'])) > 1 and not case_lost(run)


SUBS = [
    Sub('values', CASES, check, quick=2500, nontrivial=nontrivial, labels=labels, rule='energies are there and the ionic steps have different numbers of electronic steps'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
    Sub('requests', REQUESTS, check_request, quick=2500, nontrivial=nontrivial, labels=labels, rule='energies are there and the ionic steps have different numbers of electronic steps'),
]
