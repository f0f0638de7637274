"""C12: the densities of states of vasprun.xml."""
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.vasprun_common import cases, check_groups, labels, large, readers

RUNS = cases(always=['dos', 'dos_specific', 'dos_partial'], never=['dynmat', 'projected'], few=True, max_atoms=3)
CASES = st.fixed_dictionaries({'run': RUNS, 'reader': readers()})
LARGE = st.fixed_dictionaries({'run': large(RUNS, ('ng', 'atoms')), 'reader': readers()})


def check(case):
    check_groups(case, ['dos'])


def nontrivial(case):
    run = case['run']
    return run['ng'] > 1 and bool({'dos', 'dos_specific'} & set(run['sections']))


SUBS = [
    Sub('values', CASES, check, quick=2500, nontrivial=nontrivial, labels=labels, rule='a density of states on more than one energy'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
]
