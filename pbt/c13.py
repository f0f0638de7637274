"""C13: the response functions of vasprun.xml."""
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.vasprun_common import cases, check_groups, labels, large, readers

RUNS = cases(always=['dielectric', 'epsilon', 'epsilon_ion', 'born', 'dynmat'], never=['projected'], few=True, max_atoms=3)
CASES = st.fixed_dictionaries({'run': RUNS, 'reader': readers()})
LARGE = st.fixed_dictionaries({'run': large(RUNS, ('ng', 'atoms')), 'reader': readers()})


def check(case):
    check_groups(case, ['response'])


def nontrivial(case):
    run = case['run']
    return bool({'dielectric', 'dielectric_pair', 'epsilon', 'epsilon_ion', 'born', 'dynmat'} & set(run['sections']))


SUBS = [
    Sub('values', CASES, check, quick=2500, nontrivial=nontrivial, labels=labels, rule='at least one response section'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
]
