"""C11: the band data of vasprun.xml."""
from hypothesis import strategies as st

from pbt.core import Sub
from pbt.vasprun_common import cases, check_groups, labels, large, readers

RUNS = cases(always=['eigenvalues', 'projected'], never=['dynmat'], few=True, parameters={'ispin', 'nbands'}, max_atoms=3)
CASES = st.fixed_dictionaries({'run': RUNS, 'reader': readers()})
LARGE = st.fixed_dictionaries({'run': large(RUNS, ('nk', 'nb', 'nks', 'atoms')), 'reader': readers()})


def check(case):
    check_groups(case, ['bands', 'kpoints'])


def nontrivial(case):
    run = case['run']
    return run['nk'] * run['nb'] > 1 and bool({'eigenvalues', 'projected', 'specific', 'velocities'} & set(run['sections']))


SUBS = [
    Sub('values', CASES, check, quick=2500, nontrivial=nontrivial, labels=labels, rule='band data for more than one k-point or band'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
]
