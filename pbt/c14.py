"""C14: the run parameters and metadata of vasprun.xml."""
from hypothesis import strategies as st

from pbt.core import Sub, expect_exit
from pbt.vasprun_common import SOURCES, Doc, cases, check_groups, labels, large, load, readers

RUNS = cases(always=['incar', 'response_nelm', 'atomtypes'], never=['projected', 'dynmat'])
CASES = st.fixed_dictionaries({'run': RUNS, 'reader': readers()})
LARGE = st.fixed_dictionaries({'run': large(RUNS, ('nk', 'atoms', 'steps')), 'reader': readers()})


def check(case):
    check_groups(case, ['version', 'parameters', 'species', 'kpoints', 'dos'])


def check_element(case):
    """A species that does not exist is refused, wherever it stands."""
    doc = Doc(case['run'])
    parts = doc.text.split('<rc><c>')
    # the table of the atoms, not that of the types, which starts with a count
    atoms = [i for i, part in enumerate(parts) if i and not part.strip()[:1].isdigit()]
    place = atoms[case['atom'] % len(atoms)]
    parts[place] = case['symbol'] + parts[place][2:]
    expect_exit(f'an atom of element {case["symbol"]}', 506, load_quiet, '<rc><c>'.join(parts), case['source'], case['event'])


def load_quiet(text, source, event):
    return load(text, source, unchecked=True, event=event)


UNKNOWN = st.fixed_dictionaries({
    'run': cases(never=['projected', 'dynmat']),
    'atom': st.integers(0, 8),
    'symbol': st.sampled_from(['Xx', 'Q ', 'Aa', 'J ', '1 ', 'Sy']),
    'source': st.sampled_from(SOURCES),
    'event': st.booleans(),
})


def nontrivial(case):
    run = case['run']
    return len(run['parameters']) > 2


SUBS = [
    Sub('values', CASES, check, quick=2500, nontrivial=nontrivial, labels=labels, rule='more than two parameters are printed'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
    Sub('element', UNKNOWN, check_element, quick=600, nontrivial=lambda case: True, labels=labels, rule='every case'),
]
