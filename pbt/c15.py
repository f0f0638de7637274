"""C15: the streaming and the in-memory reader of vasprun.xml agree."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, equal, require
from pbt.vasprun_common import EVERYTHING, SOURCES, Doc, cases, compare, expected, labels, large, load, observe

CHUNK = 32768  # what the streaming reader takes at a time


def shifted(doc, offset):
    """The document with blanks in front of the first section, such that a buffer ends `offset` bytes into it."""
    eol = doc.case['eol']
    start = doc.text.index('<modeling>') + len('<modeling>')
    offset = start + offset % (len(doc.text) - start)
    blanks = (CHUNK - offset) % CHUNK
    fill = (' ' * 79 + eol) * (blanks // (79 + len(eol)))
    fill += ' ' * (blanks - len(fill))
    return doc.text[:start] + fill + doc.text[start:]


def check(case):
    run = case['run']
    doc = Doc(run)
    text = doc.text if case['cut'] is None else shifted(doc, case['cut'])
    kwargs = {'k_before_band': case['k_before_band']}
    single = len(run['steps']) == 1
    exp = expected(doc, case['k_before_band'])
    if single:
        exp = {name: value for name, value in exp.items() if not name.endswith('/all/2')}
    seen = {}
    for event in (False, True):
        xml = load(text, case['source'][event], event=event, **kwargs)
        equal(xml.truncated, False, 'truncated')
        seen[event] = observe(xml, EVERYTHING, single)
    memory, stream = seen[False], seen[True]
    differ = sorted(set(memory) ^ set(stream))
    require(not differ, lambda: f'{", ".join(differ)}: reported by one reader only ({"in memory" if differ[0] in memory else "streaming"})')
    for name in sorted(memory):
        one, two = memory[name], stream[name]
        require(type(one) is type(two), lambda: f'{name}: {type(one)} in memory, {type(two)} streaming')  # pylint: disable=cell-var-from-loop
        agree = np.array_equal(one, two) and np.shape(one) == np.shape(two) and getattr(one, 'dtype', None) == getattr(two, 'dtype', None)
        require(agree, lambda: f'{name}: {one!r} in memory, {two!r} streaming')  # pylint: disable=cell-var-from-loop
    compare(stream, exp)
    if case['only_ends']:
        xml = load(text, case['source'][0], extract_all=False, event=False, **kwargs)
        some = observe(xml, ['steps'])
        for name, value in exp.items():
            if name.split('/')[-1] in ('initial', 'last') and name in some:
                require(np.array_equal(some[name], value), lambda: f'{name} without the steps between: {some[name]!r}, with them {value!r}')  # pylint: disable=cell-var-from-loop


SOURCE = st.one_of(st.sampled_from(SOURCES), st.integers(1, 3000))
CASES = st.fixed_dictionaries({
    'run': cases(few=True, parameters={'ispin', 'nbands'}),
    'k_before_band': st.booleans(),
    'source': st.tuples(SOURCE, SOURCE).map(list),
    'cut': st.one_of(st.none(), gen.seeds),
    'only_ends': st.booleans(),
})
LARGE = st.fixed_dictionaries({
    'run': large(cases(parameters={'ispin', 'nbands'}), ('steps', 'cycles', 'atoms', 'nk', 'nb', 'ng')),
    'k_before_band': st.booleans(),
    'source': st.tuples(SOURCE, SOURCE).map(list),
    'cut': st.one_of(st.none(), gen.seeds),
    'only_ends': st.booleans(),
})


def crossing(case):
    return case['cut'] is not None or isinstance(case['source'][1], int)


SUBS = [
    Sub('readers', CASES, check, quick=2500, nontrivial=crossing, labels=labels, rule='a boundary of the input buffer falls into the document'),
    Sub('large', LARGE, check, quick=240, labels=labels, rule='one dimension of the run is large', shards=8),
]
