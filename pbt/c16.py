"""C16: damaged vasprun.xml files."""
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, Violation, equal, require, sut
from pbt.vasprun_common import ENERGIES, EVERYTHING, SOURCES, Doc, cases, compare, expected, labels, large, load, observe, same

STEPS = ('unitcell', 'positions', 'forces', 'stress')


def whole(draw_from):
    """Runs whose energies are complete and at the end of each step only there once; the dielectric function that counts is printed first."""
    return draw_from.map(lambda run: {**run, 'lost': None, 'unprinted': [], 'pair': 0})


def place(text, case):
    """Where the file stops."""
    spread = case['cut'] * 2654435761 // 64 % 10**9  # drawn numbers are mostly small
    start = spread % (len(text) + 1)
    if case['near'] == 'tag':
        start = text.rfind('<', 0, start + 1) + case['cut'] % 3
    elif case['near'] == 'end':
        start = len(text) - case['cut'] % 60
    elif case['near'] == 'step':
        spots = [i for i in range(len(text)) if text.startswith('</calculation>', i)]
        start = spots[case['cut'] % len(spots)] + case['cut'] % 200
    elif case['near'] == 'result':
        # behind a part of what is printed with the last ionic step
        spots = [m.end() for m in re.compile('</(?!v>|r>|i>|c>|rc>|dimension|field)').finditer(text, text.rfind('<calculation>'))]
        start = spots[spread % len(spots)] + case['cut'] % 20
    return max(0, min(start, len(text)))


def energies_of(steps, cycle):
    out = {'electronic_steps': [len(s['energy_free']) if cycle else 1 for s in steps]}
    for name in ENERGIES:
        out[name + '_final'] = [s[name + '_final'] for s in steps]
        out[name] = [v for s in steps for v in (s[name] if cycle else s[name][-1:])]
    return out


def check_cut(case):
    """The file stops somewhere."""
    doc = Doc(case['run'])
    stop = place(doc.text, case)
    text = doc.text[:stop]
    total = len(case['run']['steps'])
    complete = text.count('</calculation>')
    started = text.count('<calculation>')
    kwargs = {'k_before_band': case['k_before_band'], 'event': case['event'], 'extract_all': case['extract_all']}
    out = sut(load, text, case['source'], unchecked=True, **kwargs)
    where = f'cut after {stop} of {len(doc.text)} bytes, {complete} of {total} ionic steps complete, ends in {text[-40:]!r}'
    if not out.ok:
        require(complete == 0, lambda: f'{where}: {out!r}')
        return
    xml = out.value
    equal(xml.truncated, '</modeling>' not in text, f'{where}: truncated')
    try:
        judge(doc, case, observe(xml), complete, started)
    except Violation as exc:
        raise Violation(f'{where}: {exc}') from None


def judge(doc, case, seen, complete, started):  # pylint: disable=too-many-locals
    every = case['extract_all'] or case['event']
    exp = expected(doc, case['k_before_band'], True)
    total = len(case['run']['steps'])
    # steps
    for name in STEPS:
        values = doc.exp['cells' if name == 'unitcell' else name]
        shown = {int(key.split('/')[-1]): value for key, value in seen.items() if key.startswith(f'{name}/all/')}
        if values is None:
            require(not shown, lambda: f'{name}: not in the file; got {shown!r}')  # pylint: disable=cell-var-from-loop
            continue
        first, last = seen.get(f'{name}/initial'), seen.get(f'{name}/last')
        if shown or complete:
            require(first is not None and last is not None, f'{name}: initial or last is missing')
            same(f'{name}/initial', first, values[0])
        if every:
            if started < 2 and set(shown) == {1, 2} and np.array_equal(shown[1], shown[2]):
                del shown[2]  # the copy that stands for the last of one step
            require(sorted(shown) == list(range(1, len(shown) + 1)), lambda: f'{name}: the steps are {sorted(shown)}')  # pylint: disable=cell-var-from-loop
            require(len(shown) <= total, f'{name}: {len(shown)} steps')
            for step, value in shown.items():
                same(f'{name}/all/{step}', value, values[step - 1])
            require(len(shown) >= complete, lambda: f'{name}: {complete} steps are complete, {len(shown)} are reported')  # pylint: disable=cell-var-from-loop
            if shown:
                same(f'{name}/last', last, values[len(shown) - 1])
        elif last is not None:
            require(any(np.allclose(last, value, 1e-12, 1e-12) for value in values[max(0, complete - 1):]), lambda: f'{name}: the last is {last!r}, printed are {values!r}')  # pylint: disable=cell-var-from-loop
    # energies
    steps = doc.exp['energies']
    for kind, cycle in (('final', False), ('cycle', True)):
        names = [key for key in seen if key.startswith('energies/') and f'/{kind}/' in key]
        if steps is None:
            require(not names, lambda: f'{names}: not in the file')  # pylint: disable=cell-var-from-loop
            continue
        if not names:
            require(complete == 0, f'no energies, {complete} steps are complete')
            continue
        count = len(seen[f'energies/all/{kind}/energy_free_final'])
        require(complete <= count <= total, lambda: f'energies: {complete} steps are complete, {count} are reported')  # pylint: disable=cell-var-from-loop
        for status, chosen in (('initial', steps[:1]), ('last', steps[count - 1:count]), ('all', steps[:count])):
            for key, value in energies_of(chosen, cycle).items():
                name = f'energies/{status}/{kind}/{key}'
                require(name in seen, f'{name} is missing')
                same(name, seen[name], value)
    # what is printed once
    for name, value in seen.items():
        if name.split('/')[0] in STEPS + ('energies',):
            continue
        require(name in exp, lambda: f'{name}: not in the file; got {value!r}')  # pylint: disable=cell-var-from-loop
        same(name, value, exp[name])
    # a quantity of several parts is there with all of them
    heads = {name.split('/')[0] for name in seen} & {'dos', 'dos_specific', 'eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities', 'projectors', 'dynmat'}
    if 'dielectrics/energy' in seen:
        heads.add('dielectrics/')
    parts = ('dielectrics/energy', 'dielectrics/imag', 'dielectrics/real')
    for name in exp:
        if name.split('/')[0] in heads or ('dielectrics/' in heads and name in parts):
            require(name in seen, f'{name} is missing, other parts of it are reported')
    early = ('version', 'parameters', 'species', 'kpoints', 'kpointsw', 'kpointdiv')
    for name in exp:
        head = name.split('/')[0]
        if head in STEPS + ('energies',):
            continue
        if complete == total or (complete and head in early):
            require(name in seen, f'{name} is complete, but is not reported')


CUTS = st.fixed_dictionaries({
    'run': whole(cases(few=True, parameters={'ispin', 'nbands'}, never=['lf'], always=['energies', 'forces', 'stress'])),
    'cut': st.integers(0, 10**7),
    'near': st.sampled_from(['any', 'any', 'tag', 'step', 'end', 'result', 'result']),
    'source': st.one_of(st.sampled_from(SOURCES), st.integers(1, 3000)),
    'event': st.sampled_from([False, False, True]),
    'extract_all': st.sampled_from([True, True, False]),
    'k_before_band': st.booleans(),
})


LARGE = st.fixed_dictionaries({
    'run': whole(large(cases(parameters={'ispin', 'nbands'}, never=['lf'], always=['energies', 'forces', 'stress']), ('steps', 'cycles', 'atoms', 'nk', 'ng'))),
    'cut': st.integers(0, 10**7),
    'near': st.sampled_from(['any', 'any', 'tag', 'step', 'end', 'result', 'result']),
    'source': st.one_of(st.sampled_from(SOURCES), st.integers(1, 3000)),
    'event': st.sampled_from([False, False, True]),
    'extract_all': st.sampled_from([True, True, False]),
    'k_before_band': st.booleans(),
})


def cut_matters(case):
    doc = Doc(case['run'])
    return '<calculation>' in doc.text[:place(doc.text, case)]


def where_cut(case):
    doc = Doc(case['run'])
    text = doc.text[:place(doc.text, case)]
    opened = text[text.rfind('<') + 1:][:12].split('>')[0].split(' ')[0]
    return ['in <' + opened, f'{min(3, text.count("</calculation>"))} steps complete'] + labels(case)


def check_star(case):
    """One number did not fit into its field."""
    count = Doc(case['run']).count
    doc = Doc(case['run'], star=case['star'] % count)
    kwargs = {'k_before_band': case['k_before_band'], 'event': case['event']}
    out = sut(load, doc.text, case['source'], unchecked=True, **kwargs)
    if not out.ok:
        require(out.exit is not None and out.exit == 509, lambda: f'a number that overflowed: expected exit 509 or the other quantities, got {out!r}')
        return
    single = len(case['run']['steps']) == 1
    exp = expected(doc, case['k_before_band'])
    if single:
        exp = {name: value for name, value in exp.items() if not name.endswith('/all/2')}
    seen = observe(out.value, EVERYTHING, False)
    if not doc.starred:
        if single:
            seen = {name: value for name, value in seen.items() if not (name.split('/')[0] in STEPS and name.endswith('/all/2'))}
        compare(seen, exp)
        return
    for name, value in seen.items():
        if single and name.split('/')[0] in STEPS and name.endswith('/all/2'):
            continue
        require(name in exp, lambda: f'{name}: not in the file; got {value!r}')  # pylint: disable=cell-var-from-loop
        if isinstance(exp[name], str) or np.isfinite(np.asarray(exp[name], dtype=float)).all():
            same(name, value, exp[name])
            continue
        hole = ~np.isfinite(np.asarray(exp[name], dtype=float))
        actual = np.asarray(value, dtype=float)
        require(actual.shape == hole.shape, lambda: f'{name}: {actual.shape}, printed are {hole.shape} numbers')  # pylint: disable=cell-var-from-loop
        require(not np.isfinite(actual[hole]).any(), lambda: f'{name}: {actual[hole]} for a number that overflowed')  # pylint: disable=cell-var-from-loop
        require(np.allclose(actual[~hole], np.asarray(exp[name], dtype=float)[~hole], 1e-12, 1e-12), lambda: f'{name}: {value!r}, printed are {exp[name]!r}')  # pylint: disable=cell-var-from-loop


STARS = st.fixed_dictionaries({
    'run': whole(cases(few=True, parameters={'ispin', 'nbands'})),
    'star': gen.seeds,
    'source': st.sampled_from(SOURCES),
    'event': st.booleans(),
    'k_before_band': st.booleans(),
})


def star_matters(case):
    return Doc(case['run'], star=case['star'] % Doc(case['run']).count).starred


SUBS = [
    Sub('cut', CUTS, check_cut, quick=5000, nontrivial=cut_matters, labels=where_cut, rule='the file stops after the first ionic step has begun'),
    Sub('large', LARGE, check_cut, quick=240, labels=where_cut, rule='one dimension of the run is large', shards=8),
    Sub('overflow', STARS, check_star, quick=3000, nontrivial=star_matters, labels=labels, rule='the number that overflowed belongs to a reported quantity'),
]
