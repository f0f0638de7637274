"""C26: invalid content is refused before it is used."""
import functools
import io
import os

import numpy as np
from hypothesis import strategies as st

from parsevasp.incar import Incar
from parsevasp.kpoints import Kpoint, Kpoints
from parsevasp.poscar import Poscar, Site
from pbt import gen, incar_common as ic, kpoints_common as kc, poscar_common as pc
from pbt.c02 import dictionary
from pbt.c04 import compare_sites
from pbt.c05 import check_text as check_poscar_text
from pbt.c07 import compare
from pbt.c08 import check_text as check_kpoints_text, to_dict
from pbt.c24 import own_logger
from pbt.core import Sub, call, close, equal, expect_exit, require, scratch, snapshot, write_file

RULE = 'Complete dictionaries of INCAR, POSCAR and KPOINTS content are generated and given one fault of a list each (or none); objects are made invalid and valid again by edits and written to every kind of sink in between.'
ASSUMPTIONS = ['one fault at a time', 'exit codes are those of the error tables of the package: 12 for a missing key, 13 for a wrong type, 100-105, 201-213 and 302 for the specific ones']
MISSING, TYPE = 12, 13


def refused(what, code, cls, content, **kwargs):
    """Creation is refused, something is said, and the dictionary stays as it was."""
    before = snapshot(content)
    logger, records = own_logger()
    name = {Incar: 'incar_dict', Poscar: 'poscar_dict', Kpoints: 'kpoints_dict'}[cls]
    expect_exit(what, code, functools.partial(cls, logger=logger, **kwargs), **{name: content})
    require(records, f'{what}: nothing was said to the logger that was given')
    equal(snapshot(content), before, f'{what}: the dictionary that was given')


def ordered(content, order):
    """The same dictionary with its entries in another order."""
    keys = list(content)
    for n in order if keys else []:
        keys.append(keys.pop(n % len(keys)))
    return {key: content[key] for key in keys}


# INCAR
WRONG_VALUES = [None, (1, 2), {'a': 1}, {1}, b'1', 1j, object]
KINDS = [['1', '-2', '30', '0'], ['2.5', '-1e-3', '4.', '0.0'], ['.TRUE.', '.FALSE.'], ['a', 'Bc', 'x1']]


def mixed(spec):
    """A list of one kind with one or more of another kind, anywhere in it."""
    length, kind, others = spec
    values = [KINDS[kind][n % len(KINDS[kind])] for n in range(length)]
    for where, other, n in others:
        other = KINDS[(kind + 1 + other % 3) % 4]
        values[where % length] = other[n % len(other)]
    # with two others the first kind may be gone
    if len({next(k for k, v in enumerate(KINDS) if x in v) for x in values}) == 1:
        values.append(KINDS[(kind + 1) % 4][0] if values[0] in KINDS[kind] else KINDS[kind][0])
    return ' '.join(values)


MIXED = st.tuples(st.integers(2, 12), st.integers(0, 3), st.lists(st.tuples(st.integers(0, 11), st.integers(0, 2), st.integers(0, 3)), min_size=1, max_size=2)).map(mixed)


WRONG_ELEMENTS = [None, [1], (1, 2), {'a': 1}, b'1', 1j, object, np.zeros(2), []]
PYTHON = [[1, -2, 30, 0], [True, False], ['a', 'Bc', 'x1'], [2.5, -1e-3, 4.0]]


def mixed_list(spec):
    """A list of one kind with others among them, not only integers among floats."""
    length, kind, where, other, n = spec
    values = [PYTHON[kind][i % len(PYTHON[kind])] for i in range(length)]
    other = PYTHON[other if other != kind and {other, kind} != {0, 3} else (1 if kind != 1 else 2)]
    values[where % length] = other[n % len(other)]
    return values


MIXED_LIST = st.tuples(st.integers(2, 12), st.integers(0, 3), st.integers(0, 11), st.integers(0, 3), st.integers(0, 3)).map(mixed_list)


def check_incar(case):
    content = {k: v for k, v in case['dict']}
    fault = case['fault']
    # the text of some tags is kept as it is, so nothing is mixed in it
    tag = 'ENCUT' if fault in ('mixed', 'list') and case['tag'].lower() in ic.VERBATIM else case['tag']
    content = {k: v for k, v in content.items() if k.lower() != tag.lower()}
    if fault == 'none':
        content = ordered(content, case['order'])
        before = snapshot(content)
        obj = call('building from a dictionary', Incar, incar_dict=content)
        equal(obj.get_dict(), {k.lower(): ic.held(v) for k, v in content.items()}, 'what is held')
        equal(snapshot(content), before, 'the dictionary that was given')
        return
    if fault == 'unknown':
        content[case['name']] = 1
        content = ordered(content, case['order'])
        refused(f'dictionary with the unknown tag {case["name"]}', 100, Incar, content)
        obj = call('building without validation', Incar, incar_dict=content, validate_tags=False)
        equal(obj.get_dict(), {k.lower(): ic.held(v) for k, v in content.items()}, 'what is held without validation')
        return
    if fault == 'type':
        content[tag] = WRONG_VALUES[case['which'] % len(WRONG_VALUES)]
        code = 105
    elif fault == 'mixed':
        content[tag] = case['mixed']
        code = 104
    elif fault == 'list':
        content[tag] = case['list']
        code = 104
    elif fault == 'element':
        values = [1, 2.0, 'a', True][case['which'] % 4:][:1] * 4
        values[case['which'] % 3] = WRONG_ELEMENTS[case['which'] % len(WRONG_ELEMENTS)]
        content[tag] = values
        code = 105
    elif fault == 'break':
        # what follows a line break would be another entry
        line = ['one\nENCUT = 1', 'one\r\ntwo', 'one\rtwo', 'one\n\ntwo'][case['which'] % 4]
        content[tag] = ['Fast # ' + line, ['Fast', line], [line, 'Fast'], '3 #' + line][case['which'] // 4 % 4]
        if tag.lower() in ic.VERBATIM and case['which'] % 2:
            content[tag] = line
        code = 105
    else:
        content[tag] = 'a # b # c'
        code = 103
    content = ordered(content, case['order'])
    for options in ({}, {'validate_tags': False}):
        refused(f'dictionary with {tag}: {content[tag]!r}', code, Incar, content, **options)


INCAR = st.fixed_dictionaries(dict(dict=dictionary(), fault=st.sampled_from(['none', 'unknown', 'type', 'mixed', 'comments', 'list', 'element', 'break']), tag=st.sampled_from(['ENCUT', 'ismear', 'LREAL', 'Algo', 'NSW', 'system', 'MAGMOM']),
                                   name=st.sampled_from(['FOO', 'ENCUTT', 'NCUT', 'encut1', 'ISMEA', 'POSCAR', 'X', 'LREAL_', 'sigma2']), which=st.integers(0, 80), mixed=MIXED, list=MIXED_LIST, order=st.lists(st.integers(0, 20), max_size=5)))


# POSCAR
def site_of(site, as_dict, direct=True):
    arr = {k: None if site[k] is None else np.array(site[k]) for k in ('position', 'velocities', 'predictors')}
    if as_dict:
        return dict(site, direct=direct, **arr)
    return Site(site['specie'], arr['position'], selective=list(site['selective']), velocities=arr['velocities'], predictors=arr['predictors'], direct=direct)


SITE_KEYS = ['specie', 'position', 'selective', 'velocities', 'predictors', 'direct']
CELLS = [None, 5, 'cell', [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], np.zeros((2, 3)), np.zeros(9), np.zeros((3, 3, 1)), np.zeros((4, 4)), np.zeros((1, 3, 3))]
NO_LISTS = [5, 'sites', {'a': 1}, (), None, 'a tuple']
NO_SITES = [5, 'H', ['H', [0, 0, 0]], None, ('H',), np.zeros(3), Kpoint(np.zeros(3), 1.0)]
NO_COMMENTS = [5, 1.5, ['a'], b'a', {'a': 1}, True, 'one\ntwo', 'one\rtwo', 'one\n', '\r\none']


def check_poscar(case):
    cell, sites = pc.sites_of(case['structure'])
    as_dict = [case['forms'][n % len(case['forms'])] for n in range(len(sites))]
    content = {'comment': case['comment'], 'unitcell': np.array(cell), 'sites': [site_of(x, flag) for x, flag in zip(sites, as_dict)]}
    fault, which = case['fault'], case['which']
    at = which % len(sites)
    options = case['options']
    if fault == 'none':
        content = ordered(content, case['order'])
        before = snapshot(content)
        obj = call('building from a dictionary', Poscar, poscar_dict=content, **options)
        got = obj.get_dict()
        equal(got['comment'], case['comment'], 'comment')
        close(got['unitcell'], cell, 'unit cell', rtol=1e-12)
        compare_sites(got['sites'], sites, 'structure', atol=1e-10)
        equal(snapshot(content), before, 'the dictionary that was given')
        return
    code = TYPE
    if fault == 'missing':
        key = ['comment', 'unitcell', 'sites'][which % 3]
        del content[key]
        what, code = f'dictionary without {key}', MISSING
    elif fault == 'cell':
        content['unitcell'] = CELLS[which % len(CELLS)]
        what = f'unit cell {content["unitcell"]!r}'
    elif fault == 'comment':
        content['comment'] = NO_COMMENTS[which % len(NO_COMMENTS)]
        what = f'comment {content["comment"]!r}'
    elif fault == 'sites':
        value = NO_LISTS[which % len(NO_LISTS)]
        content['sites'] = tuple(content['sites']) if value == 'a tuple' else value
        what = f'sites of type {type(content["sites"])}'
    elif fault == 'site':
        content['sites'][at] = NO_SITES[which % len(NO_SITES)]
        what = f'site {content["sites"][at]!r}'
    else:
        key = SITE_KEYS[which % len(SITE_KEYS)]
        content['sites'][at] = site_of(sites[at], True)
        del content['sites'][at][key]
        what, code = f'site without {key}', MISSING
    content = ordered(content, case['order'])
    refused(what, code, Poscar, content, **options)


OPTIONS = st.sampled_from([{}, {}, {'conserve_order': True}, {'write_direct': False}])
POSCAR = st.fixed_dictionaries(dict(structure=pc.structure(symbols=['H', 'O', 'Si', 'U', 'C']), comment=st.sampled_from([None, 'Example', '']), forms=st.lists(st.booleans(), min_size=1, max_size=4),
                                    fault=st.sampled_from(['none', 'none', 'missing', 'cell', 'comment', 'sites', 'site', 'site key']), which=st.integers(0, 200), order=st.lists(st.integers(0, 5), max_size=3), options=OPTIONS))


# KPOINTS
def wrong_kpoints(key, m):
    """Wrong values of an entry, with their codes."""
    good = Kpoint(np.zeros(3), 1.0)
    cartesian = Kpoint(np.zeros(3), 1.0, direct=False)
    return {
        'comment': [(value, TYPE) for value in NO_COMMENTS],
        'divisions': [((1, 2, 3), TYPE), ('1 2 3', TYPE), (5, TYPE), ([1.0, 2, 3], TYPE), ([1, 2, 3.0], TYPE), (['1', '2', '3'], TYPE), ([1, 2], TYPE), ([1, 2, 3, 4], TYPE), ([], TYPE), ([1, 2, None], TYPE), (np.array([1, 2, 3]), TYPE)],
        'shifts': [((0.0, 0.0, 0.0), TYPE), ('0 0 0', TYPE), (0.5, TYPE), ([0, 0.0, 0.0], TYPE), ([0.0, 0.0, 1], TYPE), ([0.0, '0.0', 0.0], TYPE), ([0.0, 0.0], TYPE), ([0.0] * 4, TYPE), ([], TYPE), ([0.0, None, 0.0], TYPE), (np.zeros(3), TYPE)],
        'generating_vectors': [(5, TYPE), (np.eye(3), TYPE), ([1.0, 0.0, 0.0], TYPE), ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], TYPE), ([[1.0, 0.0, 0.0]] * 4, TYPE), ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 1]], TYPE),
                               ([[1.0, 0.0, 0.0], [0.0, 1.0], [0.0, 0.0, 1.0]], TYPE), ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1]], TYPE), ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], (0.0, 0.0, 1.0)], TYPE)],
        'points': [((good,), TYPE), (good, TYPE), ('points', TYPE), (5, TYPE), (np.zeros((2, 3)), TYPE), ([[0.0, 0.0, 0.0]], 210), ([good, None], 210), ([None, good], 210), ([good, np.zeros(3)], 210), (['a'], 210), ([cartesian], 205),
                   ([good, cartesian], 205), ([cartesian, good], 205), ([good] * 5 + [5], 210)],
        'tetra': [((1, 2), TYPE), (5, TYPE), ([1, 2], TYPE), ([(1, 2, 3, 4, 5)], TYPE), ([[1, 2, 3, 4]], 201), ([[1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6]], 201), ([[1, 2, 3, 4, 5.0]], TYPE), ([[1, 2, 3, 4, 5], [1, 2, 3, '4', 5]], TYPE), ([[]], 201)],
        'tetra_volume': [(1, TYPE), ('0.5', TYPE), ([0.5], TYPE)],
        'centering': [(value, 212) for value in ('gamma', 'G', 'Monkhorst', '', 5, ['Gamma'], 'monkhorst-pack')],
        'mode': [(value, 213) for value in ('auto', 'Explicit', 'line-mode', '', 5, 'gamma', 'linemode')],
        'num_kpoints': [(value, TYPE) for value in (2.0, '2', None, [2])]}[key]


def unfit(m, which):
    """Entries that are valid one by one, but do not fit together, with the code of what is wrong."""
    kind = m['kind']
    good = [Kpoint(np.zeros(3), 1.0)] * 2
    vectors = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    faults = [(dict(mode=None), 213)]
    if kind in ('gamma', 'mp'):
        faults += [(dict(centering=None), 212), (dict(divisions=None, generating_vectors=vectors), 206), (dict(generating_vectors=vectors), 206), (dict(centering='Reciprocal'), 206), (dict(divisions=None, points=good), 206)]
    elif kind == 'grg':
        faults += [(dict(centering=None), 212), (dict(generating_vectors=None, divisions=[2, 2, 2]), 206), (dict(divisions=[2, 2, 2]), 206), (dict(centering='Gamma'), 206), (dict(centering='Monkhorst-Pack'), 206),
                   (dict(generating_vectors=None, points=good), 206)]
    else:
        faults += [(dict(points=None, divisions=[2, 2, 2]), 206), (dict(points=None, generating_vectors=vectors), 206)]
    if kind == 'explicit':
        n = len(m['points'])
        faults += [(dict(num_kpoints=n + 1), TYPE), (dict(num_kpoints=n - 1), TYPE), (dict(num_kpoints=-n), TYPE), (dict(num_kpoints=0), TYPE)]
        if m['tetra'] is not None:
            faults += [(dict(tetra_volume=None), TYPE)] * 3
    return faults[which % len(faults)]


KEYS = ['comment', 'divisions', 'shifts', 'generating_vectors', 'points', 'tetra', 'tetra_volume', 'centering', 'mode', 'num_kpoints']


def check_kpoints(case):
    m = dict(case['model'], comment=case['comment'])
    content = to_dict(m)
    key, which = case['key'], case['which']
    if case['fault'] == 'none':
        content = ordered(content, case['order'])
        before = snapshot(content)
        obj = call('building from a dictionary', Kpoints, kpoints_dict=content)
        compare(obj.get_dict(), dict(kc.expected(m), comment=m['comment']), 'what is held')
        equal(snapshot(content), before, 'the dictionary that was given')
        return
    if case['fault'] == 'missing':
        code = MISSING
        if key in ('divisions', 'points', 'generating_vectors') and content[key] is not None:
            code = 206
        del content[key]
        what = f'dictionary without {key}'
    elif case['fault'] == 'empty':
        # nothing that says which points are meant
        content.update(divisions=None, points=None, generating_vectors=None)
        code, what = 206, 'dictionary without any points'
    elif case['fault'] == 'unfit':
        changes, code = unfit(m, which)
        content.update(changes)
        what = f'{m["kind"]} dictionary with {changes!r}'
    else:
        values = wrong_kpoints(key, m)
        content[key], code = values[which % len(values)]
        what = f'dictionary with {key}: {content[key]!r}'
    content = ordered(content, case['order'])
    refused(what, code, Kpoints, content)


KPOINTS = st.fixed_dictionaries(dict(model=kc.model(), comment=st.sampled_from([None, 'Example', '']), fault=st.sampled_from(['none', 'missing', 'missing', 'empty', 'unfit', 'unfit', 'wrong', 'wrong', 'wrong', 'wrong']), key=st.sampled_from(KEYS),
                                     which=st.integers(0, 200), order=st.lists(st.integers(0, 12), max_size=6)))


# edits that leave an invalid object behind
def written(obj, what, code, sinks):
    """Writing is refused before anything is written."""
    expect_exit(f'get_string {what}', code, obj.get_string)
    for sink in sinks:
        listing = sorted(os.listdir(scratch()))
        if sink == 'handler':
            buffer = io.StringIO()
            buffer.write('before\n')
            expect_exit(f'write to an open file {what}', code, obj.write, file_handler=buffer)
            equal(buffer.getvalue(), 'before\n', f'what an open file got {what}')
            continue
        text = 'old content\n' * 7
        path = write_file('TARGET', text) if sink == 'old' else os.path.join(scratch(), 'NEW')
        listing = sorted(set(listing) | ({'TARGET'} if sink == 'old' else set()))
        expect_exit(f'write to a path {what}', code, obj.write, file_path=path)
        equal(sorted(os.listdir(scratch())), listing, f'files after a refused write {what}')
        if sink == 'old':
            with open(path, encoding='utf8') as handle:
                equal(handle.read(), text, f'the old file after a refused write {what}')


def check_late_poscar(case):
    cell, sites = pc.sites_of(case['structure'])
    f = gen.Filler(case['seed'])
    which = case['which']
    keys = ['velocities', 'predictors'] if case['both'] else [['velocities', 'predictors'][which % 2]]
    for site in sites:
        for key in ('velocities', 'predictors'):
            site[key] = f.array([3], 6, 1) if key in keys else None
    if len(sites) == 1:
        sites.append(dict(sites[0], position=f.array([3], 6, 1)))
    options = case['options']
    content = {'comment': 'c', 'unitcell': np.array(cell), 'sites': [site_of(x, False) for x in sites]}
    at = which % len(sites)
    lacking = dict(sites[at], **{keys[0]: None})
    if case['start']:
        # an object that is invalid from the start can be held, but not written
        content['sites'][at] = site_of(lacking, False)
        obj = call('building from a dictionary', Poscar, poscar_dict=content, **options)
    else:
        obj = call('building from a dictionary', Poscar, poscar_dict=content, **options)
        check_poscar_text(call('get_string', obj.get_string), 'c', cell, sites, options, 'text before')
        call('modify sites', obj.modify, 'sites', site_of(lacking, False), site_number=at)
    written(obj, f'where site {at} of {len(sites)} has no {keys[0]}', 302, case['sinks'])
    if case['repair'] == 'delete':
        call('delete_site', obj.delete_site, at)
        sites = sites[:at] + sites[at + 1:]
    else:
        call('modify sites', obj.modify, 'sites', site_of(sites[at], False), site_number=at)
    check_poscar_text(call('get_string', obj.get_string), 'c', cell, sites, options, 'text after')


def check_late_kpoints(case):
    m = dict(case['model'], comment='c')
    obj = call('building from a dictionary', Kpoints, kpoints_dict=to_dict(m))
    if case['unfit'] is None:
        entry = {'gamma': 'divisions', 'mp': 'divisions', 'grg': 'generating_vectors'}.get(m['kind'], 'points')
        changes, code = {entry: None}, 206
    else:
        changes, code = unfit(m, case['unfit'])
    good = to_dict(m)
    for entry, value in sorted(changes.items(), key=lambda item: item[1] is None):
        call(f'modify {entry} with {value!r}', obj.modify, entry, value)
    written(obj, f'with {changes!r}', code, case['sinks'])
    # an object without any points refuses every edit
    if case['unfit'] is not None:
        for entry in sorted(changes, key=lambda entry: good[entry] is None):
            call(f'modify {entry} back', obj.modify, entry, good[entry])
        check_kpoints_text(call('get_string', obj.get_string), m, {}, 'text after it was made valid again')
    again = call('building from a dictionary', Kpoints, kpoints_dict=to_dict(m))
    check_kpoints_text(call('get_string', again.get_string), m, {}, 'text of another object')


SINK = st.lists(st.sampled_from(['old', 'new', 'handler']), min_size=1, max_size=3, unique=True)
LATE_POSCAR = st.fixed_dictionaries(dict(structure=pc.structure(symbols=['H', 'O', 'Si', 'U', 'C']), seed=gen.seeds, which=st.integers(0, 99), both=st.booleans(), start=st.booleans(), options=OPTIONS, sinks=SINK, repair=st.sampled_from(['delete', 'modify'])))
LATE_KPOINTS = st.fixed_dictionaries(dict(model=kc.model(), sinks=SINK, unfit=st.one_of(st.none(), st.integers(0, 40), st.integers(0, 40))))


SUBS = [
    Sub('incar', INCAR, check_incar, quick=2000, labels=lambda c: [c['fault']], nontrivial=lambda c: len(c['dict']) > 1, rule='several tags'),
    Sub('poscar', POSCAR, check_poscar, quick=1000, labels=lambda c: [c['fault']], rule='every case is a complete structure'),
    Sub('kpoints', KPOINTS, check_kpoints, quick=1500, labels=lambda c: [c['fault'] + ('' if c['fault'] in ('none', 'empty', 'unfit') else ' ' + c['key'])], rule='every case is a complete k-point set'),
    Sub('later poscar', LATE_POSCAR, check_late_poscar, quick=400, labels=lambda c: c['sinks'] + [c['repair']], rule='every case'),
    Sub('later kpoints', LATE_KPOINTS, check_late_kpoints, quick=300, labels=lambda c: c['sinks'] + [c['model']['kind']], rule='every case'),
]
