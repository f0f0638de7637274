"""C05: POSCAR round trip."""
import io

import numpy as np
from hypothesis import strategies as st

from parsevasp.poscar import Poscar, Site
from pbt import poscar_common as pc
from pbt.c04 import compare_sites
from pbt.core import Sub, call, close, equal, require, snapshot, write_file

RULE = 'Structures are read from text or built from dictionaries (plain or Site objects, direct or Cartesian), written with generated options to every sink, and read by an own reader and by the parser.'
ASSUMPTIONS = ['either all sites have velocities (predictors) or none has, as in a POSCAR', 'comments are one line without #']


def build(case):
    s = case['structure']
    options = dict(case['options'])
    if case['how'] == 'text':
        text = pc.render(s, case['layout'])
        cell, sites = pc.sites_of(pc.printed(s, case['layout']['fmt']))
        return call(f'reading {text!r}', Poscar, poscar_string=text, **options), s['comment'].replace('#', '').strip(), cell, sites
    cell, sites = pc.sites_of(dict(s, vel=None if s['vel'] is None else dict(s['vel'], cart=False)))
    given = []
    for site in sites:
        direct = case['dict_direct']
        pos, vel = site['position'], site['velocities']
        if not direct:
            pos = pc.vecmat(pos, cell)
            vel = None if vel is None else pc.vecmat(vel, cell)
        pos = np.array(pos)
        vel = None if vel is None else np.array(vel)
        pre = None if site['predictors'] is None else np.array(site['predictors'])
        if case['how'] == 'sites':
            given.append(Site(site['specie'], pos, selective=site['selective'], velocities=vel, predictors=pre, direct=direct))
        else:
            given.append(dict(specie=site['specie'], position=pos, selective=site['selective'], velocities=vel, predictors=pre, direct=direct))
    comment = case['comment']
    source = {'comment': comment, 'unitcell': np.array(cell), 'sites': given}
    before = snapshot(source)
    obj = call('building from a dictionary', Poscar, poscar_dict=source, **options)
    equal(snapshot(source), before, 'the dictionary and sites of the caller')
    # the same sites again, in a larger cell: Cartesian ones are elsewhere in it
    double = [[2 * x for x in v] for v in cell]
    more = call('building from the same sites', Poscar, poscar_dict=dict(source, unitcell=np.array(double)), **options)
    scale = 1.0 if case['dict_direct'] else 0.5
    compare_sites(more.get_dict()['sites'], [dict(s, position=[scale * x for x in s['position']], velocities=None if s['velocities'] is None else [scale * x for x in s['velocities']]) for s in sites], 'the same sites in a larger cell')
    return obj, comment, cell, sites


def arranged(sites, conserve):
    """Expected order of the written sites (a stable grouping); ties between equally frequent species are free."""
    if conserve:
        return None
    return sites


def check_order(written, sites, conserve, what):
    """Returns the permutation: index into `sites` for each written site."""
    names = [w['specie'] for w in written]
    want = [s['specie'] for s in sites]
    if conserve:
        equal(names, want, f'{what}: order of species')
        return list(range(len(sites)))
    equal(sorted(names), sorted(want), f'{what}: multiset of species')
    species, counts = pc.blocks(written)
    equal(len(species), len(set(want)), f'{what}: each species forms one block in {names}')
    require(counts == sorted(counts), f'{what}: species are not ordered by their number: {names}')
    return [i for sp in species for i, s in enumerate(sites) if s['specie'] == sp]


def check_decimals(text, prec, what):
    """Every real number below the comment line has as many decimals as asked for."""
    for number in [token for line in text.split('\n')[1:] for token in line.split() if '.' in token]:
        equal(len(number.split('.')[1]), prec, f'{what}: decimals of {number!r}')


def check_text(text, comment, cell, sites, options, what):
    prec = options.get('prec') or 12
    largest = max([abs(x) for site in sites for key in ('position', 'velocities', 'predictors') if site[key] is not None for x in site[key]], default=0.0)
    # in Cartesian form a point is only known to the precision of the written cell
    tol = (60 * (1 + largest) if options.get('write_direct') is False else 0.51) * 10.0 ** -prec + 1e-13 * (1 + largest) * max(abs(x) for v in cell for x in v)
    check_decimals(text, prec, what)
    try:
        data = pc.read(text)
    except (ValueError, IndexError, ZeroDivisionError) as exc:
        require(False, f'{what}: the written text is not a POSCAR ({exc}): {text!r}')
    conserve = bool(options.get('conserve_order'))
    equal(data['cart'], options.get('write_direct') is False, f'{what}: coordinate type')
    equal(data['selective'], any(not f for s in sites for f in s['selective']), f'{what}: selective dynamics line')
    close(data['cell'], cell, f'{what}: unit cell', rtol=0, atol=tol)
    perm = check_order(data['sites'], sites, conserve, what)
    want = [sites[i] for i in perm]
    compare_sites(data['sites'], want, what, atol=tol, vel_atol=tol)
    equal([data['species'], data['counts']], list(map(list, pc.blocks(want))), f'{what}: species line and counts')
    name = f'Compound: {pc.formula(data["species"], data["counts"])}.'
    require(data['comment'].startswith('#'), f'{what}: comment line {data["comment"]!r}')
    require(name in data['comment'], f'{what}: comment line {data["comment"]!r} does not name {name!r}')
    if comment is not None:
        require(comment in data['comment'], f'{what}: comment line {data["comment"]!r} does not keep {comment!r}')
    return want, tol


def check(case):
    obj, comment, cell, sites = build(case)
    compare_sites(obj.get_dict()['sites'], sites, 'held structure')
    equal(obj.get_dict()['comment'], comment, 'held comment')
    text = call('get_string', obj.get_string)
    want, tol = check_text(text, comment, cell, sites, case['options'], f'written text {text!r}')
    path = write_file('POSCAR.out', 'x\n' * 300)
    call('write to a path', obj.write, file_path=path)
    with open(path, encoding='utf8') as handle:
        equal(handle.read(), text, 'text written to a path')
    with open(path, 'w', encoding='utf8') as handle:
        call('write to an open file', obj.write, file_handler=handle)
        require(not handle.closed, 'write closed the file of the caller')
    with open(path, encoding='utf8') as handle:
        equal(handle.read(), text, 'text written to an open file')
    buffer = io.StringIO()
    call('write to a buffer', obj.write, file_handler=buffer)
    equal(buffer.getvalue(), text, 'text written to a buffer')
    compare_sites(obj.get_dict()['sites'], sites, 'structure after writing')
    again = call(f'reading back {text!r}', Poscar, file_path=path, **case['options'])
    got = again.get_dict()
    close(got['unitcell'], cell, 'unit cell read back', rtol=0, atol=tol)
    compare_sites(got['sites'], want, f'read back from {text!r}', atol=tol, vel_atol=tol)
    equal(got['comment'], text.split('\n')[0].replace('#', '').strip(), 'comment read back')
    second = call('get_string', again.get_string)
    if case['options'].get('write_direct') is not False:
        equal([ln.rstrip() for ln in second.split('\n')], [ln.rstrip() for ln in text.split('\n')], 'second text')
    else:
        check_text(second, got['comment'], cell, want, case['options'], 'second text')
    # the dictionary taken out can be put in again, in either coordinate type
    for direct in (True, False):
        clone = call(f'building from get_dict(direct={direct})', Poscar, poscar_dict=obj.get_dict(direct=direct), **case['options'])
        compare_sites(clone.get_dict()['sites'], sites, f'rebuilt from get_dict(direct={direct})')
        check_text(clone.get_string(), comment, cell, sites, case['options'], f'written from get_dict(direct={direct})')


@st.composite
def strategy(draw, large=False):
    how = draw(st.sampled_from(['text', 'sites', 'dicts']))
    options = {}
    if draw(st.booleans()):
        options['conserve_order'] = True
    if draw(st.booleans()):
        options['write_direct'] = False
    if draw(st.integers(0, 2)) == 0:
        options['prec'] = draw(st.sampled_from([1, 4, 6, 9, 14]))
    return dict(structure=draw(pc.structure(large=large)), layout=draw(pc.layout()), how=how, dict_direct=draw(st.booleans()), options=options,
                comment=draw(st.sampled_from([None, 'Example', 'Compound: H2O. Old comment: x', '', 'some words'])) if how != 'text' else None)


def labels(case):
    return [case['how'], 'conserve' if case['options'].get('conserve_order') else 'sorted', 'cart out' if case['options'].get('write_direct') is False else 'direct out'] + (
        ['velocities'] if case['structure']['vel'] else []) + (['predictors'] if case['structure']['pred'] else []) + (['selective'] if case['structure']['flags'] else [])


SUBS = [
    Sub('round_trip', strategy(), check, quick=1600, labels=labels, nontrivial=lambda c: len(c['structure']['positions']) >= 2, rule='at least two atoms', shards=8),
    Sub('large', strategy(True), check, quick=200, labels=labels, rule='every case has a species with at least eleven atoms', shards=8),
]
