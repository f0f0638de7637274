"""C06: POSCAR edits and site order."""
import io

import numpy as np
from hypothesis import strategies as st

from parsevasp.poscar import Poscar, Site
from pbt import gen, poscar_common as pc
from pbt.c04 import compare_sites
from pbt.c05 import check_text
from pbt.core import Sub, call, close, equal, expect_exit, expect_refused, require, snapshot

RULE = 'Edit histories are generated as one value and applied to a Poscar object and to a plain list of sites; state is compared after every step, written text when asked for.'
ASSUMPTIONS = ['new sites are given as Site objects in direct or Cartesian coordinates; site numbers count from zero', 'either all sites have velocities (predictors) or none has']


def make_site(site, cell=None):
    """A site object; given with Cartesian coordinates if there is a cell."""
    if cell is not None:
        site = dict(site, **{k: None if site[k] is None else pc.vecmat(site[k], cell) for k in ('position', 'velocities')})
    arr = {k: None if site[k] is None else np.array(site[k]) for k in ('position', 'velocities', 'predictors')}
    return Site(site['specie'], arr['position'], selective=list(site['selective']), velocities=arr['velocities'], predictors=arr['predictors'], direct=cell is None)


def view(site):
    """A site object seen through its accessors."""
    return dict(specie=site.get_specie(), position=site.get_position(), selective=site.get_selective(), velocities=site.get_velocities(), predictors=site.get_predictors(), direct=site.get_direct())


def check_setters(case):
    """Sites that are set up by their accessors, before and after a structure is made of them."""
    cell, site = case['cell'], case['site']
    obj = call('a site without options', Site, site['specie'], np.array([9.0, 9.0, 9.0]))
    want = dict(specie=site['specie'].capitalize(), position=[9.0] * 3, selective=[True] * 3, velocities=None, predictors=None)
    compare_sites([view(obj)], [want], 'a site without options')
    for what in case['order']:
        if what == 'position':
            want['position'] = site['position']
            call('set_position', obj.set_position, np.array(site['position']))
        elif what == 'velocities':
            want['velocities'] = site['velocities']
            call('set_velocities', obj.set_velocities, np.array(site['velocities']))
        else:
            call('set_direct', obj.set_direct, False)
            equal(obj.get_direct(), False, 'get_direct')
            call('set_direct', obj.set_direct, True)
        compare_sites([view(obj)], [want], f'a site after setting {what}')
    if case['cartesian']:
        obj.set_direct(False)
        inv = pc.inv3(cell)
        want = dict(want, **{k: None if want[k] is None else pc.vecmat(want[k], inv) for k in ('position', 'velocities')})
    made = call('building from a dictionary', Poscar, poscar_dict={'comment': None, 'unitcell': np.array(cell), 'sites': [obj]})
    compare_sites(made.get_dict()['sites'], [want], 'structure of one site')
    check_text(call('get_string', made.get_string), None, cell, [want], {}, 'structure of one site')


def complete(site, vel, pred):
    return dict(specie=site['specie'].capitalize(), position=site['position'], selective=site['selective'], velocities=site['velocities'] if vel else None, predictors=site['predictors'] if pred else None)


def check(case):
    s = case['structure']
    lay = dict(case['layout'], fmt='%r')
    text = pc.render(s, lay)
    cell, sites = pc.sites_of(s)
    has_vel, has_pred = s['vel'] is not None, s['pred'] is not None
    comment = s['comment'].replace('#', '').strip()
    # with `start` 'dict' a second object is made of the same dictionary and given the same lists of sites
    other, others, lists, source = None, sites, [], None
    if case['start'] == 'text':
        obj = call(f'reading {text!r}', Poscar, poscar_string=text, **case['options'])
    else:
        source = {'comment': comment, 'unitcell': np.array(cell), 'sites': [make_site(x) for x in sites]}
        lists.append((source, snapshot(source)))
        obj = call('building from a dictionary', Poscar, poscar_dict=source, **case['options'])
        other = call('building from the same dictionary', Poscar, poscar_dict=source, **case['options'])
        others = [dict(x) for x in sites]
        first = (comment, cell)
    for n, op in enumerate(case['ops']):
        when = f'after step {n} ({op["op"]})'
        kind = op['op']
        if kind == 'comment':
            comment = op['comment']
            call('modify comment', obj.modify, 'comment', comment)
        elif kind == 'cell':
            cell = op['cell']
            call('modify unitcell', obj.modify, 'unitcell', np.array(cell))
        elif kind == 'site' and sites:
            i = op['n'] % len(sites)
            sites[i] = complete(op['site'], has_vel, has_pred)
            call('modify sites', obj.modify, 'sites', make_site(dict(sites[i], specie=op['site']['specie']), cell if op['cartesian'] else None), site_number=i)
        elif kind == 'sites':
            made = [complete(x, has_vel, has_pred) for x in op['sites']]
            objects = [make_site(x, cell if op['cartesian'] and n % 2 else None) for n, x in enumerate(made)]
            # one object may stand for several sites
            order = [i % len(made) for i in op['order']] or list(range(len(made)))
            new = [dict(made[i]) for i in order]
            given = [objects[i] for i in order]
            lists.append((given, snapshot(given)))
            call('modify sites', obj.modify, 'sites', given)
            sites = new
            if other is not None and not op['cartesian']:
                call('modify sites of another object', other.modify, 'sites', given)
                others = [dict(x) for x in new]
        elif kind == 'delete' and len(sites) > 1:
            i = op['n'] % len(sites)
            del sites[i]
            call('delete_site', obj.delete_site, i)
        elif kind == 'bad':
            good = make_site(complete(op['site'], has_vel, has_pred))
            far = len(sites) + op['n']
            which = op['which']
            if which == 'far':
                expect_exit(f'modify site {far} of {len(sites)}', 304, obj.modify, 'sites', good, site_number=far)
            elif which == 'delete far':
                expect_exit(f'delete site {far} of {len(sites)}', 304, obj.delete_site, far)
            elif which == 'entry':
                expect_exit('modify an unknown entry', 305, obj.modify, op['name'], 'x')
            elif which == 'no site':
                expect_exit('modify a site with a dictionary', 13, obj.modify, 'sites', {'specie': 'H'}, site_number=0)
            elif which == 'nothing':
                expect_exit('modify a site with None', 13, obj.modify, 'sites', None, site_number=0)
                expect_exit('modify the sites with None', 13, obj.modify, 'sites', None)
                expect_exit('modify the unit cell with None', 13, obj.modify, 'unitcell', None)
            elif which == 'elements':
                expect_exit('modify the sites with other objects', 13, obj.modify, 'sites', [[good, {'specie': 'H'}], [None], ['H', good], [good, [0.0, 0.0, 0.0]]][op['n'] % 4])
            elif which == 'number':
                expect_exit('modify a site with a text number', 13, obj.modify, 'sites', good, site_number='0')
                expect_refused('modify a site before the first', obj.modify, 'sites', good, site_number=-far - 1)
                expect_refused('delete a site before the first', obj.delete_site, -far - 1)
            elif which == 'delete number':
                expect_exit('delete a site with a text number', 13, obj.delete_site, '0')
            elif which == 'cell':
                expect_exit('modify the unit cell with a list', 13, obj.modify, 'unitcell', [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
            elif which == 'cell shape':
                expect_exit('modify the unit cell with a wrong shape', 13, obj.modify, 'unitcell', np.zeros((2, 3)))
            elif which == 'comment':
                expect_exit('modify the comment with a number', 13, obj.modify, 'comment', 5)
            elif which == 'sites':
                expect_exit('modify the sites with a tuple', 13, obj.modify, 'sites', (good,))
            else:
                expect_refused('add_site', obj.add_site, 0)
        elif kind == 'string':
            check_text(call('get_string', obj.get_string), comment, cell, sites, case['options'], f'text {when}')
        elif kind == 'write':
            buffer = io.StringIO()
            call('write', obj.write, file_handler=buffer)
            check_text(buffer.getvalue(), comment, cell, sites, case['options'], f'text {when}')
        elif kind == 'dict':
            obj.get_dict(direct=False)['sites'].clear()
        got = call('get_dict', obj.get_dict)
        equal(got['comment'], comment, f'comment {when}')
        close(got['unitcell'], cell, f'unit cell {when}', rtol=1e-12)
        compare_sites(got['sites'], sites, when, atol=1e-10)
        equal(call('get(comment)', obj.get, 'comment'), comment, f'get(comment) {when}')
        close(call('get(unitcell)', obj.get, 'unitcell'), cell, f'get(unitcell) {when}', rtol=1e-12)
        compare_sites([view(x) for x in call('get(sites)', obj.get, 'sites')], sites, f'get(sites) {when}', atol=1e-10)
        equal(call('get of an unknown entry', obj.get, 'Comments'), None, f'get of an unknown entry {when}')
    check_text(call('get_string', obj.get_string), comment, cell, sites, case['options'], 'final text')
    for given, before in lists:
        equal(snapshot(given), before, 'what the caller passed in, after all edits')
    if other is not None:
        got = call('get_dict', other.get_dict)
        equal(got['comment'], first[0], 'comment of the object that was not edited')
        close(got['unitcell'], first[1], 'unit cell of the object that was not edited', rtol=1e-12)
        compare_sites(got['sites'], others, 'the object that was not edited', atol=1e-10)


def check_missing(case):
    """Dictionaries that lack an entry or hold a wrong type."""
    site = make_site(complete(case['site'], False, False))
    full = {'comment': 'c', 'unitcell': np.array(case['cell']), 'sites': [site]}
    call('building from a complete dictionary', Poscar, poscar_dict=dict(full))
    what = case['what']
    bad = dict(full)
    if what in full:
        del bad[what]
        if what == 'sites':
            expect_refused('dictionary without sites', Poscar, poscar_dict=bad)
        else:
            expect_exit(f'dictionary without {what}', 12, Poscar, poscar_dict=bad)
    else:
        bad['unitcell' if what == 'cell type' else 'comment'] = [[1.0]] if what == 'cell type' else 3
        expect_exit(f'dictionary with a bad {what}', 13, Poscar, poscar_dict=bad)


@st.composite
def site(draw):
    f = gen.Filler(draw(gen.seeds))
    return dict(specie=draw(st.sampled_from(['H', 'O', 'Si', 'U', 'cl', 'C'])), position=f.array([3], 6, 1), selective=draw(st.sampled_from([[True] * 3, [True] * 3, [False, True, False], [True, True, False]])),
                velocities=f.array([3], 6, 1), predictors=f.array([3], 6, 1))


@st.composite
def op(draw):
    kind = draw(st.sampled_from(['site'] * 4 + ['delete'] * 3 + ['sites', 'comment', 'cell', 'bad', 'bad', 'string', 'write', 'dict']))
    out = dict(op=kind)
    if kind == 'comment':
        out['comment'] = draw(st.one_of(st.sampled_from([None, '']), gen.comment_text('#\n\r'), gen.comment_text('#\n\r')))
    elif kind == 'cell':
        out['cell'] = draw(pc.lattice())
    elif kind == 'site':
        out.update(n=draw(st.integers(0, 9)), site=draw(site()), cartesian=draw(st.integers(0, 3)) == 0)
    elif kind == 'sites':
        out['cartesian'] = draw(st.integers(0, 3)) == 0
        out['sites'] = draw(st.lists(site(), min_size=1, max_size=6))
        out['order'] = draw(st.one_of(st.just([]), st.lists(st.integers(0, 5), min_size=1, max_size=7)))
    elif kind == 'delete':
        out['n'] = draw(st.integers(0, 9))
    elif kind == 'bad':
        out.update(n=draw(st.integers(0, 3)), site=draw(site()), which=draw(st.sampled_from(['far', 'delete far', 'entry', 'no site', 'number', 'delete number', 'cell', 'cell shape', 'comment', 'sites', 'nothing', 'elements', 'add'])),
                   name=draw(st.sampled_from(['position', 'site', 'foo', '', 'lattice', 'comments', 'a comment', 'my sites', 'unitcell2', 'Comment'])))
    return out


OPTIONS = st.sampled_from([{}, {}, {'conserve_order': True}, {'write_direct': False}, {'write_direct': False, 'conserve_order': True}])
CASE = st.fixed_dictionaries(dict(structure=pc.structure(symbols=['H', 'O', 'Si', 'U', 'C']), layout=pc.layout(), start=st.sampled_from(['text', 'text', 'dict']), options=OPTIONS, ops=st.lists(op(), min_size=2, max_size=15)))


def check_order(case):
    """Only the order and grouping, for long lists of species."""
    sites = [dict(specie=sp.capitalize(), position=[i / 1000.0, 0.25, 0.5], selective=[True, True, i % 3 != case['every']], velocities=None, predictors=None) for i, sp in enumerate(case['species'])]
    cell = case['cell']
    given = [make_site(x) for x in sites]
    obj = call('building from a dictionary', Poscar, poscar_dict={'comment': None, 'unitcell': np.array(cell), 'sites': given}, **case['options'])
    check_text(call('get_string', obj.get_string), None, cell, sites, case['options'], f'text of {case["species"]}')
    compare_sites(obj.get_dict()['sites'], sites, 'structure after writing')


ORDER = st.fixed_dictionaries(dict(species=st.lists(st.sampled_from(['H', 'O', 'Si', 'u', 'C', 'FE']), min_size=1, max_size=40), cell=pc.lattice(), options=OPTIONS, every=st.integers(0, 9)))


@st.composite
def large_order(draw):
    """Few runs of species, some of them long."""
    runs = draw(st.lists(st.tuples(st.sampled_from(['H', 'O', 'Si', 'u', 'C', 'FE']), st.one_of(gen.large_sizes, st.integers(1, 30))), min_size=2, max_size=4))
    return dict(draw(ORDER), species=[name for name, size in runs for _ in range(size)])


SUBS = [
    Sub('history', CASE, check, quick=1600, labels=lambda c: sorted({o['op'] + (' ' + o['which'] if o['op'] == 'bad' else '') for o in c['ops']}),
        nontrivial=lambda c: sum(o['op'] in ('site', 'sites', 'delete', 'cell', 'comment') for o in c['ops']) >= 2, rule='at least two changes', shards=8),
    Sub('large order', large_order(), check_order, quick=200, nontrivial=lambda c: len(set(c['species'])) >= 2, rule='at least two species, a long run', shards=8),
    Sub('order', ORDER, check_order, quick=1200,
        nontrivial=lambda c: len(set(c['species'])) >= 2, rule='at least two species'),
    Sub('setters', st.fixed_dictionaries(dict(site=site(), cell=pc.lattice(), cartesian=st.booleans(), order=st.lists(st.sampled_from(['position', 'velocities', 'direct']), max_size=4))), check_setters, quick=200,
        nontrivial=lambda c: bool(c['order']), rule='at least one change', shards=1),
    Sub('missing', st.fixed_dictionaries(dict(site=site(), cell=pc.lattice(), what=st.sampled_from(['comment', 'unitcell', 'sites', 'cell type', 'comment type']))), check_missing, quick=60, labels=lambda c: [c['what']], shards=1),
]
