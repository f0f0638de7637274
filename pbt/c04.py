"""C04: POSCAR reading."""
import io

import numpy as np
from hypothesis import strategies as st

from parsevasp.poscar import Poscar
from pbt import poscar_common as pc
from pbt.core import Sub, call, close, equal, expect_exit, require, write_file

RULE = 'Structures and textual layouts are generated independently; the POSCAR is rendered by an own writer and every returned number is compared with the model.'
ASSUMPTIONS = ['coordinate headers start in the first column, as VASP itself demands', 'species counts are positive', 'one scaling factor is given']
SOURCES = ['string', 'path', 'handler', 'stringio']


def load(text, source, **kwargs):
    if source == 'string':
        return Poscar(poscar_string=text, **kwargs)
    if source == 'path':
        return Poscar(file_path=write_file('POSCAR', text), **kwargs)
    if source == 'handler':
        with open(write_file('POSCAR', text), encoding='utf8') as handle:
            return Poscar(file_handler=handle, **kwargs)
    return Poscar(file_handler=io.StringIO(text), **kwargs)


def compare_sites(got, want, what, atol=1e-9, vel_atol=1e-9):
    require(isinstance(got, list) and len(got) == len(want), lambda: f'{what}: {len(got)} sites, expected {len(want)}')
    for i, (g, w) in enumerate(zip(got, want)):
        equal(g['specie'], w['specie'], f'{what}: species of site {i}')
        close(g['position'], w['position'], f'{what}: position of site {i}', rtol=1e-9, atol=atol)
        equal([bool(x) for x in g['selective']], w['selective'], f'{what}: selective flags of site {i}')
        close(g['velocities'], w['velocities'], f'{what}: velocities of site {i}', rtol=1e-9, atol=vel_atol)
        close(g['predictors'], w['predictors'], f'{what}: predictors of site {i}', rtol=1e-9, atol=vel_atol)


def check(case):
    lay = case['layout']
    text = pc.render(case['structure'], lay)
    cell, sites = pc.sites_of(pc.printed(case['structure'], lay['fmt']))
    obj = call(f'reading {text!r}', load, text, case['source'], **case['options'])
    got = obj.get_dict()
    equal(got['comment'], case['structure']['comment'].replace('#', '').strip(), 'comment')
    require(isinstance(got['unitcell'], np.ndarray), 'the unit cell is not an array')
    close(got['unitcell'], cell, 'unit cell')
    compare_sites(got['sites'], sites, f'{text!r}')
    for g in got['sites']:
        equal(g['direct'], True, 'direct flag')
    cart = obj.get_dict(direct=False)
    want = [dict(s, position=pc.vecmat(s['position'], cell), velocities=None if s['velocities'] is None else pc.vecmat(s['velocities'], cell)) for s in sites]
    compare_sites(cart['sites'], want, f'Cartesian form of {text!r}')
    for g in cart['sites']:
        equal(g['direct'], False, 'direct flag of the Cartesian form')
    close(cart['unitcell'], cell, 'unit cell of the Cartesian form')
    compare_sites(obj.get_dict()['sites'], sites, 'direct form after asking for the Cartesian one')


CASE = st.fixed_dictionaries(dict(structure=pc.structure(), layout=pc.layout(), source=st.sampled_from(SOURCES),
                                  options=st.sampled_from([{}, {'conserve_order': True}, {'write_direct': False}, {'prec': 5}])))
LARGE = st.fixed_dictionaries(dict(structure=pc.structure(large=True), layout=pc.layout(), source=st.sampled_from(SOURCES), options=st.just({})))


def labels(case):
    s = case['structure']
    out = ['cart' if s['cart'] else 'direct', 'source ' + case['source'], 'atoms 1' if len(s['positions']) == 1 else 'atoms >1']
    if s['scaling'] != 1:
        out.append('scaled ' + out[0])
    if s['flags']:
        out.append('selective')
    if s['vel']:
        out.append(f"{'cart' if s['vel']['cart'] else 'direct'} velocities below {out[0]} positions")
    if s['pred']:
        out.append('predictors')
    if len({r[0] for r in s['runs']}) < len(s['runs']):
        out.append('species repeated')
    if case['layout']['trail']:
        out.append('blank lines at the end')
    return out


def check_reject(case):
    s, lay = case['structure'], case['layout']
    if case['fault'] == 'scaling':
        text = pc.render(dict(s, scaling=-s['scaling']), lay)
        expect_exit(f'reading {text!r}', 307, load, text, case['source'])
    elif case['fault'] == 'vasp4':
        lines = pc.render(s, lay).split('\n')
        del lines[5]
        text = '\n'.join(lines)
        expect_exit(f'reading {text!r}', 301, load, text, case['source'])
    else:
        text = pc.render(dict(s, vel=None, pred=None), dict(lay, trail=[], final=True)) + case['head'] + '\n' + 'not a number\n'
        expect_exit(f'reading {text!r}', 302, load, text, case['source'])


REJECT = st.fixed_dictionaries(dict(structure=pc.structure(max_runs=3), layout=pc.layout(), source=st.sampled_from(SOURCES), fault=st.sampled_from(['scaling', 'vasp4', 'velocity']),
                                    head=st.sampled_from(['', 'Direct', 'Cartesian', 'c'])))

SUBS = [
    Sub('geometry', CASE, check, quick=2000, labels=labels, nontrivial=lambda c: len(c['structure']['positions']) >= 2, rule='at least two atoms', shards=8),
    Sub('large', LARGE, check, quick=200, labels=labels, rule='every case has a species with at least eleven atoms', shards=4),
    Sub('reject', REJECT, check_reject, quick=400, labels=lambda c: [c['fault']], rule='every case has one fault', shards=2),
]
