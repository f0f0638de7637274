"""C29: cut and overflowed output files never yield invented numbers."""
import io
import re

import numpy as np
from hypothesis import strategies as st

from parsevasp.outcar import Outcar
from pbt import c17, c18, c19, gen, poscar_common, kpoints_common
from pbt import outcar_common as oc
from pbt.c24 import CLASSES, plain
from pbt.c27 import ask, queries
from pbt.core import Sub, Violation, close, equal, require, sut
from pbt.source import load, sources

RULE = 'A correct file is generated and damaged: cut at any byte, or one of its real numbers overflows or runs into its neighbour. Every answer is compared with that of the undamaged file.'
ASSUMPTIONS = [
    'a file that is cut within or directly behind a number is one in which this number is shorter: it cannot be told from a correct one when everything else is there',
    'a CHGCAR that is cut between complete data sets is one with fewer data sets',
    'a DOSCAR has at least two energies',
    'numbers of CHGCAR that are not reported (positions, augmentation occupancies) may be damaged without notice',
]
REAL = re.compile(r'(?<![^\s])[-+]?\d*\.\d*(?:[eEdD][-+]?\d+)?(?![^\s])')


def answers(kind, text, options):
    obj = CLASSES[kind](file_handler=io.StringIO(text), **options)
    # the text that would be written follows from the rest
    return {repr(query): ask(obj, query) for query in queries(obj) if query[0] != 'get_string'}


def absent(value):
    return value in (None, 'None', {}, [], '') or isinstance(value, str) and value.startswith('exit') or isinstance(value, list) and value[0] == 'array' and value[2] == []


def allowed(got, want):
    """Is this the answer, or a part of it behind which the file was cut?"""
    if got == want or absent(got):
        return True
    if isinstance(want, dict) and set(want) == {"'x'", "'y'", "'z'"} and got == want["'x'"]:
        return True  # a CHGCAR with two of four data sets
    if isinstance(got, dict) and isinstance(want, dict):
        return set(got) == set(want) and all(allowed(got[key], want[key]) for key in got)
    if isinstance(got, list) and isinstance(want, list) and not (got and got[0] == 'array'):
        return len(got) <= len(want) and all(allowed(g, w) for g, w in zip(got, want))
    return False


def damage(case, text):
    """The damaged text, and the texts whose answers are right for it."""
    how, at = case['damage'], case['at']
    if how in ('cut', 'cut late', 'cut line'):
        if how == 'cut':
            n = at % (len(text) + 1)
        elif how == 'cut late':
            n = max(len(text) - at % min(len(text), 160), 0)
        else:
            ends = [i + 1 for i, char in enumerate(text) if char == '\n']
            n = ends[at % len(ends)]
        start = n
        while start and not text[start - 1].isspace():
            start -= 1
        end = n
        while end < len(text) and not text[end].isspace():
            end += 1
        return text[:n], [text, text[:n] + text[end:]]
    spots = [found for found in REAL.finditer(text) if text.count('\n', 0, found.start()) not in TEXT_LINES[case['kind']]]
    if how == 'overflow':
        if not spots:
            return text, [text]
        found = spots[at % len(spots)]
        return text[:found.start()] + '*' * len(found.group()) + text[found.end():], [text]
    pairs = [(a, b) for a, b in zip(spots, spots[1:]) if not text[a.end():b.start()].strip(' \t')]
    if not pairs:
        return text, [text]
    first, second = pairs[at % len(pairs)]
    return text[:first.end()] + '-' + text[second.start():].lstrip('-+'), [text]


TEXT_LINES = {'doscar': [4], 'eigenval': [4], 'chgcar': [0], 'poscar': [0], 'kpoints': [0], 'outcar': []}
BUILD = {'doscar': c17.build, 'eigenval': c18.build, 'chgcar': c19.build, 'poscar': lambda c: (poscar_common.render(*c),), 'kpoints': lambda c: (kpoints_common.render(*c),), 'outcar': lambda m: (''.join(line + '\n' for line, _ in oc.write(m)),)}


def prepare(case):
    text = BUILD[case['kind']](case['content'])[0]
    if isinstance(text, tuple):
        text = text[0]
    return text, damage(case, text)


def check(case):
    kind = case['kind']
    text, (broken, rights) = prepare(case)
    options = {'non_collinear': case['content']['spin'] == 'ncl'} if kind == 'doscar' else {}
    out = sut(answers, kind, broken, options)
    if not out.ok:
        require(broken.rstrip() != text.rstrip(), lambda: f'{kind}: {broken!r} was refused: {out!r}')
        return
    wants = []
    for right in rights:
        want = sut(answers, kind, right, options)
        if want.ok:
            wants.append(want.value)
    # statistics that overflowed are not available
    part = case['damage'].startswith('cut') or kind == 'outcar'
    for want in wants:
        if all(allowed(got, want[query]) if part else got == want[query] for query, got in out.value.items() if query in want):
            return
    wrong = [query for query, got in out.value.items() if query in wants[0] and not allowed(got, wants[0][query])]
    raise Violation(f'{kind}, {case["damage"]}: {wrong} of {broken!r} gives {[out.value[q] for q in wrong]}, before the damage {[wants[0][q] for q in wrong]}')


STRATEGIES = {
    'doscar': c17.strategy().map(lambda c: {**c, 'ndos': c['ndos'] + 1}), 'eigenval': c18.strategy, 'chgcar': c19.strategy(),
    'poscar': st.tuples(poscar_common.structure(), poscar_common.layout()), 'kpoints': st.tuples(kpoints_common.model(), kpoints_common.layout()), 'outcar': oc.model(),
}
CUTS = ['cut', 'cut late', 'cut line']
DAMAGE = CUTS + ['overflow', 'glued']


def strategy(kind, damages=DAMAGE):
    return st.fixed_dictionaries(dict(kind=st.just(kind), content=STRATEGIES[kind], damage=st.sampled_from(damages), at=st.integers(0, 10**6)))


def labels(case):
    return [case['damage']]


def hurts(case):
    text, (broken, _) = prepare(case)
    return text.rstrip() != broken.rstrip()


SUBS = [
    Sub('outcar numbers' if kind == 'outcar' else kind, strategy(kind, DAMAGE[3:] if kind == 'outcar' else DAMAGE if kind in ('doscar', 'eigenval', 'chgcar') else CUTS), check,
        quick=1500, labels=labels, nontrivial=hurts, rule='the file is damaged', shards=8) for kind in STRATEGIES
]


def check_outcar(case):
    """The tables of a run that was killed while it wrote."""
    lines = oc.write(case['model'])
    text = ''.join(line + '\n' for line, _ in lines)
    text = text[:cut_at(case, text)]
    count = text.count('\n')
    printed = [event for _, event in lines[:count] if event]
    # a table is known when its last row is
    behind = [event for line, event in lines[count:count + 2] if event and event[0] in 'xyz' and not line.strip()]
    symmetry = {name: {'static': [], 'dynamic': []} for name in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type')}
    elastic = {'non_symmetrized': None, 'symmetrized': None, 'total': None}
    spheres = {proj: ({}, {}) for proj in 'xyz'}
    electrons, stats = [], {}
    for event in printed:
        kind = event[0]
        if kind in ('cell', 'supercell', 'operations'):
            symmetry[{'cell': 'original_cell_type', 'supercell': 'symmetrized_cell_type', 'operations': 'num_space_group_operations'}[kind]][event[1]].append(event[2])
        elif kind == 'elastic' and event[1] != 'contribution':
            elastic['non_symmetrized' if event[1] == 'raw' else event[1]] = event[2]
        elif kind in ('x', 'y', 'z'):
            spheres[kind] = (event[1]['sites'], event[1]['total'])
        elif kind == 'electrons':
            electrons = event[1]
        elif kind == 'stat':
            stats[event[1]] = event[2]
    what = f'{text!r}'
    out = sut(load, Outcar, text, case['source'])
    if not any(event[0] == 'iteration' for event in printed):
        require(not out.ok and out.exit is not None, lambda: f'{what}: there is no iteration, got {out!r}')
        return
    require(out.ok, lambda: f'{what}: {out!r}')
    obj = out.value
    equal(obj.get_symmetry(), symmetry, f'{what}: symmetry')
    got = obj.get_elastic_moduli()
    for name, table in elastic.items():
        if got[name] is not None:
            close(got[name], None if table is None else np.array(table), f'{what}: elastic moduli, {name}', rtol=1e-12, atol=0)
        elif table is not None:
            title = {'non_symmetrized': 'ELASTIC MODULI  (kBar)', 'symmetrized': 'SYMMETRIZED ELASTIC MODULI', 'total': 'TOTAL ELASTIC MODULI'}[name]
            started = sum(line.strip().startswith(title) for line, _ in lines[:count])
            ended = sum(event[0] == 'elastic' and event[1] in (name, 'raw' if name == 'non_symmetrized' else '') for event in printed)
            require(started > ended, lambda: f'{what}: elastic moduli, {name}: complete but not reported')
    moments = obj.get_magnetization()
    for proj, table in spheres.items():
        pair = (moments['sphere'][proj]['site_moment'], moments['sphere'][proj]['total_magnetization'])
        rights = [table] + [(event[1]['sites'], event[1]['total']) for event in behind if event[0] == proj]
        require(pair in rights, lambda: f'{what}: moments {proj}: {pair} is neither of {rights}')
    equal(list(moments['full_cell']), electrons, f'{what}: magnetisation of the cell')
    equal(dict(obj.get_run_stats()), stats, f'{what}: run statistics')


def cut_at(case, text):
    """Where it is cut: anywhere, or within a table."""
    if case['table'] is None:
        return case['at'] % (len(text) + 1)
    starts = [found.end() for found in re.finditer(r'magnetization \(|ELASTIC MODULI|Analysis of symmetry|Total CPU time|Iteration', text)]
    return min(starts[case['table'] % len(starts)] + case['at'] % 700, len(text))


def outcar():
    return st.fixed_dictionaries(dict(
        model=oc.model(), source=sources, at=st.integers(0, 10**6), table=st.one_of(st.none(), st.integers(0, 100), st.integers(0, 100))))


@st.composite
def large_outcar(draw):
    case = draw(outcar())
    case['model'].update(n_ions=draw(gen.large_sizes), steps=case['model']['steps'][:3], tables='all')
    case['at'] = draw(st.integers(0, 10**6))
    return case


def outcar_labels(case):
    return ['cut anywhere' if case['table'] is None else 'cut in a table', case['model']['spin'], 'tables of ' + case['model']['tables']]


SUBS += [
    Sub('outcar', outcar(), check_outcar, quick=2500, labels=outcar_labels, nontrivial=lambda c: bool(c['model']['elastic'] or c['model']['symmetry'] or c['model']['spin'] != 'none'), rule='at least one table is printed', shards=8),
    Sub('outcar large', large_outcar(), check_outcar, quick=160, labels=outcar_labels, nontrivial=lambda c: c['model']['spin'] != 'none', rule='a magnetisation table of at least eleven atoms', shards=8),
]
