"""vasprun.xml: a model of what a run printed, its rendering as a document, and what the parser has to say about it."""
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Violation, call, close, equal, require, write_file
from pbt.core import scratch  # noqa: F401  pylint: disable=unused-import

from parsevasp.vasprun import Xml

# The periodic table as VASP names it; the position is the atomic number.
ELEMENTS = ('X H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb '
            'Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg '
            'Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr').split()

ENERGIES = {'energy_extrapolated': 'e_0_energy', 'energy_free': 'e_fr_energy', 'energy_no_entropy': 'e_wo_entrp'}
# parameter -> (separators, type)
PARAMETERS = {
    'symprec': (('symmetry',), 'SYMPREC', 'float'),
    'ismear': (('electronic', 'electronic smearing'), 'ISMEAR', 'int'),
    'sigma': (('electronic', 'electronic smearing'), 'SIGMA', 'float'),
    'ispin': (('electronic', 'electronic spin'), 'ISPIN', 'int'),
    'nbands': (('electronic',), 'NBANDS', 'int'),
    'nelect': (('electronic',), 'NELECT', 'float'),
    'system': (('general',), 'SYSTEM', 'string'),
    'nelm': (('electronic', 'electronic convergence'), 'NELM', 'int'),
    'nsw': (('ionic',), 'NSW', 'int'),
}
ORBITALS = ['s', 'py', 'pz', 'px', 'dxy', 'dyz', 'dz2', 'dxz', 'x2-y2', 'fy3x2', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fzx2', 'fx3']
BANDS = ['eigenvalues', 'projected', 'specific', 'velocities']
DOS = ['dos', 'dos_partial', 'dos_specific', 'dos_specific_partial']
RESPONSE = ['dielectric', 'dielectric_pair', 'epsilon', 'epsilon_ion', 'born', 'dynmat']
STEP = ['forces', 'stress', 'energies']
NOISE = ['incar', 'primitive', 'calc_kpoints', 'time', 'separator', 'conductivity', 'rpa', 'response_nelm', 'atomtypes', 'lf', 'kpoints_opt', 'motion']
ALL = BANDS + DOS + RESPONSE + STEP + NOISE


@st.composite
def cases(draw, always=(), never=(), few=False, parameters=None, max_atoms=4):
    """A description of a run. Sections in `always` are mostly there, those in `never` are not."""
    limit = 2 if few else 3
    max_atoms = draw(st.sampled_from([max_atoms] * 9 + [max_atoms + 1, max_atoms + 1, 2 * max_atoms + 3]))
    n_types = draw(st.integers(1, 3))
    types, total = [], 0
    for _ in range(n_types):
        count = draw(st.integers(1, 3 if max_atoms < 8 else 5))
        if total and total + count > max_atoms:
            break
        types.append([draw(st.integers(1, len(ELEMENTS) - 1)), count])
        total += count
    sections = [name for name in always if draw(st.integers(0, 7))]
    sections += [name for name in draw(st.lists(st.sampled_from(ALL), max_size=7, unique=True)) if name not in sections and name not in never]
    if 'velocities' in sections and 'specific' in sections:
        sections.remove('specific')
    if draw(st.integers(0, 5)) and 'energies' not in sections and 'energies' not in never:
        sections.append('energies')
    steps = draw(st.lists(st.integers(1, limit + 1), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, limit + 2, limit + 2, 4 * limit]))))
    unprinted = []
    if len(steps) > 2 and not draw(st.integers(0, 3)):
        # Steps between the first and the last without forces or without the stress
        unprinted = draw(st.lists(st.tuples(st.sampled_from(['forces', 'stress']), st.integers(1, len(steps) - 2)).map(list), min_size=1, max_size=3))
    if parameters is None:
        parameters = {'ispin', 'nbands'} if set(sections) & set(BANDS) else set()
    names = sorted(parameters | set(draw(st.lists(st.sampled_from(sorted(PARAMETERS)), max_size=6, unique=True))))
    return {
        'seed': draw(gen.seeds),
        'types': types,
        'steps': steps,
        'unprinted': unprinted,
        'spin': draw(st.sampled_from([1, 1, 2, 2, 4])),
        'nk': draw(st.integers(1, limit + 1)),
        'nb': draw(st.integers(1, limit + 1)),
        'nks': draw(st.integers(1, limit + 1)),
        'ng': draw(st.integers(1, limit + 2)),
        'norb': draw(st.sampled_from([9, 9, 3, 16, 1, 4])),
        'cols': draw(st.sampled_from([2, 2, 2, 1, 3])),
        'sections': sections,
        'parameters': names,
        'grid': draw(st.sampled_from(['Gamma', 'Monkhorst-Pack', 'listgenerated', 'none'])),
        'order': draw(gen.seeds),
        'indent': draw(st.sampled_from([True, True, True, False])),
        'pad': draw(st.sampled_from([0, 0, 0, 1, 2])),
        'eol': draw(st.sampled_from(['\n', '\n', '\n', '\r\n'])),
        'tail': draw(st.sampled_from(['\n', '\n', '', '\n\n', ' \n', '\n' * 40, ' \n' * 9 + '    '])),
        'lost': draw(st.sampled_from([None] * 60 + [[step, part, name] for step in (0, 1) for part in ('cycle', 'first', 'final', 'cycles') for name in sorted(ENERGIES)])),
        'version': draw(st.sampled_from(['5.4.1', '5.4.4.18Apr17-6-g9f103f2a35', '6.3.2', '6.10.12', ' 6.1.0 ', '5.4.4', None])),
        'system': draw(st.sampled_from(['unknown system', 'Si bulk  ', 'a < b & c', 'x', '  GaAs 1.0', '', 'Grün µ'])),
    }


@st.composite
def large(draw, runs, which):
    """A run with one long dimension: 'steps', 'cycles', 'atoms', 'nk', 'nb', 'nks' or 'ng'."""
    run = dict(draw(runs))
    what = draw(st.sampled_from(list(which)))
    size = draw(gen.large_sizes)
    run['types'] = [[number, 1] for number, _ in run['types'][:2]]
    run['steps'] = run['steps'][:2]
    for name in ('nk', 'nb', 'nks', 'ng'):
        run[name] = min(run[name], 2)
    if what == 'steps':
        run['steps'] = [1 + i % 3 % run['nk'] for i in range(min(size, 300))]
    elif what == 'cycles':
        run['steps'] = run['steps'][:-1] + [size]
    elif what == 'atoms':
        run['types'][-1][1] = size if not {'dynmat', 'projected', 'dos_partial', 'dos_specific_partial'} & set(run['sections']) else min(size, 25)
    else:
        run[what] = size
    run['lost'] = None
    run['unprinted'] = []
    return run


def shuffled(fill, items):
    items = list(items)
    for i in range(len(items) - 1, 0, -1):
        j = fill.integer(0, i)
        items[i], items[j] = items[j], items[i]
    return items


def escape(text):
    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def case_lost(case):
    """Is an energy missing? Then none of them is reported."""
    return case.get('lost') is not None


class Doc:  # pylint: disable=too-many-instance-attributes
    """Renders a case. `star` is the index of the number that overflows."""

    def __init__(self, case, star=None):
        self.case, self.star, self.count, self.starred = case, star, 0, None
        self.fill = gen.Filler(case['seed'])
        self.order = gen.Filler(case['order'])
        self.lines, self.depth = [], 0
        self.exp = {}
        self.sections = set(case['sections'])
        self.species = [number for number, count in case['types'] for _ in range(count)]
        self.atoms = len(self.species)
        self.render()
        self.text = ''.join(self.lines)
        tail = case['tail']
        self.text = self.text[:-len(case['eol'])] + tail.replace('\n', case['eol'])

    # --- low level -------------------------------------------------------------------------------------------------
    def put(self, line):
        indent = ' ' * self.depth if self.case['indent'] else ''
        self.lines.append(indent + line + self.case['eol'])

    def open(self, tag, **attrs):
        text = ''.join(f' {key}="{value}"' for key, value in attrs.items())
        self.put(f'<{tag}{text}{" " if tag in ("varray", "array", "structure") else ""}>')
        self.depth += 1

    def close(self, tag):
        self.depth -= 1
        self.put(f'</{tag}>')

    def num(self, value, style='wide', ref=None):
        """One printed number. `ref` is (array, index) of the expected value."""
        text = {'wide': f'{value:16.8f}', 'short': f'{value:10.4f}', 'sci': f'{value:16.8E}', 'int': f'{value:8d}' if style == 'int' else ''}[style]
        if self.star is not None and self.count == self.star:
            text = ('*' * (len(text) - self.star % 4)).rjust(len(text))  # all of the field, or all but some blanks
            self.starred = ref is not None
            if ref is not None:
                ref[0][ref[1]] = np.nan if style != 'int' else np.nan
        self.count += 1
        return text

    def row(self, tag, values, style='wide', array=None, index=(), attrs='', offset=0):
        parts = [self.num(v, style, None if array is None else (array, index + (i + offset,))) for i, v in enumerate(values)]
        pad = ' ' * self.case['pad']
        return self.put(f'<{tag}{attrs}>{pad}{" ".join(parts)} {pad}</{tag}>')

    def table(self, tag, array, style='wide', track=True):
        for i, values in enumerate(array):
            self.row(tag, values, style, array if track else None, (i,))

    def varray(self, name, array, style='wide', track=True):
        self.open('varray', name=name)
        self.table('v', array, style, track)
        self.close('varray')

    def array(self, shape, decimals=8, bound=90):
        return np.array(self.fill.array(list(shape), decimals, bound), dtype=float).reshape(shape)

    def scalar(self, name, value, style='wide', holder=None, key=None):
        """<i name=..>value</i>; the expected value goes to holder[key]."""
        if holder is not None:
            holder[key] = value
        text = self.num(value, style, None if holder is None else (holder, key))
        pad = ' ' * self.case['pad']
        self.put(f'<i name="{name}">{pad}{text} {pad}</i>')

    # --- document --------------------------------------------------------------------------------------------------
    def render(self):
        eol = self.case['eol']
        self.lines.append(f'<?xml version="1.0" encoding="ISO-8859-1"?>{eol}')
        self.open('modeling')
        head = shuffled(self.order, ['generator', 'incar', 'kpoints', 'parameters', 'atominfo', 'primitive'])
        for name in head:
            if name not in NOISE or name in self.sections:
                getattr(self, name)()
        steps = len(self.case['steps'])
        self.exp['cells'] = [self.array((3, 3)) for _ in range(steps)]
        self.exp['positions'] = [self.array((self.atoms, 3), bound=1) for _ in range(steps)]
        self.exp['forces'] = [self.array((self.atoms, 3)) for _ in range(steps)] if 'forces' in self.sections else None
        self.exp['stress'] = [self.array((3, 3), bound=900) for _ in range(steps)] if 'stress' in self.sections else None
        self.exp['energies'] = [] if 'energies' in self.sections else None
        self.structure('initialpos', self.exp['cells'][0], self.exp['positions'][0], False)
        for step in range(steps):
            self.calculation(step)
        if case_lost(self.case):
            self.exp['energies'] = None
        self.structure('finalpos', self.exp['cells'][-1], self.exp['positions'][-1], False)
        self.close('modeling')

    def generator(self):
        self.open('generator')
        self.put('<i name="program" type="string">vasp </i>')
        version = self.case['version']
        self.exp['version'] = None
        if version is not None:
            self.put(f'<i name="version" type="string">{version}  </i>')
            self.exp['version'] = '.'.join(version.strip().split('.')[:3])
        self.put('<i name="subversion" type="string">05Feb16 (build Oct 11 2016 12:26:42) 1.2.3 </i>')
        self.close('generator')

    def incar(self):
        """Same names as the parameters, other values: must not be taken."""
        self.open('incar')
        self.put('<i type="string" name="SYSTEM">of the incar</i>')
        for _, (_, tag, kind) in sorted(PARAMETERS.items()):
            if kind == 'int':
                self.put(f'<i type="int" name="{tag}">    97</i>')
            elif kind == 'float':
                self.put(f'<i name="{tag}">     -97.50000000</i>')
        self.close('incar')

    def kpoints(self):
        case = self.case
        self.exp['kpointdiv'] = None
        self.open('kpoints')
        if case['grid'] in ('Gamma', 'Monkhorst-Pack'):
            div = np.array([self.fill.integer(1, 30) for _ in range(3)], dtype=float)
            self.exp['kpointdiv'] = div
            self.open('generation', param=case['grid'])
            self.row('v', [int(d) for d in div], 'int', div, (), ' type="int" name="divisions"')
            for name in ('usershift', 'genvec1', 'genvec2', 'genvec3', 'shift'):
                self.row('v', self.array((3,)), attrs=f' name="{name}"')
            self.close('generation')
        elif case['grid'] == 'listgenerated':
            self.open('generation', param='listgenerated')
            self.put('<i name="divisions" type="int">      10 </i>')
            self.row('v', self.array((3,)))
            self.row('v', self.array((3,)))
            self.close('generation')
        self.exp['kpoints'] = self.array((case['nk'], 3), bound=1)
        self.varray('kpointlist', self.exp['kpoints'])
        self.exp['kpointsw'] = self.weights('weights', case['nk'])
        self.close('kpoints')

    def weights(self, name, number):
        weights = np.array([self.fill.magnitude(8, 1) for _ in range(number)])
        self.open('varray', name=name)
        for i in range(number):
            self.put(f'<v>{self.num(weights[i], "wide", (weights, (i,)))} </v>')
        self.close('varray')
        return weights

    def parameters(self):
        """Nested separators with the requested entries, in the order in which VASP has them."""
        case, want = self.case, self.case['parameters']
        values = self.exp['parameters'] = {name: None for name in PARAMETERS}
        fill = self.fill
        make = {
            'symprec': lambda: fill.magnitude(8, 1), 'ismear': lambda: fill.integer(-5, 4), 'sigma': lambda: fill.magnitude(8, 3),
            'ispin': lambda: 2 if case['spin'] == 2 else 1, 'nbands': lambda: case['nb'], 'nelect': lambda: fill.magnitude(8, 900),
            'nelm': lambda: fill.integer(1, 400), 'nsw': lambda: fill.integer(0, 900) if fill.integer(0, 3) else fill.integer(0, 2)
        }

        def entry(name):
            if name not in want:
                return
            _, tag, kind = PARAMETERS[name]
            if kind == 'string':
                values[name] = case['system'] or None
                self.put(f'<i type="string" name="{tag}">{escape(case["system"])}</i>')
                return
            values[name] = make[name]()
            style = 'int' if kind == 'int' else 'wide'
            kind_text = ' type="int"' if kind == 'int' else ''
            text = self.num(values[name], style, (values, name))
            self.put(f'<i{kind_text} name="{tag}">{text}</i>')

        def separator(name, entries=(), children=(), noise=()):
            self.open('separator', name=name)
            for item in shuffled(self.order, list(entries)):
                entry(item)
            for line in noise:
                self.put(line)
            for child in children:
                separator(*child)
            self.close('separator')

        self.open('parameters')
        blocks = [
            ('general', ['system'], (), ['<i type="logical" name="LCOMPAT"> F  </i>']),
            ('electronic', ['nbands', 'nelect'], [
                ('electronic smearing', ['ismear', 'sigma'], (), ['<i type="logical" name="KGAMMA"> T  </i>']),
                ('electronic spin', ['ispin'], (), ['<i type="logical" name="LNONCOLLINEAR"> F  </i>']),
                ('electronic convergence', ['nelm'], [('electronic convergence detail', [], (), ['<i type="logical" name="LDIAG"> T  </i>'])],
                 ['<i type="int" name="NELMDL">    -5</i>', '<i type="int" name="NELMIN">     2</i>']),
            ], ['<i name="ENMAX">    350.00000000</i>']),
            ('ionic', ['nsw'], (), ['<i type="int" name="IBRION">     1</i>']),
            ('symmetry', ['symprec'], (), ['<i type="int" name="ISYM">     2</i>']),
            ('dos', [], (), ['<i name="EFERMI">      0.00000000</i>']),
            ('linear response parameters', [], (), ['<i type="int" name="KINTER">******</i>']),
        ]
        if 'response_nelm' in self.sections:
            blocks.append(('response functions', [], (), ['<i type="int" name="NELM">   777</i>', '<i type="int" name="NELMHF">     1</i>']))
        for block in shuffled(self.order, blocks):
            separator(*block)
        self.close('parameters')

    def atominfo(self):
        self.exp['species'] = list(self.species)
        types = self.case['types']
        self.open('atominfo')
        self.put(f'<atoms>{self.atoms:8d} </atoms>')
        self.put(f'<types>{len(types):8d} </types>')
        blocks = ['atoms'] + (['atomtypes'] if 'atomtypes' in self.sections else [])
        for name in shuffled(self.order, blocks):
            self.open('array', name=name)
            if name == 'atoms':
                self.put('<dimension dim="1">ion</dimension>')
                self.put('<field type="string">element</field>')
                self.put('<field type="int">atomtype</field>')
                self.open('set')
                for index, (number, count) in enumerate(types):
                    for _ in range(count):
                        self.put(f'<rc><c>{ELEMENTS[number]:2s}</c><c>{index + 1:4d}</c></rc>')
            else:
                self.put('<dimension dim="1">type</dimension>')
                self.open('set')
                for number, count in types:
                    self.put(f'<rc><c>{count:4d}</c><c>{ELEMENTS[number]:2s}</c><c>{28.085:16.8f}</c><c>{4.0:16.8f}</c><c> PAW_PBE {ELEMENTS[number]} 05Jan2001</c></rc>')
            self.close('set')
            self.close('array')
        self.close('atominfo')

    def primitive(self):
        self.structure('primitive_cell', self.array((3, 3)), self.array((1, 3)), False)
        self.varray('primitive_index', self.array((1, 1)), track=False)

    def structure(self, name, cell, positions, track=True):
        self.open('structure', **({'name': name} if name else {}))
        self.open('crystal')
        self.varray('basis', cell, track=track)
        self.scalar('volume', 163.22171868)
        self.varray('rec_basis', self.array((3, 3)), track=False)
        self.close('crystal')
        self.varray('positions', positions, track=track)
        if 'motion' in self.sections:
            # what VASP adds for selective dynamics and for molecular dynamics
            self.open('varray', name='selective', type='logical')
            for _ in range(self.atoms):
                self.put('<v type="logical"> T  F  T </v>')
            self.close('varray')
            self.varray('velocities', self.array((self.atoms, 3)), track=False)
            self.open('nose')
            self.row('v', self.array((4,)), attrs=' name="nose"')
            self.close('nose')
        self.close('structure')

    def lost(self, step, part, name):
        """Is this energy not printed?"""
        lost = self.case.get('lost')
        return lost is not None and [min(lost[0], len(self.case['steps']) - 1), *lost[1:]] == [step, part, name]

    def printed(self, name, step):
        """Are the forces (the stress) of this step in the file?"""
        return not 0 < step < len(self.case['steps']) - 1 or [name, step] not in self.case.get('unprinted', [])

    def learned(self, step):
        """Is this the step of a machine-learned force field, which has no electronic steps?"""
        return any(self.lost(step, 'cycles', name) for name in ENERGIES)

    def scstep(self, energies=None, step=None):
        first = energies is not None and not any(energies[name] for name in ENERGIES)
        self.open('scstep')
        if 'time' in self.sections:
            self.put('<time name="dav">    0.80    0.91</time>')
            self.put('<time name="total">    0.80    0.92</time>')
        self.open('energy')
        if 'rpa' in self.sections:
            self.scalar('ewald', self.fill.fixed(8))
        # VASP prints the free energy first
        for name in ('energy_free', 'energy_no_entropy', 'energy_extrapolated'):
            if self.lost(step, 'cycle', name) or first and self.lost(step, 'first', name):
                continue
            value = self.fill.fixed(8, 900)
            holder = None
            if energies is not None:
                energies[name].append(value)
                holder = (energies[name], len(energies[name]) - 1)
            text = self.num(value, 'wide', holder)
            pad = ' ' * self.case['pad']
            self.put(f'<i name="{ENERGIES[name]}">{pad}{text} {pad}</i>')
        self.close('energy')
        self.close('scstep')

    def calculation(self, step):
        last = step == len(self.case['steps']) - 1
        energies = {name: [] for name in ENERGIES}
        self.open('calculation')
        if 'energies' in self.sections:
            for _ in range(0 if self.learned(step) else self.case['steps'][step]):
                self.scstep(energies, step)
        self.structure(None, self.exp['cells'][step], self.exp['positions'][step])
        if 'forces' in self.sections and self.printed('forces', step):
            self.varray('forces', self.exp['forces'][step])
        if 'stress' in self.sections and self.printed('stress', step):
            self.varray('stress', self.exp['stress'][step])
        if 'energies' in self.sections:
            self.open('energy')
            for name in ('energy_free', 'energy_no_entropy', 'energy_extrapolated'):
                if not self.lost(step, 'final', name):
                    self.scalar(ENERGIES[name], self.fill.fixed(8, 900), 'wide', energies, name + '_final')
            self.close('energy')
            self.exp['energies'].append(energies)
        if 'calc_kpoints' in self.sections:
            self.open('kpoints')
            self.open('generation', param='Gamma')
            self.row('v', [3, 4, 5], 'int', attrs=' type="int" name="divisions"')
            self.close('generation')
            self.varray('kpointlist', self.array((2, 3)), track=False)
            self.weights('weights', 2)
            self.close('kpoints')
        if last:
            self.final(energies)
        if 'time' in self.sections:
            self.put('<time name="totalsc">   24.71   25.04</time>')
        self.close('calculation')

    def final(self, energies):
        """The sections of the last step."""
        todo = [name for name in ('eigenvalues', 'specific', 'velocities', 'dos', 'dos_specific', 'dielectric', 'dielectric_pair', 'epsilon', 'epsilon_ion', 'born', 'dynmat', 'separator', 'conductivity', 'rpa', 'lf', 'kpoints_opt') if name in self.sections]
        if 'dielectric' in todo and 'dielectric_pair' in todo:
            todo.remove('dielectric')
        if 'lf' in todo and ('energies' not in self.sections or self.learned(len(self.case['steps']) - 1)):
            todo.remove('lf')
        for name in shuffled(self.order, todo):
            if name == 'eigenvalues':
                self.exp['bands'] = self.bands((self.case['nk'], self.case['nb']), self.case['cols'])
                self.open('eigenvalues')
                self.band_array(self.exp['bands'], ['eigene', 'occ', 'x'])
                self.close('eigenvalues')
            elif name in ('specific', 'velocities'):
                tag = 'eigenvalues' if name == 'specific' else 'eigenvelocities'
                self.open(tag, comment='interpolated')
                self.open('kpoints')
                self.exp['kpoints_specific'] = self.array((self.case['nks'], 3), bound=1)
                self.varray('kpointlist', self.exp['kpoints_specific'])
                self.exp['kpointsw_specific'] = self.weights('weights', self.case['nks'])
                self.close('kpoints')
                cols = 4 if name == 'velocities' else 1 if self.case['cols'] == 1 else 2
                self.exp[name] = self.bands((self.case['nks'], self.case['nb']), cols)
                self.open('eigenvalues')
                self.band_array(self.exp[name], ['eigene'])
                self.close('eigenvalues')
                self.close(tag)
            elif name in ('dos', 'dos_specific'):
                self.dos(name)
            elif name == 'dielectric':
                self.exp['dielectrics'] = self.dielectric({})
            elif name == 'dielectric_pair':
                # VASP prints the density-density part first
                if self.case.get('pair', self.case['seed'] % 4) == 3:
                    self.dielectric({'comment': 'current-current'}, False)
                self.exp['dielectrics'] = self.dielectric({'comment': 'density-density'})
                if self.case.get('pair', self.case['seed'] % 4) != 3:
                    self.dielectric({'comment': 'current-current'}, False)
            elif name in ('epsilon', 'epsilon_ion'):
                self.exp[name] = self.array((3, 3))
                self.varray(name, self.exp[name])
            elif name == 'born':
                self.exp['born'] = self.array((self.atoms, 3, 3))
                self.open('array', name='born_charges')
                self.put('<dimension dim="1">ion</dimension>')
                for i in range(self.atoms):
                    self.open('set')
                    for j in range(3):
                        self.row('v', self.exp['born'][i, j], 'wide', self.exp['born'], (i, j))
                    self.close('set')
                self.close('array')
            elif name == 'dynmat':
                size = 3 * self.atoms
                self.exp['hessian'] = self.array((size, size))
                self.exp['dynmat'] = {'eigenvalues': self.array((size,), 6), 'eigenvectors': self.array((size, size), 6)}
                self.open('dynmat')
                self.varray('hessian', self.exp['hessian'])
                self.row('v', self.exp['dynmat']['eigenvalues'], 'sci', self.exp['dynmat']['eigenvalues'], (), ' name="eigenvalues"')
                self.varray('eigenvectors', self.exp['dynmat']['eigenvectors'], 'sci')
                self.close('dynmat')
            elif name == 'separator':
                self.open('separator', name='orbital magnetization')
                self.row('v', [0.5, 0.25, 0.125], attrs=' name="MAGDIPOLOUT"')
                self.close('separator')
            elif name == 'conductivity':
                self.open('conductivity')
                self.spectrum('imag', self.array((self.case['ng'], 7), 4), False)
                self.close('conductivity')
            elif name == 'rpa':
                self.varray('epsilon_scf', self.array((3, 3)), track=False)
                self.varray('epsilon_rpa', self.array((3, 3)), track=False)
                self.varray('epsilon_diag_mic', self.array((2, 2)), track=False)
            elif name == 'lf':
                self.scstep(energies, len(self.case['steps']) - 1)
                self.scstep(energies, len(self.case['steps']) - 1)
            elif name == 'kpoints_opt':
                self.kpoints_opt()
        if 'projected' in self.sections:  # VASP prints it behind the rest, with the eigenvalues once more
            self.projected()

    def kpoints_opt(self):
        """Another set of k-points (KPOINTS_OPT): nothing of it belongs to what is reported."""
        case = self.case
        shape = (1 + case['nk'] % 3, case['nb'])
        self.open('eigenvalues_kpoints_opt', comment='kpoints_opt')
        self.open('kpoints')
        self.varray('kpointlist', self.array((shape[0], 3), bound=1), track=False)
        self.weights('weights', shape[0])
        self.close('kpoints')
        bands = self.bands(shape, 2)
        self.open('eigenvalues')
        self.band_array(bands, ['eigene', 'occ'], False)
        self.close('eigenvalues')
        self.close('eigenvalues_kpoints_opt')
        if case['seed'] % 2:
            keep, starred = self.exp.get('dos'), self.starred
            self.dos('dos', 'kpoints_opt')
            self.exp.pop('dos')
            if keep is not None:
                self.exp['dos'] = keep
            if starred is None and self.starred:
                self.starred = False
        if case['seed'] % 3:
            self.open('projected_kpoints_opt', comment='kpoints_opt')
            self.open('eigenvalues')
            self.band_array(bands, ['eigene', 'occ'], False)
            self.close('eigenvalues')
            self.open('array')
            self.open('set')
            for s in range(case['spin']):
                self.open('set', comment=f'spin{s + 1}')
                for k in range(shape[0]):
                    self.open('set', comment=f'kpoint {k + 1}')
                    for b in range(shape[1]):
                        self.open('set', comment=f'band {b + 1}')
                        self.table('r', self.array((self.atoms, case['norb']), 4, 1), 'short', False)
                        self.close('set')
                    self.close('set')
                self.close('set')
            self.close('set')
            self.close('array')
            self.close('projected_kpoints_opt')

    def bands(self, shape, cols):
        """[spin][k][band][column]"""
        spins = 2 if self.case['spin'] == 2 else 1
        return self.array((spins,) + shape + (cols,), 4)

    def band_array(self, bands, fields, track=True):
        self.open('array')
        for i, name in enumerate(['band', 'kpoint', 'spin']):
            self.put(f'<dimension dim="{i + 1}">{name}</dimension>')
        for name in fields[:bands.shape[3]]:
            self.put(f'<field>{name}</field>')
        self.open('set')
        for s in range(bands.shape[0]):
            self.open('set', comment=f'spin {s + 1}')
            for k in range(bands.shape[1]):
                self.open('set', comment=f'kpoint {k + 1}')
                for b in range(bands.shape[2]):
                    self.row('r', bands[s, k, b], 'short', bands if track else None, (s, k, b))
                self.close('set')
            self.close('set')
        self.close('set')
        self.close('array')

    def projected(self):
        spins, case = self.case['spin'], self.case
        self.open('projected')
        self.open('eigenvalues')
        if 'bands' in self.exp:
            # the same numbers as before, but an overflow here hits nothing that is reported
            self.band_array(np.nan_to_num(self.exp['bands']), ['eigene', 'occ'], False)
        else:
            bands = self.bands((case['nk'], case['nb']), 2)
            self.band_array(bands, ['eigene', 'occ'], False)
        self.close('eigenvalues')
        data = self.exp['projectors'] = self.array((spins, case['nk'], case['nb'], self.atoms, case['norb']), 4, 1)
        self.open('array')
        for i, name in enumerate(['ion', 'band', 'kpoint', 'spin']):
            self.put(f'<dimension dim="{i + 1}">{name}</dimension>')
        for name in ORBITALS[:case['norb']]:
            self.put(f'<field>{name:>3s}</field>')
        self.open('set')
        for s in range(spins):
            self.open('set', comment=f'spin{s + 1}')
            for k in range(case['nk']):
                self.open('set', comment=f'kpoint {k + 1}')
                for b in range(case['nb']):
                    self.open('set', comment=f'band {b + 1}')
                    for a in range(self.atoms):
                        self.row('r', data[s, k, b, a], 'short', data, (s, k, b, a))
                    self.close('set')
                self.close('set')
            self.close('set')
        self.close('set')
        self.close('array')
        self.close('projected')

    def dos(self, name, comment=None):
        case = self.case
        spins = 2 if case['spin'] == 2 else 1
        ng = case['ng'] + (1 if name == 'dos_specific' else 0)
        dos = self.exp[name] = {}
        comment = comment or ('interpolated' if name == 'dos_specific' else None)
        self.open('dos', **({'comment': comment} if comment else {}))
        self.scalar('efermi', self.fill.fixed(8), 'wide', dos, 'fermi_level')
        energy = np.sort(self.array((ng,), 4))
        dos['energy'] = energy
        dos['total'] = self.array((spins, ng, 2), 4)
        self.open('total')
        self.open('array')
        for i, text in enumerate(['gridpoints', 'spin']):
            self.put(f'<dimension dim="{i + 1}">{text}</dimension>')
        for text in ('energy', 'total', 'integrated'):
            self.put(f'<field>{text}</field>')
        self.open('set')
        for s in range(spins):
            self.open('set', comment=f'spin {s + 1}')
            for e in range(ng):
                parts = [self.num(energy[e] if not np.isnan(energy[e]) else 1.0, 'short', (energy, (e,)) if s == 0 else None)]
                parts += [self.num(dos['total'][s, e, i], 'short', (dos['total'], (s, e, i))) for i in range(2)]
                self.put(f'<r> {" ".join(parts)} </r>')
            self.close('set')
        self.close('set')
        self.close('array')
        self.close('total')
        dos['partial'] = None
        if name + '_partial' in self.sections:
            shown = case['spin']
            partial = self.array((shown, self.atoms, ng, case['norb']), 4)
            self.open('partial')
            self.open('array')
            for i, text in enumerate(['gridpoints', 'spin', 'ion']):
                self.put(f'<dimension dim="{i + 1}">{text}</dimension>')
            for text in ['energy'] + ORBITALS[:case['norb']]:
                self.put(f'<field>{text:>3s}</field>')
            self.open('set')
            for a in range(self.atoms):
                self.open('set', comment=f'ion {a + 1}')
                for s in range(shown):
                    self.open('set', comment=f'spin {s + 1}')
                    for e in range(ng):
                        parts = [self.num(np.nan_to_num(energy[e]), 'short')]
                        parts += [self.num(v, 'short', (partial, (s, a, e, i))) for i, v in enumerate(partial[s, a, e])]
                        self.put(f'<r> {" ".join(parts)} </r>')
                    self.close('set')
                self.close('set')
            self.close('set')
            self.close('array')
            self.close('partial')
            dos['partial'] = partial
        self.close('dos')

    def spectrum(self, tag, data, track):
        self.open(tag)
        self.open('array')
        self.put('<dimension dim="1">gridpoints</dimension>')
        for text in ('energy', 'xx', 'yy', 'zz', 'xy', 'yz', 'zx'):
            self.put(f'<field>{text}</field>')
        self.open('set')
        self.table('r', data, 'short', track)
        self.close('set')
        self.close('array')
        self.close(tag)

    def dielectric(self, attrs, track=True):
        ng = self.case['ng']
        imag, real = self.array((ng, 7), 4), self.array((ng, 7), 4)
        real[:, 0] = imag[:, 0]
        self.open('dielectricfunction', **attrs)
        self.spectrum('imag', imag, track)
        keep = real.copy()
        self.spectrum('real', real, track)
        if self.starred and np.isnan(real[:, 0]).any():
            real = keep  # the energies of the real part are printed a second time
        self.close('dielectricfunction')
        return {'energy': imag[:, 0], 'imag': imag[:, 1:], 'real': real[:, 1:]}


# --- what the parser has to report -------------------------------------------------------------------------------------
def expected(doc, k_before_band=False, extract_all=True):  # pylint: disable=too-many-locals,too-many-branches
    """Flat description: name -> value. Names that are not there are absent."""
    exp, out = doc.exp, {}

    def put(name, value):
        if value is not None:
            out[name] = value

    put('version', exp['version'])
    for name, value in exp['parameters'].items():
        put(f'parameters/{name}', value)
    put('species', exp['species'])
    for name in ('kpoints', 'kpointsw', 'kpointdiv', 'kpoints_specific', 'kpointsw_specific'):
        put(name, exp.get(name))
    for name in ('unitcell', 'positions', 'forces', 'stress'):
        values = exp['cells' if name == 'unitcell' else name]
        if values is None:
            continue
        put(f'{name}/initial', values[0])
        put(f'{name}/last', values[-1])
        shown = values if extract_all else [values[0], values[-1]]
        for i, value in enumerate(shown):
            if not extract_all or doc.printed(name, i):
                put(f'{name}/all/{i + 1}', value)
    axes = (lambda a: a) if k_before_band else (lambda a: np.swapaxes(a, 0, 1))
    spin = ['up', 'down'] if doc.case['spin'] == 2 else ['total']
    for s, label in enumerate(spin):
        if 'bands' in exp:
            put(f'eigenvalues/{label}', axes(exp['bands'][s, :, :, 0]))
            if exp['bands'].shape[3] > 1:
                put(f'occupancies/{label}', axes(exp['bands'][s, :, :, 1]))
        if 'specific' in exp:
            put(f'eigenvalues_specific/{label}', axes(exp['specific'][s, :, :, 0]))
        if 'velocities' in exp:
            put(f'eigenvelocities/{label}', axes(exp['velocities'][s]))
        if 'projectors' in exp:
            put(f'projectors/{label}', np.array([axes(exp['projectors'][s, :, :, a]) for a in range(doc.atoms)]))
        for name in ('dos', 'dos_specific'):
            if name in exp:
                put(f'{name}/{label}/total', exp[name]['total'][s, :, 0])
                put(f'{name}/{label}/integrated', exp[name]['total'][s, :, 1])
                if exp[name]['partial'] is not None:
                    put(f'{name}/{label}/partial', exp[name]['partial'][s])
    for name, getter in (('dos', 'fermi_level'), ('dos_specific', 'fermi_level_specific')):
        if name in exp:
            put(f'{name}/total/energy', exp[name]['energy'])
            put(f'{name}/total/fermi_level', exp[name]['fermi_level'])
            put(getter, exp[name]['fermi_level'])
    for key, value in exp.get('dielectrics', {}).items():
        put(f'dielectrics/{key}', value)
    for name in ('epsilon', 'epsilon_ion'):
        put(f'dielectrics/{name}', exp.get(name))
        put(name, exp.get(name))
    put('born', exp.get('born'))
    put('hessian', exp.get('hessian'))
    for key, value in exp.get('dynmat', {}).items():
        put(f'dynmat/{key}', value)
    if exp['energies'] is not None:
        steps = exp['energies']
        for status, chosen in (('initial', steps[:1]), ('last', steps[-1:]), ('all', steps)):
            for nosc in (True, False):
                prefix = f'energies/{status}/{"final" if nosc else "cycle"}'
                put(f'{prefix}/electronic_steps', [1 if nosc else len(s['energy_free']) for s in chosen])
                for name in ENERGIES:
                    put(f'{prefix}/{name}_final', np.array([s[name + '_final'] for s in chosen], dtype=float))
                    put(f'{prefix}/{name}', np.array([v for s in chosen for v in (s[name][-1:] if nosc else s[name])], dtype=float))
    return out


def flatten(prefix, value, out):
    if isinstance(value, dict):
        for key, item in value.items():
            flatten(f'{prefix}/{key}', item, out)
    elif value is not None:
        out[prefix] = value


EVERYTHING = ['version', 'parameters', 'species', 'kpoints', 'steps', 'bands', 'dos', 'response', 'energies']


def observe(xml, groups=EVERYTHING, single=False):
    """The same description, from the parser. With `single`, the copy that stands for the last of one step is dropped."""
    out = {}

    def get(name, func, *args, **kwargs):
        flatten(name, call(f'{func.__name__}({", ".join(repr(a) for a in args)})', func, *args, **kwargs), out)

    if 'version' in groups:
        get('version', xml.get_version)
    if 'parameters' in groups:
        get('parameters', xml.get_parameters)
    if 'species' in groups:
        get('species', xml.get_species)
    if 'kpoints' in groups:
        get('kpoints', xml.get_kpoints)
        get('kpointsw', xml.get_kpointsw)
        get('kpoints_specific', xml.get_kpoints_specific)
        get('kpointsw_specific', xml.get_kpointsw_specific)
        content = call('get_dict()', xml.get_dict)
        flatten('kpointdiv', content['lattice']['kpointdiv'], out)
    if 'steps' in groups:
        for name in ('unitcell', 'positions', 'forces', 'stress'):
            getter = getattr(xml, f'get_{name}')
            for status in ('initial', 'last', 'all'):
                get(f'{name}/{status}', getter, status)
            one, two = out.get(f'{name}/all/1'), out.get(f'{name}/all/2')
            if single and one is not None and two is not None and np.array_equal(one, two):
                del out[f'{name}/all/2']
    if 'bands' in groups:
        for name in ('eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities', 'projectors'):
            get(name, getattr(xml, f'get_{name}'))
    if 'dos' in groups:
        for name in ('dos', 'dos_specific', 'fermi_level', 'fermi_level_specific'):
            get(name, getattr(xml, f'get_{name}'))
    if 'response' in groups:
        for name in ('dielectrics', 'epsilon', 'epsilon_ion', 'born', 'hessian', 'dynmat'):
            get(name, getattr(xml, f'get_{name}'))
    if 'energies' in groups:
        for status in ('initial', 'last', 'all'):
            for nosc in (True, False):
                prefix = f'energies/{status}/{"final" if nosc else "cycle"}'
                get(prefix, xml.get_energies, status, list(ENERGIES), nosc)
    return out


def in_groups(name, groups):
    head = name.split('/')[0]
    table = {
        'kpointsw': 'kpoints', 'kpointdiv': 'kpoints', 'kpoints_specific': 'kpoints', 'kpointsw_specific': 'kpoints', 'unitcell': 'steps', 'positions': 'steps',
        'forces': 'steps', 'stress': 'steps', 'eigenvalues': 'bands', 'occupancies': 'bands', 'eigenvalues_specific': 'bands', 'eigenvelocities': 'bands',
        'projectors': 'bands', 'dos_specific': 'dos', 'fermi_level': 'dos', 'fermi_level_specific': 'dos', 'dielectrics': 'response', 'epsilon': 'response',
        'epsilon_ion': 'response', 'born': 'response', 'hessian': 'response', 'dynmat': 'response'
    }
    return table.get(head, head) in groups


def same(name, actual, exp):
    """One entry."""
    if isinstance(exp, str):
        equal(actual, exp, name)
    elif name.startswith('parameters/') and isinstance(exp, int):
        equal(actual, exp, name)
    elif name == 'species' or name == 'kpointdiv' or name.endswith('electronic_steps'):
        close(actual, exp, name, 0, 0)
        require(np.asarray(actual).dtype.kind in 'iu', lambda: f'{name}: got numbers of type {np.asarray(actual).dtype}, expected integers')
    else:
        close(actual, exp, name, 1e-12, 1e-12)


def compare(observed, exp, groups=EVERYTHING):
    """Everything that is expected is there, and nothing else."""
    exp = {name: value for name, value in exp.items() if in_groups(name, groups)}
    missing = sorted(set(exp) - set(observed))
    require(not missing, lambda: f'missing: {", ".join(missing)}; reported: {", ".join(sorted(observed)) or "nothing"}')
    extra = sorted(set(observed) - set(exp))
    require(not extra, lambda: f'{", ".join(extra)}: not in the file; got {observed[extra[0]]!r}')
    for name in sorted(exp):
        same(name, observed[name], exp[name])


# --- sources --------------------------------------------------------------------------------------------------------------
class Chunked(io.BytesIO):
    """An open file that hands out a few bytes at a time, as pipes and compressed streams do."""

    def __init__(self, data, size):
        super().__init__(data)
        self.size = size

    def read(self, size=-1):
        return super().read(self.size if size is not None and size > self.size else size)


SOURCES = ['path', 'binary', 'bytes', 'text', 'string']


def load(text, source='path', unchecked=False, **kwargs):
    """The parser on a document. With `unchecked`, what it raises is left to the caller."""
    data = text if isinstance(text, bytes) else text.encode('iso-8859-1')
    if unchecked:
        invoke = lambda what, func, *args, **kwargs: func(*args, **kwargs)  # noqa: E731
    else:
        invoke = call
    if source == 'path':
        return invoke('Xml(path)', Xml, file_path=write_file('vasprun.xml', data), **kwargs)
    if source == 'binary':
        with open(write_file('vasprun.xml', data), 'rb') as handle:
            return invoke('Xml(open file)', Xml, file_handler=handle, **kwargs)
    if source == 'text':
        with open(write_file('vasprun.xml', data), encoding='iso-8859-1', newline='') as handle:
            return invoke('Xml(open text file)', Xml, file_handler=handle, **kwargs)
    if source == 'bytes':
        return invoke('Xml(BytesIO)', Xml, file_handler=io.BytesIO(data), **kwargs)
    if source == 'string':
        return invoke('Xml(StringIO)', Xml, file_handler=io.StringIO(data.decode('iso-8859-1'), newline=''), **kwargs)
    if isinstance(source, int):
        return invoke(f'Xml(file read by {source} bytes)', Xml, file_handler=Chunked(data, source), **kwargs)
    raise Violation(f'unknown source {source}')


@st.composite
def readers(draw):
    """How the file is read."""
    return {
        'source': draw(st.sampled_from(['path', 'path'] + SOURCES)),
        'event': draw(st.sampled_from([False, False, True])),
        'k_before_band': draw(st.booleans()),
        'extract_all': draw(st.sampled_from([True, True, False])),
    }


def check_groups(case, groups):
    """Read one document and compare some of what it reports."""
    doc, reader = Doc(case['run']), case['reader']
    asked = {name: reader[name] for name, default in (('event', False), ('k_before_band', False), ('extract_all', True)) if reader[name] != default}
    xml = load(doc.text, reader['source'], **asked)
    equal(xml.truncated, False, 'truncated')
    extract_all = reader['extract_all'] or reader['event']
    single = len(case['run']['steps']) == 1
    exp = expected(doc, reader['k_before_band'], extract_all)
    if single:
        exp = {name: value for name, value in exp.items() if not name.endswith('/all/2')}
    compare(observe(xml, groups, single), exp, groups)
    compare(observe(xml, groups, single), exp, groups)  # asking again changes nothing
    return doc, xml


def labels(case):
    run, reader = case['run'], case.get('reader', {})
    out = [f'spin {run["spin"]}', f'{len(run["steps"])} step(s)' if len(run['steps']) < 20 else 'many steps', *run['sections']]
    if reader:
        out += ['event' if reader['event'] else 'in memory', 'source ' + reader['source']]
    return out
