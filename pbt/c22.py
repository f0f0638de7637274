"""C22: scanning the standard output."""
import re
from collections import Counter

from hypothesis import strategies as st

from parsevasp.stream import Stream
from pbt import gen
from pbt.core import Sub, call, equal, expect_refused, require
from pbt.source import load, sources

RULE = 'line sequences that mix messages of default and user configured conditions with unrelated lines are scanned; the entries are compared with a reference scan (per line, in file order) over the reference configuration.'
ASSUMPTIONS = ['overrides are complete entries', 'entries that stem from one line may come in any order']

# What VASP prints for the conditions parsevasp promises to recognise: name -> (kind, location, recoverable, pattern, sample)
DEFAULT = {
    'ibzkpt': ('ERROR', 'STDOUT', True, 'internal error in subroutine IBZKPT', ' VERY BAD NEWS! internal error in subroutine IBZKPT:'),
    'brmix': ('ERROR', 'STDOUT', False, 'BRMIX: very serious problems', ' BRMIX: very serious problems'),
    'cnormn': ('ERROR', 'STDOUT', False, 'WARNING: CNORMN', ' WARNING: CNORMN: search vector ill defined'),
    'denmp': ('ERROR', 'STDOUT', False, "WARNING: DENMP: can't reach specified precision", " WARNING: DENMP: can't reach specified precision"),
    'dentet': ('ERROR', 'STDOUT', False, 'WARNING: DENTET', " WARNING: DENTET: can't reach specified precision"),
    'edddav_zhegv': ('ERROR', 'STDOUT', False, 'Error EDDDAV: Call to ZHEGV failed', ' Error EDDDAV: Call to ZHEGV failed. Returncode = 7 2 8'),
    'eddrmm_zhegv': ('ERROR', 'STDOUT', False, 'WARNING in EDDRMM: call to ZHEGV failed', ' WARNING in EDDRMM: call to ZHEGV failed, returncode =   6  3  3'),
    'edwav': ('ERROR', 'STDOUT', False, 'EDWAV: internal error', ' EDWAV: internal error, the gradient is not orthogonal'),
    'fexcp': ('ERROR', 'STDOUT', False, 'ERROR FEXCP: supplied Exchange', ' ERROR FEXCP: supplied Exchange-correlation table'),
    'fock_acc': ('ERROR', 'STDERR', False, 'internal error in FOCK_ACC', ' internal error in FOCK_ACC: number of bands'),
    'invgrp': ('ERROR', 'STDOUT', False, 'internal error in subroutine INVGRP', ' VERY BAD NEWS! internal error in subroutine INVGRP:'),
    'kpoints_trans': ('ERROR', 'STDERR', False, 'internal error in GENERATE_KPOINTS_TRANS', ' internal error in GENERATE_KPOINTS_TRANS: number of G-vector changed in star'),
    'non_collinear': ('ERROR', 'STDOUT', False, 'ERROR: non collinear calculations require', ' ERROR: non collinear calculations require that VASP is compiled without -DNGXhalf'),
    'not_hermitian': ('ERROR', 'STDOUT', False, 'not Hermitian in DAV', ' WARNING: Sub-Space-Matrix is not Hermitian in DAV            2'),
    'psmaxn': ('ERROR', 'STDOUT', False, 'PSMAXN for non-local potential too small', ' WARNING: PSMAXN for non-local potential too small'),
    'pssyevx': ('ERROR', 'STDOUT', False, 'Error in subspace rotation PSSYEVX', ' Error in subspace rotation PSSYEVX: not enough eigenvalues found'),
    'pzstein': ('ERROR', 'STDOUT', False, 'PZSTEIN parameter number had an illegal value', ' PZSTEIN parameter number had an illegal value    5'),
    'real_optlay': ('ERROR', 'STDOUT', False, 'REAL_OPTLAY: internal error', ' REAL_OPTLAY: internal error (1)'),
    'rhosyg': ('ERROR', 'STDOUT', False, 'RHOSYG: internal error', ' RHOSYG: internal error: stars are not distinct'),
    'rspher': ('ERROR', 'STDOUT', False, 'Internal ERROR RSPHER', ' Internal ERROR RSPHER: running out of buffer'),
    'set_indpw_full': ('ERROR', 'STDOUT', False, 'internal error in SET_INDPW_FULL: insufficient', ' internal error in SET_INDPW_FULL: insufficient memory'),
    'sgrcon': ('ERROR', 'STDOUT', False, 'internal error in subroutine SGRCON', ' VERY BAD NEWS! internal error in subroutine SGRCON:'),
    'zbrent': ('ERROR', 'STDOUT', False, 'ZBRENT: fatal error in bracketing', ' ZBRENT: fatal error in bracketing'),
    'no_potim': ('ERROR', 'STDOUT', False, 'Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!', ' Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!'),
    'magmom': ('ERROR', 'STDOUT', False, "Error reading item 'MAGMOM' from file INCAR", " Error reading item 'MAGMOM' from file INCAR."),
    'bandocc': ('ERROR', 'STDOUT', False, 'TOO FEW BANDS', '|     TOO FEW BANDS                                  |'),
}
START = ' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Feb 07 2019'
NOISE = ['', ' running on    8 total cores', ' distrk:  each k-point on    8 cores,    1 groups', ' LDA part: xc-table for Pade appr. of Perdew', 'DAV:   1     0.253049893906E+02    0.25305E+02   -0.10434E+04  1344   0.143E+03', ' FFT: planning ...', ' entering main loop',
         '       N       E                     dE             d eps       ncg     rms          rms(c)', ' internal error in subroutine IBZ', ' BRMIX: serious problems', 'WARNING: dentet', ' Error reading item from file INCAR.', ' writing wavefunctions', ' too few bands',
         '|     W    W   AA    RRRRR   N    N  II  N    N   GGGG   !!!           |', ' ZBRENT: accuracy reached']
LEAD = ['x ', ' x ', 'x ', '   x ', '\t', '', 'X ']
WIDE = [' ' * 90, 'x' * 140, '-' * 260, ' rank 17:' * 60, '.' * 1100, '=' * 4200, ' ' * 9000]  # output of several processes in one line
WORDS = ['alpha', 'beta7', 'gamma.ray', 'delta [x]', 'internal error', 'a b', '5 Å µ']


def config_of(case):
    """The user's configuration and the reference one (name -> attributes; text holds literal or regular expression)."""
    reference = {name: dict(kind=k, location=l, recover=r, regex=p, inverse=False, message=None, suggestion=None, user=False) for name, (k, l, r, p, _) in DEFAULT.items()}
    reference['nostart'] = dict(kind='ERROR', location='STDOUT', recover=False, regex='vasp.', inverse=True, message=None, suggestion=None, user=False)
    user = {}
    for e in case['user']:
        entry = dict(kind=e['kind'], regex=re.compile(e['regex']) if e['compiled'] else e['regex'], message=e['message'])
        full = dict(kind=e['kind'], regex=e['regex'], message=e['message'], suggestion=None, location='STDOUT', recover=False, inverse=False, user=True)
        for key in ('suggestion', 'location', 'recover', 'inverse'):
            if e[key] is not None:
                entry[key] = full[key] = e[key]
        user[e['name']] = entry
        reference[e['name']] = full
    return user, reference


def lines_of(case):
    out = []
    for kind, which in case['lines']:
        names = sorted(DEFAULT)
        out.append(NOISE[which % len(NOISE)] if kind == 'noise' else START if kind == 'start' else DEFAULT[names[which % len(names)]][4] if kind == 'default'
                   else WIDE[which % len(WIDE)] + DEFAULT[names[which % len(names)]][4] if kind == 'wide' else LEAD[which % len(LEAD)] + WORDS[which % len(WORDS)] + ' y' + ' ' * (which % 3 // 2) if kind == 'word' else DEFAULT[names[which % len(names)]][4] + ' ' + WORDS[which % len(WORDS)] + ' ' + DEFAULT[names[(which * 7 + 3) % len(names)]][4])
    return out


def expected(reference, lines, history):
    """Names per line, then the names of the missing inverse conditions."""
    seen, found, inverse = set(), [], set()
    for line in lines:
        hits = [name for name, e in reference.items() if re.search(e['regex'], line)]
        inverse.update(name for name in hits if reference[name]['inverse'])
        normal = [name for name in hits if not reference[name]['inverse'] and (history or name not in seen)]
        seen.update(normal)
        found.append(normal)
    return found, [name for name, e in reference.items() if e['inverse'] and name not in inverse]


def compare(obj, reference, lines, history, what):
    found, missing = expected(reference, lines, history)
    entries = list(obj.entries)
    names = [e.shortname for e in entries]
    position = 0
    for number, hits in enumerate(found):
        got = names[position:position + len(hits)]
        require(Counter(got) == Counter(hits), lambda n=number, g=got, h=hits: f'{what}: line {n} must give {h}, got {g} (all entries: {names})')
        position += len(hits)
    require(Counter(names[position:]) == Counter(missing), lambda: f'{what}: after the lines expected the missing conditions {missing}, got {names[position:]}')
    equal(obj.number_of_entries, len(names), f'{what}: number_of_entries')
    equal(bool(obj.has_entries), bool(names), f'{what}: has_entries')
    for e in entries:
        want = reference[e.shortname]
        for key in ('kind', 'location', 'recover', 'inverse'):
            equal(getattr(e, key), want[key], f'{what}: {key} of {e.shortname}')
        equal(e.recoverable, want['recover'], f'{what}: recoverable of {e.shortname}')
        if want['user']:
            equal(e.regex.pattern, want['regex'], f'{what}: regex of {e.shortname}')
            equal(e.message, want['message'], f'{what}: message of {e.shortname}')
            equal(e.suggestion, want['suggestion'], f'{what}: suggestion of {e.shortname}')
            equal(str(e), f'({want["kind"]}) {e.shortname}: {want["message"]}', f'{what}: text of {e.shortname}')
        else:
            require(isinstance(e.message, str) and e.message, f'{what}: {e.shortname} has no message')


def check(case):
    user, reference = config_of(case)
    lines = lines_of(case)
    text = '\n'.join(lines) + '\n' * case['newlines']
    frozen = repr(user)
    config = user if user or case['empty'] else None
    what = f'{text!r} with {user}'
    obj = call(f'scanning {what}', load, Stream, text, case['source'], history=case['history'], config=config)
    compare(obj, reference, lines, case['history'], what)
    equal(set(obj.kinds), {e['kind'] for e in reference.values()}, f'{what}: kinds')
    configured = {}
    for name, e in reference.items():
        names = configured.setdefault(e['kind'].lower() + 's', set())
        if not e['inverse']:
            names.add(name)
    # the conditions reported when they are missing may be listed or not
    equal({kind: {e.shortname for e in entries if not e.inverse} for kind, entries in obj.configured_streams.items()}, configured, f'{what}: configured_streams')
    equal(repr(user), frozen, 'the configuration of the caller')
    # another stream in between must not matter
    plain_reference = config_of(dict(user=[]))[1]
    other = call('scanning with the default configuration', load, Stream, text, 'stringio')
    compare(other, plain_reference, lines, False, f'{text!r} with the default configuration')
    compare(obj, reference, lines, case['history'], f'{what}, after another scan')
    again = call(f'scanning {what} again', load, Stream, text, 'stringio', history=case['history'], config=config)
    equal([e.shortname for e in again.entries], [e.shortname for e in obj.entries], 'a second scan of the same text')


ENTRY = st.fixed_dictionaries(dict(
    name=st.one_of(st.sampled_from(['mine', 'other', 'third']), st.sampled_from(sorted(DEFAULT) + ['nostart'])), kind=st.sampled_from(['ERROR', 'ERROR', 'WARNING', 'WARNING', 'Error', 'warning']), compiled=st.integers(0, 4).map(lambda n: n == 0),
    regex=st.sampled_from(['alpha', 'beta[0-9]', r'gamma\.ray', 'gamma.ray', r'delta \[x\]', 'internal error', '^x a', 'y$', '^ +x', r'^\s+x alpha', 'y $', '^alpha', 'Å', '(?i)X A', 'IBZKPT', 'ZBRENT', 'vasp', ' x', 'alpha ', '  x alpha y', 'a  ?b ', r'WARNING(:| in)', 'never printed']), message=st.sampled_from(['first', 'second message', 'm']),
    suggestion=st.sampled_from([None, 'none', 'restart']), location=st.sampled_from([None, 'STDOUT', 'STDERR']), recover=st.sampled_from([None, True, False]), inverse=st.sampled_from([None, None, False, True])))
LINES = st.lists(st.tuples(st.sampled_from(['noise', 'noise', 'default', 'word', 'both', 'start', 'wide']), st.integers(0, 200)), max_size=14)
STRATEGY = st.fixed_dictionaries(dict(lines=LINES, user=st.lists(ENTRY, max_size=4, unique_by=lambda e: e['name']), history=st.booleans(), empty=st.booleans(), newlines=st.integers(0, 2), source=sources))


@st.composite
def large(draw):
    """A long output in which few lines say anything."""
    case = draw(STRATEGY)
    fill = gen.Filler(draw(gen.seeds))
    lines = [('noise', fill.integer(0, 200)) for _ in range(draw(gen.large_sizes))]
    for line in case['lines']:
        lines.insert(fill.integer(0, len(lines)), line)
    return dict(case, lines=lines)


def check_wrong(case):
    entry = dict(kind='ERROR', regex='alpha', message='m', suggestion='s', location='STDOUT', recover=True, inverse=False)
    entry[case['key']] = case['value']
    name = 'mine'
    if case['key'] == 'name':
        name = entry.pop('name')
    expect_refused(f'configuration {name!r}: {entry}', load, Stream, ' vasp.5\n x alpha y\n', case['source'], config={name: entry})


WRONG = st.one_of(
    st.tuples(st.sampled_from(['message', 'suggestion', 'kind', 'location', 'recover']), st.sampled_from([1, 2.5, ['a']])), st.tuples(st.sampled_from(['location']), st.sampled_from(['stdfile', '', 'STDIN'])), st.tuples(st.sampled_from(['recover']), st.sampled_from(['yes', None])), st.tuples(st.just('kind'), st.sampled_from(['NOTE', '', 'ERRORS', 'error '])), st.tuples(st.just('inverse'), st.sampled_from(['yes', 1, 'no'])), st.tuples(st.just('name'), st.sampled_from([5, None, 1.5]))
).flatmap(lambda kv: st.fixed_dictionaries(dict(key=st.just(kv[0]), value=st.just(kv[1]), source=sources)))

SUBS = [
    Sub('scan', STRATEGY, check, quick=2500, labels=lambda c: ['history' if c['history'] else 'no history', 'overrides' if c['user'] else 'default configuration', 'not started' if not any(k == 'start' for k, _ in c['lines']) else 'started'],
        nontrivial=lambda c: any(k != 'noise' for k, _ in c['lines']) or bool(c['user']), rule='a message or an override is present', shards=8),
    Sub('large', large(), check, quick=120, labels=lambda c: ['history' if c['history'] else 'no history'], nontrivial=lambda c: any(k != 'noise' for k, _ in c['lines']), rule='a message in a long output', shards=8),
    Sub('wrong', WRONG, check_wrong, quick=150, labels=lambda c: [c['key']], rule='one attribute of the entry is unusable', shards=1),
]
