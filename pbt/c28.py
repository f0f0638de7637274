"""C28: vasprun.xml content that contradicts itself is refused."""
import re

import numpy as np
from hypothesis import strategies as st


from pbt.c24 import own_logger
from pbt.core import Sub, Violation, require, sut
from pbt.vasprun_common import SOURCES, Doc, cases, compare, expected, labels, large, load, observe

RULE = 'Documents of runs of all kinds are generated; one number, row, name or count in a section that is reported is made to contradict the rest.'
ASSUMPTIONS = ['one contradiction at a time', 'words and numbers too many or too few in a row have no documented exit code: any error will do']
NO_SPECIES, NO_ISPIN, NO_NBANDS, NO_KPOINTS, MISMATCH, UNKNOWN = 501, 502, 503, 504, 505, 506
ERROR = 'any error'
BANDS = {'bands': 'eigenvalues', 'specific': 'specific', 'velocities': 'velocities', 'projectors': 'projected'}
NO_ELEMENTS = ['Xx', 'J', 'Q', 'Hx', 'Sii', 'A', '1', '14', 'S1', 'Element', '-', 'Uux', 'nan']


class Traced(Doc):
    """Remembers in which line which of the expected numbers is."""

    def __init__(self, case):
        self.trace = []
        super().__init__(case)

    def num(self, value, style='wide', ref=None):
        if ref is not None:
            self.trace.append((len(self.lines), ref))
        return super().num(value, style, ref)

    def reported(self, ref):
        """Is this number part of what is reported?"""
        holder, key = ref
        keep = holder[key]
        holder[key] = np.nan
        seen = any(np.isnan(np.asarray(value, dtype=float)).any() for value in expected(self).values() if not isinstance(value, str))
        holder[key] = keep
        return seen

    def lines_of(self, name):
        """The lines of an expected array."""
        return [(line, key) for line, (holder, key) in self.trace if holder is self.exp[name]]


def value_of(line):
    found = re.match(r'(\s*<[^>]*>)(.*)(</\w+>\s*)$', line, re.S)
    return found.group(1), found.group(2), found.group(3)


def broken(line, how, number):
    """A row with a number too many, one that is missing or something that is none."""
    start, value, end = value_of(line)
    parts = value.split()
    at = number % len(parts)
    if how == 'fewer':
        del parts[at]
    elif how == 'more':
        parts.insert(number % (len(parts) + 1), '1.50000000')
    else:
        parts[at] = ['abc', '1.0x', '--', '1,5', '1.2.3', 'T', '0x1A'][number % 7]
    return start + ' ' + ' '.join(parts) + ' ' + end


def contradict(doc, case):  # pylint: disable=too-many-return-statements,too-many-branches
    """The document with its contradiction and the exit codes that are right for it, or None when there is no room for it."""
    fault, number = case['fault'], case['number']
    lines, sections = list(doc.lines), [name for name in BANDS if name in doc.exp]
    inside = next(i for i, line in enumerate(lines) if line.strip() == '<parameters>')
    if fault == 'none':
        return lines, None
    if fault in ('NBANDS', 'no NBANDS', 'no ISPIN'):
        if not sections:
            return None
        tag = fault.split()[-1]
        at = next(i for i in range(inside, len(lines)) if f'name="{tag}"' in lines[i])
        if fault != 'NBANDS':
            lines[at] = ''
            return lines, {NO_ISPIN if tag == 'ISPIN' else NO_NBANDS}
        start, _, end = value_of(lines[at])
        others = [n for n in (doc.case['nb'] - 1, doc.case['nb'] + 1, 2 * doc.case['nb'], 0, doc.case['nb'] + 1 + number % 50) if n != doc.case['nb']]
        lines[at] = f'{start}{others[number % len(others)]:6d}{end}'
        return lines, {MISMATCH}
    if fault in ('row', 'twice'):
        if not sections:
            return None
        name = sections[number % len(sections)]
        spots = [line for line, key in doc.lines_of(name) if name != 'projectors' or key[0] < (2 if doc.case['spin'] == 2 else 1)]
        at = spots[case['at'] % len(spots)]
        lines[at] = '' if fault == 'row' else lines[at] * 2
        # a spin channel without a row is one that is not there
        if fault == 'row' and len(set(spots)) <= 2:
            return None
        return lines, {MISMATCH}
    if fault in ('kpoint', 'kpoint twice'):
        name = 'kpoints' if number % 2 and {'bands', 'projectors'} & set(sections) else 'kpoints_specific'
        if name not in doc.exp or name == 'kpoints' and not {'bands', 'projectors'} & set(sections):
            return None
        spots = [line for line, _ in doc.lines_of(name)]
        at = spots[case['at'] % len(spots)]
        lines[at] = '' if fault == 'kpoint' else lines[at] * 2
        return lines, {MISMATCH, NO_KPOINTS} if fault == 'kpoint' and len(set(spots)) == 1 else {MISMATCH}
    if fault in ('element', 'atom', 'atom twice'):
        spots = [i for i, line in enumerate(lines) if re.match(r'\s*<rc><c>[A-Z][a-z]? ?</c><c>', line)]
        if fault == 'element':
            at = spots[case['at'] % len(spots)]
            lines[at] = re.sub(r'<c>[A-Z][a-z]? ?</c>', f'<c>{NO_ELEMENTS[number % len(NO_ELEMENTS)]:2s}</c>', lines[at])
            return lines, {UNKNOWN}
        if 'projectors' not in sections or {'born', 'hessian'} & set(doc.exp) or any((doc.exp.get(name) or {}).get('partial') is not None for name in ('dos', 'dos_specific')):
            return None
        at = spots[case['at'] % len(spots)]
        lines[at] = '' if fault == 'atom' else lines[at] * 2
        return lines, {NO_SPECIES, MISMATCH} if fault == 'atom' and len(spots) == 1 else {MISMATCH}
    # what is in a row
    start = case['at'] % len(doc.trace)
    for i in range(min(len(doc.trace), 40)):
        line, ref = doc.trace[(start + 7 * i) % len(doc.trace)]
        tag = re.match(r'\s*<(\w+)(?: name="(\w+)")?', lines[line])
        how = fault
        # a table of one row has the width of this row
        alone = len({other for other, (holder, _) in doc.trace if holder is ref[0]}) <= 2
        if tag.group(1) == 'i' and how == 'fewer' or 'divisions' in lines[line] or tag.group(2) == 'eigenvalues' or tag.group(1) == 'r' and alone:
            how = 'word'
        if doc.reported(ref):
            lines[line] = broken(lines[line], how, number)
            return lines, ERROR
    return None


def check(case):
    doc = Traced(case['run'])
    found = contradict(doc, case)
    if found is None:
        return
    lines, codes = found
    text = ''.join(lines)
    logger, records = own_logger()
    out = sut(load, text, case['source'], unchecked=True, event=case['event'], k_before_band=case['k_before_band'], logger=logger)
    what = f'{case["fault"]} in a document read {"by events" if case["event"] else "in memory"}'
    if codes is None:
        require(out.ok, lambda: f'{what}: {out!r}')
        single = len(case['run']['steps']) == 1
        exp = {name: value for name, value in expected(doc, case['k_before_band']).items() if not (single and name.endswith('/all/2'))}
        compare(observe(out.value, single=single), exp)
        return
    if out.ok:
        changed = [] if codes != ERROR else differences(doc, out.value, case)
        raise Violation(f'{what}: expected {codes}, it was accepted {changed}; the document has {[line for line in lines if line not in doc.lines][:2]}')
    if codes != ERROR:
        require(out.exit is not None and any(out.exit == code for code in codes), lambda: f'{what}: expected exit {sorted(codes)}, got {out!r}')
        require(records, f'{what}: nothing was said to the logger that was given')


def differences(doc, xml, case):
    try:
        compare(observe(xml), expected(doc, case['k_before_band']))
    except Violation as exc:
        return str(exc)[:200]
    return 'and made no difference'


FAULTS = ['none', 'NBANDS', 'no NBANDS', 'no ISPIN', 'row', 'twice', 'kpoint', 'kpoint twice', 'element', 'atom', 'atom twice', 'fewer', 'more', 'word', 'word', 'more', 'fewer']


def strategy(runs):
    return st.fixed_dictionaries({
        'run': runs.map(lambda run: {**run, 'lost': None}),
        'fault': st.sampled_from(FAULTS),
        'number': st.integers(0, 10**4),
        'at': st.integers(0, 10**6),
        'source': st.one_of(st.sampled_from(SOURCES), st.integers(1, 3000)),
        'event': st.booleans(),
        'k_before_band': st.booleans(),
    })


RUNS = cases(parameters={'ispin', 'nbands'}, never=['lf'], always=['eigenvalues', 'projected', 'forces', 'dos'])
LARGE = large(RUNS, ('steps', 'atoms', 'nk', 'nb', 'ng'))


def possible(case):
    return case['fault'] != 'none' and contradict(Traced(case['run']), case) is not None


SUBS = [
    Sub('any', strategy(RUNS), check, quick=3000, labels=lambda c: [c['fault'], 'event' if c['event'] else 'in memory'] + labels(c), nontrivial=possible, rule='the document has a contradiction', shards=8),
    Sub('large', strategy(LARGE), check, quick=200, labels=lambda c: [c['fault']], nontrivial=possible, rule='the document has a contradiction', shards=8),
]
