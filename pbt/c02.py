"""C02: INCAR round trip."""
import io
import os

from hypothesis import strategies as st

from parsevasp.incar import Incar
from pbt import gen, incar_common as ic
from pbt.core import Sub, call, equal, require, scratch, write_file

RULE = 'INCAR contents are generated as texts (grammar) and typed dictionaries; each is written, read by an independent line reader and by the parser, and written again.'
ASSUMPTIONS = ['a list has at least two elements, because INCAR text cannot tell a scalar from a list of one', 'SYSTEM, MAGMOM and M_CONSTR hold text']


def read_lines(text):
    """Independent reader of written INCAR text: [(tag, value text)]."""
    require(text == '' or text.endswith('\n'), f'the written text does not end with a newline: {text!r}')
    out = []
    for ln in text.splitlines():
        require('=' in ln, f'written line without "=": {ln!r}')
        tag, value = ln.split('=', 1)
        out.append((tag.strip(), value.strip()))
    return out


def independent_value(text):
    toks = text.split()
    out = []
    for t in toks:
        if t in ic.TRUE or t in ic.FALSE:
            out.append(t in ic.TRUE)
            continue
        try:
            out.append(int(t))
            continue
        except ValueError:
            pass
        try:
            out.append(float(t))
        except ValueError:
            out.append(t)
    return out[0] if len(out) == 1 else out


def build(case):
    if case['from'] == 'text':
        text = ic.render(case['lines'])
        obj = call(f'reading {text!r}', Incar, incar_string=text)
        exp = ic.expected(case['lines'])
    else:
        given = {k: v for k, v in case['dict']}
        obj = call(f'reading dictionary {given!r}', Incar, incar_dict=given)
        exp = {k.lower(): (ic.held(v), None) for k, v in case['dict']}
        equal(obj.get_dict(), {t: v for t, (v, _) in exp.items()}, f'get_dict of {given!r}')
    return obj, exp


def check(case):
    obj, exp = build(case)
    values = {t: v for t, (v, _) in exp.items()}
    comments = {t: c for t, (_, c) in exp.items()}
    text = call('get_string', obj.get_string)
    lines = read_lines(text)
    equal([t for t, _ in lines], [t.upper() for t in sorted(exp)], f'tags written in {text!r}')
    for tag, value in lines:
        want = values[tag.lower()]
        if tag.lower() in ic.VERBATIM:
            equal(value, want, f'value text of {tag} in {text!r}')
        else:
            equal(independent_value(value), want, f'value of {tag} in {text!r}')
    # every sink gets the same text; an existing longer file is replaced
    path = write_file('INCAR.out', 'OLD = 1\n' * 50)
    call('write to a path', obj.write, file_path=path)
    with open(path, encoding='utf8') as handle:
        equal(handle.read(), text, 'text written to a path')
    buffer = io.StringIO()
    call('write to an open file', obj.write, file_handler=buffer)
    equal(buffer.getvalue(), text, 'text written to an open file')
    with open(path, 'w', encoding='utf8') as handle:
        call('write to an open file', obj.write, file_handler=handle)
        require(not handle.closed, 'write closed the file of the caller')
    # read back
    for again in (call(f'reading back {text!r}', Incar, incar_string=text), call(f'reading back {text!r} from a file', Incar, file_path=path)):
        equal(again.get_dict(), values, f'values read back from {text!r}')
        equal(again.get_string(), text, 'second text')
    # with comments
    commented = os.path.join(scratch(), 'INCAR.comments')
    call('write with comments', obj.write, file_path=commented, comments=True)
    again = call('reading back with comments', Incar, file_path=commented)
    with open(commented, encoding='utf8') as handle:
        shown = handle.read()
    equal(again.get_dict(), values, f'values read back from {shown!r}')
    for tag in exp:
        equal(again.get(tag, comment=True)[1], comments[tag], f'comment of {tag} read back from {shown!r}')
    buffer = io.StringIO()
    again.write(file_handler=buffer, comments=True)
    equal(buffer.getvalue(), shown, 'second text with comments')
    equal(obj.get_dict(), values, 'writing changed the object')
    # a dictionary taken out and put in again is the same INCAR
    clone = call('building from get_dict', Incar, incar_dict=obj.get_dict())
    equal(clone.get_string(), text, 'text of the INCAR rebuilt from its dictionary')


FLOATS = st.one_of(st.floats(allow_nan=False, allow_infinity=False, width=64), gen.fixed(6, 100), st.sampled_from([1e-5, 1e16, 1e22, 0.1, 1.0, -0.0, 1e-300]))
INTS = st.one_of(st.integers(-10**12, 10**12), st.integers(-5, 5))
DSTR = ic.STRING.filter(lambda s: '#' not in s and ';' not in s and '=' not in s)


def _lists(elem):
    return st.lists(elem, min_size=2, max_size=6)


DICT_VALUE = st.one_of(INTS, FLOATS, st.booleans(), DSTR, _lists(INTS), _lists(FLOATS), _lists(DSTR), _lists(st.booleans()),
                       _lists(st.one_of(st.integers(-10**6, 10**6), gen.fixed(6, 100))))


@st.composite
def dictionary(draw):
    tags = draw(st.lists(st.sampled_from(ic.plain_tags()), unique=True, max_size=8))
    out = [[draw(st.sampled_from([t, t.upper(), t.capitalize()])), draw(DICT_VALUE)] for t in tags]
    for t in ic.VERBATIM:
        if draw(st.integers(0, 4)) == 0:
            out.insert(draw(st.integers(0, len(out))), [draw(st.sampled_from([t, t.upper()])), draw(ic.TEXT.filter(lambda s: not set(s) & set('#;=')))])
    return out


@st.composite
def case_strategy(draw):
    if draw(st.booleans()):
        return {'from': 'text', 'lines': draw(ic.incar())}
    return {'from': 'dict', 'dict': draw(dictionary())}


def labels(case):
    if case['from'] == 'text':
        return ['text']
    return ['dict'] + sorted({type(v).__name__ + (' of ' + ' and '.join(sorted({type(x).__name__ for x in v})) if isinstance(v, list) else '') for _, v in case['dict']})


LARGE = ic.long_incar().map(lambda lines: {'from': 'text', 'lines': lines})

SUBS = [
    Sub('large', LARGE, check, quick=120, labels=labels, rule='many lines or long values'),
    Sub('round_trip', case_strategy(), check, quick=2500, labels=labels, rule='at least two tags',
        nontrivial=lambda c: len(c['dict']) >= 2 if c['from'] == 'dict' else len(ic.expected(c['lines'])) >= 2, shards=8),
]
