"""C01: INCAR reading."""
import io

from hypothesis import strategies as st

from parsevasp.incar import Incar
from pbt import gen, incar_common as ic
from pbt.core import Sub, call, equal, expect_exit, require, sut, write_file

RULE = 'INCAR texts are built line by line from a grammar (items, `;`, comments, blanks, letter case, value kinds); the oracle is the generating model.'
ASSUMPTIONS = ['`#` is the only comment sign the parser documents', 'Python int() and float() define the value of a numeral']

SOURCES = ['string', 'path', 'handler', 'stringio']


def load(text, source, **kwargs):
    if source == 'string':
        return Incar(incar_string=text, **kwargs)
    if source == 'path':
        return Incar(file_path=write_file('INCAR', text), **kwargs)
    if source == 'handler':
        with open(write_file('INCAR', text), encoding='utf8') as handle:
            return Incar(file_handler=handle, **kwargs)
    return Incar(file_handler=io.StringIO(text), **kwargs)


def check_values(case):
    text = ic.render(case['lines'], case['newline'], case['final'])
    exp = ic.expected(case['lines'])
    obj = call(f'reading {text!r}', load, text, case['source'])
    equal(obj.get_dict(), {t: v for t, (v, _) in exp.items()}, f'get_dict of {text!r}')
    for tag, (value, comment) in exp.items():
        equal(obj.get(tag), value, f'get({tag}) of {text!r}')
        got = obj.get(tag, comment=True)
        equal(list(got), [value, comment], f'get({tag}, comment=True) of {text!r}')
    absent = [t for t in ('encut', 'system', 'ismear', case['probe']) if t not in exp]
    for tag in absent:
        require(obj.get(tag) is None, f'get({tag}) of {text!r} returned {obj.get(tag)!r}')


@st.composite
def values_case(draw, large=False):
    source = draw(st.sampled_from(SOURCES))
    newline = draw(st.sampled_from(['\n', '\n', '\r\n'])) if source != 'stringio' else '\n'
    return dict(lines=draw(ic.long_incar() if large else ic.incar()), source=source, newline=newline, final=draw(st.booleans()), probe=draw(st.sampled_from(ic.plain_tags())))


def labels(case):
    out = ['source ' + case['source']]
    tags = [it['tag'] for ln in case['lines'] if ln['kind'] == 'items' for it in ln['items']]
    if len(tags) != len(set(tags)):
        out.append('repeated tag')
    for ln in case['lines']:
        if ln['kind'] == 'items':
            if len(ln['items']) > 1:
                out.append('several items on a line')
            if ln['comment'] is not None:
                out.append('comment')
            for it in ln['items']:
                out.append('value ' + it['value']['kind'] + (' list' if len(it['value']['tokens']) > 1 else ''))
        else:
            out.append(ln['kind'] + ' line')
    return sorted(set(out))


def check_reject(case):
    """One fault among otherwise good lines."""
    lines = [ic.render_line(ln) for ln in case['lines']]
    pos = case['pos'] % (len(lines) + 1)
    code = dict(unknown=100, equals=101, noequals=102, mixed=104)[case['fault']]
    lines.insert(pos, case['text'])
    text = '\n'.join(lines) + '\n'
    expect_exit(f'reading {text!r}', code, load, text, case['source'])
    if case['fault'] == 'unknown':
        exp = ic.expected(case['lines'])
        obj = call(f'reading {text!r} without validation', load, text, case['source'], validate_tags=False)
        got = obj.get_dict()
        require(case['tag'].lower() in got, f'{case["tag"]} is missing in {got}')
        rest = {k: v for k, v in got.items() if k != case['tag'].lower()}
        equal(rest, {t: v for t, (v, _) in exp.items()}, f'get_dict of {text!r}')


@st.composite
def reject_case(draw):
    fault = draw(st.sampled_from(['unknown', 'equals', 'noequals', 'mixed']))
    tag = draw(st.sampled_from(ic.plain_tags())).upper()
    comment = draw(st.sampled_from(['', '', '# note', ' # a = 1']))
    if fault == 'unknown':
        base = draw(st.one_of(gen.words('abcdefghijklmnopqrstuvwxyz_', 1, 10), st.sampled_from(['encutt', 'encu', 'ismearr', 'sigm', 'e', 'system1', 'isif2'])))
        tag = base if base not in ic.supported_tags() else base + '_q'
        if tag in ic.supported_tags():
            tag += 'zz'
        text = f'{tag.upper()} = 1'
    elif fault == 'equals':
        text = draw(st.sampled_from([f'{tag} = 1 = 2', f'{tag} == 1', f'{tag} = a = b', f'{tag} = 1 ISPIN = 2']))
    elif fault == 'noequals':
        text = draw(st.sampled_from([f'{tag}', f'{tag} 300', f'! {tag}', f'{tag} = 1; foo', f'foo; {tag} = 1', f'{tag} : 3']))
    else:
        kinds = draw(st.permutations(['int', 'float', 'str', 'bool']))[:2]
        toks = [draw(dict(int=gen.int_text(), float=gen.float_text(), str=ic.STRING, bool=st.sampled_from(ic.TRUE + ic.FALSE))[k]) for k in kinds]
        more = draw(st.lists(gen.int_text(), max_size=2))
        order = draw(st.booleans())
        toks = toks + more if order else more + toks
        text = f'{tag} = ' + ' '.join(toks)
    return dict(lines=draw(ic.incar(max_lines=4)), fault=fault, text=text + comment, tag=tag, pos=draw(st.integers(0, 5)), source=draw(st.sampled_from(SOURCES)))


def check_from_dict(case):
    """A dictionary sets the same thing as the text form."""
    given, exp = {}, {}
    for it in case['items']:
        value = ic.typed(it['value'])
        as_text = it['as_text'] or it['value']['kind'] == 'text'
        key = it['shown']
        entry = it['sep'].join(it['value']['tokens']) if as_text else value
        comment = None
        if as_text and it['comment'] is not None:
            entry = entry + ' #' + it['comment']
            comment = it['comment'].strip()
        if it['tag'] in exp:
            continue
        given[key] = entry
        exp[it['tag']] = (value, comment)
    obj = call(f'reading dictionary {given!r}', Incar, incar_dict=given)
    equal(obj.get_dict(), {t: v for t, (v, _) in exp.items()}, f'get_dict of {given!r}')
    for tag, (value, comment) in exp.items():
        equal(list(obj.get(tag, comment=True)), [value, comment], f'get({tag}, comment=True) of {given!r}')


@st.composite
def dict_case(draw):
    items = draw(st.lists(ic.item(), max_size=6))
    for it in items:
        it['as_text'] = draw(st.booleans())
        it['comment'] = draw(st.one_of(st.none(), gen.comment_text('#\n\r')))
    return dict(items=items)


def check_dict_reject(case):
    good = {it['shown']: ic.typed(it['value']) for it in case['items']}
    what, bad = case['what'], dict(good)
    tag = case['tag']
    for key in list(bad):
        if key.lower() == tag:
            del bad[key]
    if what == 'comments':
        bad[tag] = '1 # a # b'
        expect_exit(f'dictionary {bad!r}', 103, Incar, incar_dict=bad)
    elif what == 'unknown':
        bad['notatag' + tag] = 1
        expect_exit(f'dictionary {bad!r}', 100, Incar, incar_dict=bad)
    elif what == 'mixed':
        bad[tag] = '1 a'
        expect_exit(f'dictionary {bad!r}', 104, Incar, incar_dict=bad)
    else:
        bad[tag] = {'a': 1} if case['alt'] else None
        expect_exit(f'dictionary {bad!r}', 105, Incar, incar_dict=bad)


def nontrivial(case):
    return sum(len(ln['items']) for ln in case['lines'] if ln['kind'] == 'items') >= 2


SUBS = [
    Sub('values', values_case(), check_values, quick=2500, nontrivial=nontrivial, labels=labels, rule='at least two items'),
    Sub('large', values_case(True), check_values, quick=120, labels=labels, rule='many lines or long values'),
    Sub('reject', reject_case(), check_reject, quick=1200, labels=lambda c: [c['fault']], rule='every case has one fault'),
    Sub('from_dict', dict_case(), check_from_dict, quick=1200, nontrivial=lambda c: len(c['items']) >= 2, rule='at least two entries'),
    Sub('dict_reject', st.fixed_dictionaries(dict(items=st.lists(ic.item(), max_size=3), what=st.sampled_from(['comments', 'unknown', 'mixed', 'type']),
                                                  tag=st.sampled_from(ic.plain_tags()), alt=st.booleans())), check_dict_reject, quick=400,
        labels=lambda c: [c['what']], rule='every case has one fault'),
]
