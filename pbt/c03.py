"""C03: INCAR edit histories against a plain mapping."""
import io

from hypothesis import strategies as st

from parsevasp.incar import Incar
from pbt import gen, incar_common as ic
from pbt.core import Sub, call, equal, expect_exit, require
from pbt.c02 import DICT_VALUE, independent_value, read_lines

RULE = 'Histories of operations on two INCAR objects are generated as one value; a plain mapping is the model and is compared after every step.'
ASSUMPTIONS = ['tags are queried and deleted by the lower-case name the object stores']
TAGS = ('encut', 'ismear', 'sigma', 'system', 'magmom', 'lreal', 'algo', 'nsw', 'kpar', 'm_constr')


def value_of(op):
    if op['value']['kind'] in ('text', 'python'):
        return op['value']['tokens'][0]
    return op['sep'].join(op['value']['tokens'])


def expected_value(op):
    if op['value']['kind'] == 'python':
        return ic.held(op['value']['tokens'][0])
    return ic.typed(op['value'])


def compare(obj, model, when):
    equal(obj.get_dict(), {t: v for t, (v, _) in model.items()}, f'get_dict {when}')
    for tag in TAGS:
        value, comment = model.get(tag, (None, None))
        equal(obj.get(tag), value, f'get({tag}) {when}')
        equal(list(obj.get(tag, comment=True)), [value, comment], f'get({tag}, comment=True) {when}')


def check(case):
    objs, models = [], []
    for lines in case['init']:
        text = ic.render(lines)
        objs.append(call(f'reading {text!r}', Incar, incar_string=text))
        models.append(ic.expected(lines))
    for n, op in enumerate(case['ops']):
        obj, model = objs[op['obj']], models[op['obj']]
        when = f'after step {n} ({op["op"]})'
        if op['op'] == 'set':
            kwargs = {} if op['comment'] is None else {'comment': op['comment']}
            call('modify', obj.modify, op['shown'], value_of(op), **kwargs)
            model[op['tag']] = (expected_value(op), None if op['comment'] is None else op['comment'].strip())
        elif op['op'] == 'bad':
            bad, code = [('1 a', 104), ('1 1.0', 104), (None, 105), ({'a': 1}, 105), ((1, 2), 105), ([1, 'a'], 104), ([True, 1], 104), ([1.0, None], 105), ([[1], 2], 105), (['a', 'b\nc'], 105)][op['bad']]
            tag = op['tag'] if op['tag'] not in ic.VERBATIM or code == 105 else 'encut'
            expect_exit(f'modify({tag}, {bad!r})', code, obj.modify, tag, bad)
        elif op['op'] == 'delete':
            call('delete', obj.delete, op['tag'])
            model.pop(op['tag'], None)
        elif op['op'] == 'get':
            got = obj.get_dict()
            got['zzz'] = 1
            got.pop(op['tag'], None)
        elif op['op'] == 'write':
            buffer = io.StringIO()
            call('write', obj.write, file_handler=buffer, comments=op['flag'])
            body = [ln.split(' # ')[0] + '\n' if op['flag'] else ln + '\n' for ln in buffer.getvalue().splitlines()]
            equal([t for t, _ in read_lines(''.join(body))], [t.upper() for t in sorted(model)], f'tags written {when}')
        elif op['op'] == 'string':
            lines = read_lines(call('get_string', obj.get_string))
            equal([t for t, _ in lines], [t.upper() for t in sorted(model)], f'tags written {when}')
            for tag, value in lines:
                want = model[tag.lower()][0]
                equal(value if isinstance(want, str) and tag.lower() in ic.VERBATIM else independent_value(value), want, f'value of {tag} {when}')
        elif op['op'] == 'fork':
            other = 1 - op['obj']
            objs[other] = call('building from get_dict', Incar, incar_dict=obj.get_dict())
            models[other] = {t: (v, None) for t, (v, _) in model.items()}
        elif op['op'] == 'validate':
            call('validate', obj.validate)
        for o, m in zip(objs, models):
            compare(o, m, when)


@st.composite
def op(draw):
    kind = draw(st.sampled_from(['set'] * 6 + ['delete'] * 3 + ['bad', 'get', 'write', 'string', 'fork', 'validate']))
    tag = draw(st.sampled_from(TAGS))
    out = dict(op=kind, tag=tag, obj=draw(st.integers(0, 1)))
    if kind == 'set':
        if tag in ic.VERBATIM:
            value = dict(kind='text', tokens=[draw(ic.TEXT.filter(lambda s: not set(s) & set('#;=')))])
        elif draw(st.booleans()):
            value = dict(kind='python', tokens=[draw(DICT_VALUE.filter(lambda v: not isinstance(v, str)))])
        else:
            value = draw(ic.value_tokens())
        out.update(value=value, sep=draw(st.sampled_from([' ', '  '])), shown=draw(st.sampled_from([tag, tag.upper(), ' ' + tag.capitalize() + ' '])),
                   comment=draw(st.one_of(st.none(), gen.comment_text('#\n\r'), st.just('  padded '))))
    elif kind == 'bad':
        out['bad'] = draw(st.integers(0, 9))
    elif kind == 'write':
        out['flag'] = draw(st.booleans())
    return out


CASE = st.fixed_dictionaries(dict(init=st.lists(st.lists(ic.line(TAGS[:1] + TAGS[1:3] + ('nsw', 'algo')), max_size=4), min_size=2, max_size=2), ops=st.lists(op(), min_size=3, max_size=20)))


def labels(case):
    out = {o['op'] for o in case['ops']}
    seen = set()
    for o in case['ops']:
        if o['op'] == 'delete':
            seen.add((o['obj'], o['tag']))
        if o['op'] == 'set' and (o['obj'], o['tag']) in seen:
            out.add('set after delete')
    return sorted(out)


SUBS = [Sub('history', CASE, check, quick=1600, labels=labels, rule='at least three operations, one of them a change',
            nontrivial=lambda c: len(c['ops']) >= 3 and any(o['op'] in ('set', 'delete') for o in c['ops']), shards=8)]
