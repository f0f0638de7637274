"""INCAR grammar: generators of (text, expected mapping) models."""
import functools
import os
import re

from hypothesis import strategies as st

from pbt import gen

VERBATIM = ('system', 'magmom', 'm_constr')
TRUE = ['.TRUE.', '.True.', '.true.', '.T.', '.t.']
FALSE = ['.FALSE.', '.False.', '.false.', '.F.', '.f.']


@functools.lru_cache(None)
def supported_tags():
    """The tags that parsevasp accepted when these checks were written; it must go on accepting them."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'incar_tags.txt'), encoding='utf8') as handle:
        return tuple(handle.read().split())


@functools.lru_cache(None)
def plain_tags():
    return tuple(t for t in supported_tags() if t not in VERBATIM)


def _number_like(text):
    try:
        float(text)
        return True
    except ValueError:
        return False


def _string_ok(text):
    return text and not _number_like(text) and not re.match(r'\.(true|false|t|f)\.', text, re.I)


STRING = st.one_of(
    st.sampled_from(['Normal', 'Accurate', 'Fast', 'PE', 'All', 'A', 'Auto', '3*1.0', '10*0.0', 'T', 'F', 'True', 'False', 'B3', '1-2', '.TRU', 'e', '1e', 'v1.0', '.', '-', 'd0', '1d0', 'TRUE.', '.FALSE', 'a.t.b', 'x.TRUE.', 'run.f.out']),
    st.text(gen.WORD + '_-+./*:,()', min_size=1, max_size=10)).filter(_string_ok)


@st.composite
def value_tokens(draw, kinds=('int', 'float', 'bool', 'str')):
    """A homogeneous value: list of token texts with its kind."""
    kind = draw(st.sampled_from(kinds))
    size = draw(st.sampled_from([1, 1, 1, 2, 3, 6]))
    elem = dict(int=gen.int_text(), float=gen.float_text(), bool=st.sampled_from(TRUE + FALSE), str=STRING)[kind]
    return dict(kind=kind, tokens=[draw(elem) for _ in range(size)])


def token_value(kind, token):
    if kind == 'int':
        return int(token)
    if kind == 'float':
        return float(token)
    if kind == 'bool':
        return token in TRUE
    return token


def typed(value):
    if value['kind'] == 'text':
        return value['tokens'][0].strip()
    out = [token_value(value['kind'], t) for t in value['tokens']]
    return out[0] if len(out) == 1 else out


def held(value):
    """What an INCAR holds of a value given from Python: integers among floats are floats, which is how they are read back."""
    if isinstance(value, list) and {type(v) for v in value} == {int, float}:
        return [float(v) for v in value]
    return value


TEXT = st.text(gen.WORD + ' _-+.*:,()!%&@"\'', min_size=1, max_size=24).map(str.strip).filter(bool)


def _recase(flags, tag):
    return ''.join(c.upper() if (flags >> (i % 24)) & 1 else c.lower() for i, c in enumerate(tag))


@st.composite
def item(draw, tags=None):
    if tags is None and draw(st.integers(0, 5)) == 0:
        tag = draw(st.sampled_from(VERBATIM))
        value = dict(kind='text', tokens=[draw(st.one_of(TEXT, st.sampled_from(['1 -1 0.5', '3*1.0 2*0', 'My system', '10', '.TRUE.', '1.0  2.0', 'a  b']))).strip()])
    else:
        tag = draw(st.sampled_from(tags if tags is not None else plain_tags()))
        value = draw(value_tokens())
    case = draw(st.one_of(st.just(0xffffff), st.just(0), st.integers(0, 0xffffff)))
    spaces = [draw(gen.sp(0, 2)) for _ in range(4)]
    return dict(tag=tag, shown=_recase(case, tag), value=value, sp=spaces, sep=draw(st.sampled_from([' ', ' ', '  ', '\t'])))


def render_item(it):
    a, b, c, d = it['sp']
    return f"{a}{it['shown']}{b}={c}{it['sep'].join(it['value']['tokens'])}{d}"


@st.composite
def line(draw, tags=None):
    kind = draw(st.sampled_from(['items'] * 6 + ['blank', 'comment']))
    if kind == 'blank':
        return dict(kind=kind, text=draw(gen.sp(0, 3)))
    if kind == 'comment':
        return dict(kind=kind, text=draw(gen.sp(0, 2)) + '#' + draw(st.one_of(gen.comment_text('\n\r'), st.sampled_from(['ENCUT = 300', ' A = 1 ; B = 2 #x', '']))))
    items = [draw(item(tags)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3])))]
    return dict(kind=kind, items=items, tail=draw(st.sampled_from(['', '', '', '', ';', '; ', ' ;  '])), comment=draw(
        st.one_of(st.none(), st.none(), st.builds(lambda a, b, c: a + b + c, gen.sp(0, 2), gen.comment_text('\n\r'), gen.sp(0, 2)))))


def render_line(ln):
    if ln['kind'] != 'items':
        return ln['text']
    text = ';'.join(render_item(it) for it in ln['items']) + ln['tail']
    if ln['comment'] is not None:
        text += '#' + ln['comment']
    return text


def expected(lines):
    """tag -> (value, comment); the last setting of a tag wins."""
    out = {}
    for ln in lines:
        if ln['kind'] == 'items':
            for it in ln['items']:
                out[it['tag']] = (typed(it['value']), None if ln['comment'] is None else ln['comment'].strip())
    return out


@st.composite
def incar(draw, min_lines=0, max_lines=8):
    tags = None
    if draw(st.integers(0, 3)) == 0:
        tags = draw(st.lists(st.sampled_from(plain_tags()), min_size=1, max_size=3))  # forces repeated tags
    return draw(st.lists(line(tags), min_size=min_lines, max_size=max_lines))


@st.composite
def long_incar(draw):
    """Many lines, or long values; built from one seed."""
    fill = gen.Filler(draw(gen.seeds))
    tags = plain_tags()
    first = fill.integer(0, len(tags) - 1)
    long_values = draw(st.booleans())
    count = draw(st.integers(1, 3)) if long_values else draw(gen.large_sizes)
    lines = []
    for i in range(count):
        kind = ['int', 'float', 'bool', 'str'][fill.integer(0, 3)]
        size = draw(gen.large_sizes) if long_values else fill.integer(1, 3)
        make = dict(int=lambda: str(fill.integer(-10**6, 10**6)), float=lambda: f'{fill.fixed(5):.5f}', bool=lambda: (TRUE + FALSE)[fill.integer(0, 9)], str=lambda: f'w{fill.integer(0, 10**6)}')[kind]
        it = dict(tag=tags[(first + 7 * i) % len(tags)], shown='', value=dict(kind=kind, tokens=[make() for _ in range(size)]), sp=['', ' ', ' ', ''], sep=' ')
        it['shown'] = it['tag'].upper()
        lines.append(dict(kind='items', items=[it], tail='', comment=f' note {i}' if fill.integer(0, 3) == 0 else None))
    return lines


def render(lines, newline='\n', final=True):
    text = newline.join(render_line(ln) for ln in lines)
    return text + newline if final and lines else text
