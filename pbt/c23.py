"""C23: POTCAR metadata."""
from hypothesis import strategies as st

from parsevasp.potcar import Potcar
from pbt.core import Sub, call, equal, expect_refused
from pbt.gen import Filler, seeds
from pbt.source import load, sources

RULE = 'a header with drawn values, item order, grouping and spacing is printed between unrelated sections; every item and derived attribute is compared with the model.'
ASSUMPTIONS = ['a repeated item takes the last value (RWIGS in au, then in Angstrom)']

REALS = ['EATOM', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT']
INTS = ['IUNSCR', 'NDATA', 'ICORE']
BOOLS = ['LULTRA', 'LCOR', 'LPAW']
FUNCTIONALS = {'PE': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'RP': ('revPBE', 'GGA'), 'AM': ('AM05', 'GGA'), 'PS': ('PBEsol', 'GGA'), 'PW': ('PW86', 'GGA'), 'LM': ('Langreth-Mehl-Hu', 'GGA'),
               'PB': ('Perdew-Becke', 'GGA'), 'CA': ('Perdew-Zunger81', 'LDA'), 'HL': ('Hedin-Lundquist', 'LDA'), 'WI': ('Wigner Interpoloation', 'LDA'), 'XX': (None, None)}
COMMENTS = {'EATOM': ' eV,  111.1111 Ry', 'LULTRA': '    use ultrasoft PP ?', 'IUNSCR': '    unscreen: 0-lin 1-nonlin 2-no', 'RPACOR': '    partial core radius', 'ZVAL': '    mass and valenz', 'RCORE': '    outmost cutoff radius',
            'RWIGS': '    wigner-seitz radius (au A)', 'ENMIN': ' eV', 'ICORE': '        local potential', 'LCOR': '    correct aug charges', 'LPAW': '    paw PP', 'RMAX': '    core radius for proj-oper'}


def build(case):
    fill = Filler(case['seed'])
    want, items = {}, []
    for key in case['keys']:
        if key in REALS:
            top = 1 if fill.integer(0, 2) == 0 else 2000
            value = fill.fixed(4, top) if key in ('EATOM', 'EAUG', 'DEXC') else fill.magnitude(3, min(top, 400))
            text = f'{value:.4f}' if key in ('EATOM', 'EAUG') else f'{value:.3f}'
            if case['bare'] and text.startswith(('0.', '-0.')):
                text = text.replace('0.', '.', 1)
            style = fill.integer(0, 9)
            if style == 0:
                text = f'{value:.{fill.integer(0, 6)}{"eE"[fill.integer(0, 1)]}}'
            elif style == 1:
                # written with a positive exponent or sign
                text = f'{"" if value < 0 else "+"}{value:.3f}{["", "E0", "e+00", "E+1"][fill.integer(0, 3)]}'
            value = float(text)
        elif key in INTS:
            value = fill.integer(-2, 400)
            text = str(value)
        elif key in BOOLS:
            value = bool(fill.integer(0, 1))
            text = (['T', '.TRUE.', '.T.', 't'] if value else ['F', '.FALSE.', '.F.', 'f'])[fill.integer(0, 3)]
        else:
            value = [fill.magnitude(3, 90), fill.magnitude(3, 9)]
            text = [f'{value[i]:.3f}' for i in range(2)]
            for i in range(2):
                style = fill.integer(0, 5)
                if style == 0:
                    text[i] = f'{value[i]:.{fill.integer(0, 6)}{"eE"[fill.integer(0, 1)]}}'
                elif style == 1:
                    text[i] = f'{["", "+"][fill.integer(0, 1)]}{value[i]:.3f}{["", "E0", "e+00", "E+1"][fill.integer(0, 3)]}'
            value = [float(x) for x in text]
            text = '   '.join(text)
        want[key] = value
        items.append((key, text))
    lex = case['lexch']
    want.update(VRHFIN=f'{case["element"]}: s2p1', LEXCH=lex, TITEL=case['titel'])
    items[case['at'] % (len(items) + 1):0] = [('VRHFIN', want['VRHFIN']), ('LEXCH', lex), ('TITEL', case['titel'])]
    lines, i, groups = [], 0, case['groups']
    while i < len(items):
        key, text = items[i]
        line = f'   {key:<6s}{case["eq"]}{text}'
        single = key in ('TITEL', 'VRHFIN', 'LEXCH', 'STEP')
        n = 1 if single else groups[i % len(groups)]
        i += 1
        while n > 1 and i < len(items) and items[i][0] not in ('TITEL', 'VRHFIN', 'LEXCH', 'STEP'):
            key, text = items[i]
            line += f'{case["semi"]}{key:<6s}{case["eq"]}{text}'
            i, n = i + 1, n - 1
        if case['comments'] and not single:
            line += COMMENTS.get(key, '')
        lines.append(line + case['trail'])
        if fill.integer(0, 6) == 0:
            lines.append('')
        if fill.integer(0, 9) == 0:
            lines += ['   Atomic configuration', '   11 entries', '     n  l   j            E        occ.', '     1  0   0.50    -1259.6230   2.0000']
    head = [f'  PAW_PBE {case["element"]} 08Apr2002', '   4.00000000000000']
    if case['decoy']:
        head.append('   ENMAX  =  999.999; ZVAL = 99.9')
    tail = [' END of PSCTR-controll parameters', ' local part', '   68.8033386300000']
    if case['decoy']:
        tail.append('   ENMAX  =  888.888; TITEL = PAW Xx 00')
    return '\n'.join(head + [' parameters from PSCTR are:'] + lines + tail) + '\n', want


def check(case):
    text, want = build(case)
    obj = call(f'reading {text!r}', load, Potcar, text, case['source'])
    for _ in range(2):  # asking must not change anything
        equal(dict(obj.metadata), want, f'{text!r}: metadata')
        for key, value in want.items():
            equal(call(f'attribute {key.lower()}', getattr, obj, key.lower()), value, f'attribute {key.lower()}')
        symbol = case['titel'].split()[1] if len(case['titel'].split()) > 1 else case['titel']
        name, family = FUNCTIONALS[case['lexch'].upper()]
        equal(call('symbol', getattr, obj, 'symbol'), symbol, 'symbol')
        equal(call('element', getattr, obj, 'element'), symbol.split('_')[0], 'element')
        equal(call('functional', getattr, obj, 'functional'), name, 'functional')
        equal(call('functional_class', getattr, obj, 'functional_class'), family, 'functional class')
        for key in REALS + INTS + BOOLS + ['STEP']:
            if key not in want:
                expect_refused(f'attribute {key.lower()} of a header without it', getattr, obj, key.lower())


@st.composite
def strategy(draw):
    element = draw(st.sampled_from(['In', 'H', 'O', 'W', 'Si', 'Fe']))
    symbol = element + draw(st.sampled_from(['', '_d', '_pv', '_sv_GW', '.75', '_s']))
    keys = draw(st.lists(st.sampled_from(REALS + INTS + BOOLS + ['STEP']), unique=True, max_size=24))
    if 'RWIGS' in keys and draw(st.booleans()):
        keys.insert(keys.index('RWIGS'), 'RWIGS')
    return dict(
        element=element, titel=draw(st.sampled_from([f'PAW_PBE {symbol} 08Apr2002', f'PAW {symbol} 08Apr2002', f'US {symbol}', f'{symbol}', f'PAW_PBE  {symbol}  08Apr2002'])), lexch=draw(st.sampled_from(sorted(FUNCTIONALS) + ['pe', 'ca'])),
        keys=keys, at=draw(st.integers(0, 30)), groups=draw(st.lists(st.integers(1, 3), min_size=1, max_size=4)), eq=draw(st.sampled_from([' = ', ' =  ', '=', ' =', '= ', '  =    '])), semi=draw(st.sampled_from(['; ', ';', ' ; ', ';   '])),
        trail=draw(st.sampled_from(['', '  '])), comments=draw(st.booleans()), decoy=draw(st.booleans()), bare=draw(st.booleans()), seed=draw(seeds), source=draw(sources))


SUBS = [
    Sub('header', strategy(), check, quick=4000, labels=lambda c: ['functional ' + c['lexch'].upper(), 'source ' + c['source']], nontrivial=lambda c: len(c['keys']) > 2, rule='more than two items besides the names', shards=8),
]
