"""C21: OUTCAR run status."""
from hypothesis import strategies as st

from parsevasp.outcar import Outcar
from pbt import outcar_common as oc
from pbt.core import Sub, call, equal, expect_exit
from pbt.source import load, sources

RULE = 'histories of ionic and electronic iterations with drawn limits are printed, optionally cut at any byte; the status is compared with a reference evaluation of the lines that are complete.'
ASSUMPTIONS = ['VASP ends every line with a newline, so a last line without one is incomplete', 'the limits are printed before the first iteration and ionic steps are numbered from one']


def reference(events):
    """The documented status for the given complete lines; None without iterations."""
    status = dict(nelm=None, nsw=None, nbands=None, finished=False, ionic_converged=False, electronic_converged=False, consistent_nelm_breach=False, contains_nelm_breach=False)
    ibrion, counts, last = -1, {}, None
    for event in events:
        if event[0] in ('nelm', 'nsw', 'nbands'):
            status[event[0]] = event[1]
        elif event[0] == 'ibrion':
            ibrion = event[1]
        elif event[0] == 'iteration':
            last = [event[1], event[2]]
            counts[event[1]] = event[2]
        elif event[0] == 'finished':
            status['finished'] = True
    if last is None:
        return None
    nelm, nsw = status['nelm'], status['nsw']
    status['last_iteration_index'] = last
    reached = [counts[i] >= nelm for i in sorted(counts)]
    status['contains_nelm_breach'] = True in reached
    if status['finished']:
        status['electronic_converged'] = last[1] < nelm
        status['ionic_converged'] = None if ibrion <= 0 or nsw <= 1 else last[0] < nsw
        status['consistent_nelm_breach'] = False not in reached
    else:
        status['consistent_nelm_breach'] = last[0] > 1 and False not in reached[:-1]
    return status


def check(case):
    lines = oc.write(case['model'])
    text = ''.join(line + '\n' for line, _ in lines)
    if case['cut'] is not None:
        text = text[:int(len(text) * case['cut'] / 10000)]
    complete = text.count('\n')
    want = reference([event for _, event in lines[:complete] if event])
    if want is None:
        expect_exit(f'reading {text!r}', 600, load, Outcar, text, case['source'])
        return
    obj = call(f'reading {text!r}', load, Outcar, text, case['source'])
    got = obj.get_run_status()
    equal({key: got[key] for key in want}, want, f'{text!r}: run status')


def labels(case):
    m = case['model']
    out = ['cut' if case['cut'] is not None else 'finished' if m['finished'] else 'unfinished', 'relaxation' if m['ibrion'] > 0 else 'no relaxation']
    if any(s >= m['nelm'] for s in m['steps']):
        out.append('electronic limit reached')
    if len(m['steps']) == m['nsw']:
        out.append('ionic limit reached')
    return out


def check_long(case):
    """Runs of very many steps, as in molecular dynamics."""
    n, last, nelm, nsw = case['n'], case['last'], case['nelm'], case['nsw']
    head = [('nelm', nelm), ('nsw', nsw), ('ibrion', case['ibrion'])]
    text = f'   NELM   ={nelm:7d};   NELMIN=  2; NELMDL=  0     # of ELM steps\n   NSW    ={nsw:7d}    number of steps for IOM\n   IBRION ={case["ibrion"]:7d}    ionic relax\n'
    # every ionic step but the last one reaches the limit, except some
    full = min(nelm, case['electronic'], max(1, 20000 // n))
    steps = [(i + 1, j + 1) for i in range(n - 1) for j in range(full - 1 if full > 1 and i + 1 in [m % n for m in case['fewer']] else full)] + [(n, j + 1) for j in range(last)]
    text += ''.join(f'--------------------------------------- Iteration {i:6d}({j:4d})  ---------------------------------------\n' for i, j in steps)
    events = head + [('iteration', i, j) for i, j in steps]
    if case['finished']:
        text += ' General timing and accounting informations for this job:\n'
        events.append(('finished',))
    want = reference(events)
    want.pop('nbands')
    got = call(f'reading {n} steps', load, Outcar, text, case['source']).get_run_status()
    equal({key: got[key] for key in want}, want, f'{case}: run status')


LONG = st.fixed_dictionaries(dict(
    electronic=st.sampled_from([1, 2, 2, 3, 10]), fewer=st.lists(st.sampled_from([1, 2, 8, 9, 10, 11, 19, 20, 98, 99, 100, 101, 102, 998, 999, 1000, 4711]), max_size=2),
    n=st.sampled_from([9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 12345]), last=st.sampled_from([1, 1, 2, 3, 9, 10, 11, 99, 100, 101, 999, 1000, 1001]), nelm=st.sampled_from([1, 2, 2, 2, 3, 10, 99, 100, 1000, 1001, 9999]),
    nsw=st.sampled_from([0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 12345, 100000]), ibrion=st.sampled_from([0, 1, 2, 3]), finished=st.booleans(), source=sources))

SUBS = [
    Sub('long', LONG, check_long, quick=240, labels=lambda c: [f'{len(str(c["n"]))} digits'], nontrivial=lambda c: c['n'] > 99, rule='more than 99 ionic steps', shards=8),
    Sub('histories', st.fixed_dictionaries(dict(model=oc.model(), cut=st.none(), source=sources)), check, quick=16000, labels=labels, nontrivial=lambda c: sum(c['model']['steps']) > 1, rule='more than one iteration', shards=8),
    Sub('cut', st.fixed_dictionaries(dict(model=oc.model(), cut=st.integers(0, 10000), source=sources)), check, quick=16000, labels=labels, nontrivial=lambda c: c['cut'] > 0, rule='something is left of the file', shards=8),
]
