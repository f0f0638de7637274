"""C27: parser objects are independent and queries repeatable."""
import gc
import inspect
import io
import logging
import os
import random
import re

from hypothesis import strategies as st

from parsevasp.kpoints import Kpoints
from parsevasp.poscar import Poscar
from parsevasp.potcar import Potcar
from parsevasp.vasprun import Xml
from pbt.c24 import CLASSES, STRINGS, TEXTS, WRITERS, plain
from pbt.core import Sub, call, equal, require, scratch, sut, write_file

RULE = 'Histories of creating, querying, writing and dropping parser objects of all kinds, with refused files in between, are generated as one value; every answer is compared with that of a fresh object that is asked nothing else.'
ASSUMPTIONS = ['edits are not part of these histories (C03, C06 and C08 have them)', 'the numbers themselves are the subject of the other properties']
STATUS = ['initial', 'last', 'all', 'final']


def queries(obj):
    """Everything that can be asked, as (name, arguments, keyword arguments)."""
    out = []
    for name in dir(type(obj)):
        if name.startswith('_'):
            continue
        member = inspect.getattr_static(type(obj), name)
        if isinstance(member, property):
            out.append((name, None, {}))
        elif name.startswith('get_') and callable(getattr(obj, name)):
            needed = [p.name for p in inspect.signature(getattr(obj, name)).parameters.values() if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
            if not needed:
                out.append((name, (), {}))
            elif needed == ['status']:
                out += [(name, (status,), {}) for status in STATUS]
    if isinstance(obj, Poscar):
        out.append(('get_dict', (), {'direct': False}))
    if isinstance(obj, Xml):
        out += [('get_energies', (status,), {'nosc': flag}) for status in STATUS[:3] for flag in (True, False)]
    if isinstance(obj, Potcar):
        out.append(('metadata', None, {}))
    if isinstance(obj, (Poscar, Kpoints)):
        out += [('get', (entry,), {}) for entry in ('comment', 'sites', 'points', 'nothing')]
    return out


def ask(obj, query):
    name, args, kwargs = query
    done = sut(lambda: getattr(obj, name) if args is None else getattr(obj, name)(*args, **kwargs))
    return plain(done.value) if done.ok else f'exit {done.exit}' if done.exit is not None else type(done.exc).__name__


def handlers():
    names = [name for name in logging.root.manager.loggerDict if name.startswith('parsevasp')]
    return {name: len(logging.getLogger(name).handlers) for name in names}


def twin(text):
    """Another file of the same length: the digits behind decimal points are changed."""
    return re.sub(r'\.(\d+)', lambda m: '.' + ''.join(str((int(d) + 1) % 10) for d in m.group(1)), text)


def create(spec, n, other=False):
    kind, text = spec['kind'], twin(spec['text']) if other else spec['text']
    path = write_file(f'FILE{n}', text)
    options = {'event': True} if kind == 'vasprun' and spec['option'] else {}
    if spec['option'] and kind in STRINGS:
        return call(f'reading a {kind} text', CLASSES[kind], **{STRINGS[kind]: text})
    if spec['handler']:
        with open(path, encoding='utf8') as handle:
            return call(f'reading an open {kind} file', CLASSES[kind], file_handler=handle, **options)
    return call(f'reading a {kind} file', CLASSES[kind], file_path=path, **options)


def check(case):
    specs = case['files']
    objs = {}
    others = [False] * len(specs)  # which of the two contents the path has
    reference = {}
    first = None

    def answer(spec_n, query):
        key = (spec_n, others[spec_n], repr(query))
        if key not in reference:
            reference[key] = ask(create(specs[spec_n], f'REF{len(reference)}', others[spec_n]), query)
        return reference[key]

    here, before = os.getcwd(), set(os.listdir(scratch()))
    for step, op in enumerate(case['ops']):
        what = op['op']
        n = op['n'] % len(specs)
        if what == 'replace':
            others[n] = not others[n]
            objs[n] = create(specs[n], n, others[n])
        elif what == 'make' or n not in objs:
            objs[n] = create(specs[n], n, others[n])
        elif what == 'refused':
            # the same or another kind, with content that is cut or mixed up
            kind = specs[n]['kind']
            text = specs[n]['text']
            cut = text[:op['m'] % (len(text) + 1)]
            sut(CLASSES[kind], file_path=write_file('DAMAGED', cut if op['m'] % 3 else specs[(n + 1) % len(specs)]['text']))
        elif what == 'drop':
            del objs[n]
            gc.collect()
        elif what == 'write' and specs[n]['kind'] in WRITERS:
            buffer = io.StringIO()
            call('write', objs[n].write, file_handler=buffer)
            fresh = io.StringIO()
            call('write', create(specs[n], 'REF', others[n]).write, file_handler=fresh)
            equal(buffer.getvalue(), fresh.getvalue(), f'what is written at step {step}')
        else:
            possible = queries(objs[n])
            for m in [op['m']] + op['more']:
                query = possible[m % len(possible)]
                got = ask(objs[n], query)
                want = answer(n, query)
                require(got == want, lambda: f'step {step}: {specs[n]["kind"]} {query} gives {got!r}, a fresh object gave {want!r}')  # pylint: disable=cell-var-from-loop
        if step == len(case['ops']) // 2:
            first = handlers()
    # what is still there answers as before
    for n, obj in objs.items():
        for key in [key for key in reference if key[:2] == (n, others[n])]:
            query = next(q for q in queries(obj) if repr(q) == key[2])
            got = ask(obj, query)
            require(got == reference[key], lambda: f'at the end: {specs[n]["kind"]} {query} gives {got!r}, a fresh object gave {reference[key]!r}')  # pylint: disable=cell-var-from-loop
    for name, count in handlers().items():
        require(count <= max(1, (first or {}).get(name, 1)), f'{count} handlers write the messages of {name}')
    equal(os.getcwd(), here, 'working directory')
    left = [name for name in set(os.listdir(scratch())) - before if not re.match('FILE|DAMAGED', name)]
    require(not left, f'files that were left: {left}')


FILE = st.sampled_from(sorted(TEXTS)).flatmap(lambda kind: st.fixed_dictionaries({'kind': st.just(kind), 'text': TEXTS[kind], 'option': st.booleans(), 'handler': st.booleans()}))
OP = st.fixed_dictionaries(dict(op=st.sampled_from(['make', 'ask', 'ask', 'ask', 'ask', 'refused', 'replace', 'drop', 'write']), n=st.integers(0, 3), m=st.integers(0, 4000), more=st.lists(st.integers(0, 200), max_size=3)))


@st.composite
def strategy(draw, same=False):
    files = draw(st.lists(FILE, min_size=1, max_size=3))
    if same:
        kind = files[0]['kind']
        files = files[:1] + [dict(kind=kind, text=draw(TEXTS[kind]), option=draw(st.booleans()), handler=draw(st.booleans())) for _ in range(draw(st.integers(1, 2)))]
    return dict(files=files, ops=draw(st.lists(OP, min_size=3, max_size=14)))


def check_orders(case):
    """All queries, in two orders, of two objects that are read from the same file."""
    spec = dict(case, handler=False)
    one, two = create(spec, 1), create(spec, 2)
    possible = queries(one)
    rnd = random.Random(case['order'])
    first, second = possible * 2, list(possible)
    rnd.shuffle(first)
    rnd.shuffle(second)
    answers = {}
    for step, query in enumerate(first):
        got = ask(one, query)
        want = answers.setdefault(repr(query), got)
        require(got == want, lambda: f'question {step}: {spec["kind"]} {query} gives {got!r}, when it was asked before it gave {want!r}')  # pylint: disable=cell-var-from-loop
    for step, query in enumerate(second):
        got, want = ask(two, query), answers[repr(query)]
        require(got == want, lambda: f'question {step} in another order: {spec["kind"]} {query} gives {got!r}, not {want!r}')  # pylint: disable=cell-var-from-loop


def interrupted(base, inner, at, chunk):
    """An open file, during one of whose reads another file is parsed and queried."""

    class Handle(base):
        reads, busy = 0, False

        def meanwhile(self):
            if self.busy:
                return
            self.reads += 1
            if self.reads == at:
                self.busy = True
                try:
                    inner()
                finally:
                    self.busy = False

        def read(self, size=-1):
            if size == 0:
                return super().read(0)
            self.meanwhile()
            return super().read(min(size, chunk) if size and size > 0 else size)

        def readline(self, *args):
            self.meanwhile()
            return super().readline(*args)

        def readlines(self, *args):
            self.meanwhile()
            return super().readlines(*args)

        def __next__(self):
            self.meanwhile()
            return super().__next__()

    return Handle


def check_nested(case):
    """While one file is read another one is parsed, and queried; neither notices."""
    outer, inner = dict(case['outer'], option=True), dict(case['inner'], handler=False)
    outer['option'] = outer['kind'] == 'vasprun'  # lxml itself does not parse two whole documents within each other
    wanted = [create(dict(spec, handler=False), f'PLAIN{n}') if spec['kind'] not in STRINGS else create(dict(spec, handler=False, option=False), f'PLAIN{n}') for n, spec in enumerate([outer, inner])]
    wanted = [{repr(query): ask(obj, query) for query in queries(obj)} for obj in wanted]
    made = []

    def work():
        made.append(create(inner, 'INNER'))
        if case['asks']:
            compare(made[-1], inner['kind'], wanted[1], 'read in the meantime')

    def compare(obj, kind, answers, what):
        for query in queries(obj):
            got = ask(obj, query)
            require(got == answers[repr(query)], lambda: f'{kind} {what}: {query} gives {got!r}, by itself {answers[repr(query)]!r}')  # pylint: disable=cell-var-from-loop

    if outer['kind'] == 'vasprun':
        handle = interrupted(io.BytesIO, work, case['at'], case['chunk'])(outer['text'].encode())
        options = {'event': True}
    else:
        handle = interrupted(io.StringIO, work, 1 + case['at'] % 2, 10**9)(outer['text'])
        options = {}
    obj = call(f'reading a {outer["kind"]} file that reads a {inner["kind"]} file', CLASSES[outer['kind']], file_handler=handle, **options)
    compare(obj, outer['kind'], wanted[0], 'during which another file was read')
    for other in made:
        compare(other, inner['kind'], wanted[1], 'read in the meantime, asked later')
    return None


NESTED = st.fixed_dictionaries({
    'outer': st.one_of(FILE, st.fixed_dictionaries({'kind': st.just('vasprun'), 'text': TEXTS['vasprun'], 'option': st.just(True), 'handler': st.just(True)})),
    'inner': FILE,
    'at': st.integers(1, 40),
    'chunk': st.sampled_from([97, 256, 1024, 1024, 4096, 32768]),
    'asks': st.booleans(),
    'same': st.booleans(),
}).map(lambda c: dict(c, inner=dict(c['inner'], kind=c['outer']['kind'], text=twin(c['outer']['text'])) if c['same'] else c['inner']))

ORDERS = st.sampled_from(sorted(TEXTS) + ['vasprun', 'outcar', 'doscar', 'vasprun']).flatmap(
    lambda kind: st.fixed_dictionaries({'kind': st.just(kind), 'text': TEXTS[kind], 'option': st.booleans(), 'order': st.integers(0, 2**32)}))

SUBS = [
    Sub('orders', ORDERS, check_orders, quick=2000, labels=lambda c: [c['kind']], nontrivial=lambda c: len(c['text']) > 30, rule='a file of more than 30 characters', shards=8),
    Sub('nested', NESTED, check_nested, quick=800, labels=lambda c: [c['outer']['kind'] + ' around ' + c['inner']['kind']], nontrivial=lambda c: len(c['outer']['text']) > 30 < len(c['inner']['text']), rule='two files of more than 30 characters', shards=8),
    Sub('any', strategy(), check, quick=800, labels=lambda c: sorted({f['kind'] for f in c['files']}), nontrivial=lambda c: sum(o['op'] == 'ask' for o in c['ops']) >= 2, rule='at least two queries', shards=8),
    Sub('same kind', strategy(True), check, quick=800, labels=lambda c: sorted({f['kind'] for f in c['files']}), nontrivial=lambda c: sum(o['op'] == 'ask' for o in c['ops']) >= 2, rule='at least two queries', shards=8),
]
