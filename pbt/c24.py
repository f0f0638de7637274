"""C24: sources and sinks."""
import builtins
import contextlib
import functools
import inspect
import io
import logging
import os
import pathlib

import numpy as np
from hypothesis import strategies as st

from parsevasp.chgcar import Chgcar
from parsevasp.doscar import Doscar
from parsevasp.eigenval import Eigenval
from parsevasp.incar import Incar
from parsevasp.kpoints import Kpoints
from parsevasp.outcar import Outcar
from parsevasp.poscar import Poscar
from parsevasp.potcar import Potcar
from parsevasp.stream import Stream
from parsevasp.vasprun import Xml
from pbt import c17, c18, c19, c23, incar_common, kpoints_common, outcar_common, poscar_common
from pbt import vasprun_common as vc
from pbt.core import Sub, Violation, call, equal, expect_exit, expect_refused, require, scratch, sut, write_file

RULE = 'a valid file of each kind is generated, read from every source it supports and written to every sink; the results are compared with each other and the files and handles involved with their state before.'


def unit(strategy, build):
    """Texts of one kind."""
    return strategy.map(build)


TEXTS = {
    'incar': incar_common.incar().map(incar_common.render).filter(lambda text: any('=' in line.split('#')[0] for line in text.split('\n'))),
    'poscar': st.tuples(poscar_common.structure(), poscar_common.layout()).map(lambda p: poscar_common.render(*p)[0] if isinstance(poscar_common.render(*p), tuple) else poscar_common.render(*p)),
    'kpoints': st.tuples(kpoints_common.model(), kpoints_common.layout()).map(lambda p: kpoints_common.render(*p)),
    'doscar': c17.strategy().filter(lambda c: c.get('spin') != 'ncl').map(lambda c: c17.build(c)[0]),
    'eigenval': c18.strategy.map(lambda c: c18.build(c)[0]),
    'chgcar': c19.strategy().map(lambda c: c19.build(c)[0]),
    'outcar': outcar_common.model().map(lambda m: ''.join(line + '\n' for line, _ in outcar_common.write(m))),
    'potcar': c23.strategy().map(lambda c: c23.build(c)[0]),
    'stream': st.lists(st.sampled_from([' vasp.5.4.4 start', ' ZBRENT: fatal error in bracketing', '', ' running on 8 cores', ' WARNING: CNORMN: x', ' BRMIX: very serious problems']), max_size=8).map(lambda lines: ''.join(line + '\n' for line in lines)),
    'vasprun': vc.cases(few=True, parameters={'ispin', 'nbands'}).map(lambda run: vc.Doc(run).text.replace('Grün µ', 'Gruen u')),
}
CLASSES = {'incar': Incar, 'poscar': Poscar, 'kpoints': Kpoints, 'doscar': Doscar, 'eigenval': Eigenval, 'chgcar': Chgcar, 'outcar': Outcar, 'potcar': Potcar, 'stream': Stream, 'vasprun': Xml}
WRITERS = ('incar', 'poscar', 'kpoints')
STRINGS = {'incar': 'incar_string', 'poscar': 'poscar_string', 'kpoints': 'kpoints_string'}
DICTS = {'incar': ('incar_dict', {'encut': 300}), 'poscar': ('poscar_dict', {}), 'kpoints': ('kpoints_dict', {})}


def plain(value, depth=0):
    """Plain data that stands for any result."""
    if isinstance(value, np.ndarray):
        return ['array', str(value.dtype), plain(value.tolist(), depth + 1)]
    if isinstance(value, dict):
        return {repr(key): plain(item, depth + 1) for key, item in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(item, depth + 1) for item in value]
    if isinstance(value, float) and value != value:
        return 'nan'
    if value is None or isinstance(value, (bool, int, float, str, complex, np.generic)):
        return repr(value)
    if hasattr(value, '__dict__') and depth < 8 and not isinstance(value, logging.Logger):
        return [type(value).__name__, {key: plain(item, depth + 1) for key, item in sorted(vars(value).items()) if 'logger' not in key and 'file' not in key}]
    return type(value).__name__


def results(obj):
    """All that can be asked without arguments."""
    out = {}
    for name in dir(type(obj)):
        if name.startswith('_'):
            continue
        member = inspect.getattr_static(type(obj), name)
        if isinstance(member, property):
            func, args = (lambda name=name: getattr(obj, name)), ()
        elif name.startswith('get_') and callable(getattr(obj, name)):
            needed = [p for p in inspect.signature(getattr(obj, name)).parameters.values() if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
            func = getattr(obj, name)
            args = () if not needed else ('all',) if [p.name for p in needed] == ['status'] else None
            if args is None:
                continue
        else:
            continue
        done = sut(func, *args)
        out[name] = plain(done.value) if done.ok else f'exit {done.exit}' if done.exit is not None else type(done.exc).__name__
    if isinstance(obj, Potcar):
        out['metadata'] = plain(obj.metadata)
    return out


def open_text(path, mode):
    return open(path, mode, encoding='utf8')  # pylint: disable=consider-using-with


@contextlib.contextmanager
def place(how, name):
    """The path of a file of the scratch directory in the way a user may give it."""
    kept = os.getcwd()
    if how == 'relative':
        os.chdir(scratch())
    try:
        yield {'relative': name, 'pathlib': pathlib.Path(scratch()) / name}.get(how, os.path.join(scratch(), name))
    finally:
        os.chdir(kept)


@contextlib.contextmanager
def all_closed():
    """Files the package opened itself are closed by it, not left to the garbage collector."""
    opened = []
    kept = builtins.open

    def recording(*args, **kwargs):
        handle = kept(*args, **kwargs)
        opened.append(handle)
        return handle

    builtins.open = recording
    try:
        yield
    finally:
        builtins.open = kept
    left = [handle.name for handle in opened if not handle.closed]
    for handle in opened:
        handle.close()
    require(not left, f'left open: {left}')


def check_sources(case):
    kind, text = case['kind'], case['text']
    if kind in STRINGS and case['sign']:
        # a sign that some functions take for the end of a line, in a comment
        text = f'# page{case["sign"]}encut 1\n' + text if kind == 'incar' else f'page{case["sign"]}1 2 3 ' + text
    text = text.replace('\r\n', '\n').replace('\n', case['eol'])
    cls = CLASSES[kind]
    path = write_file('INPUT', text)
    data = text.encode('utf8')
    listing = sorted(os.listdir(scratch()))
    made = {}

    def judge(source, obj):
        with open(path, 'rb') as handle:
            require(handle.read() == data, f'reading from {source} changed the file')
        equal(sorted(os.listdir(scratch())), listing, f'files after reading from {source}')
        made[source] = results(obj)

    with all_closed():
        obj = call('reading from a path', cls, file_path=path)
    judge('path', obj)
    for source in case['sources']:
        if source in ('pathlib', 'relative', 'odd name'):
            name = 'IN PUT #1 %s.µ' if source == 'odd name' else 'INPUT'
            write_file(name, text)
            listing = sorted(os.listdir(scratch()))
            with all_closed(), place(source, name) as given:
                judge(source, call(f'reading from {given!r}', cls, file_path=given))
            continue
        if source == 'string':
            if kind not in STRINGS:
                continue
            judge(source, call('reading from a string', cls, **{STRINGS[kind]: text}))
            continue
        if source == 'bytes':
            if kind != 'vasprun':
                continue
            handle = open(path, 'rb')  # pylint: disable=consider-using-with
        elif source == 'handler':
            handle = open_text(path, 'r')
        elif source == 'behind':  # the content starts where the handle stands
            if kind == 'vasprun':
                continue
            write_file('BEHIND', 'something before\n' + text)
            listing = sorted(os.listdir(scratch()))
            handle = open_text(os.path.join(scratch(), 'BEHIND'), 'r')
        elif source == 'string behind':
            handle = io.StringIO('something before\n' + text)
        else:
            handle = io.StringIO(text)
        with handle:
            if 'behind' in source:
                handle.readline()
            obj = call(f'reading from {source}', cls, file_handler=handle)
            require(not handle.closed, f'the open file ({source}) was closed')
            judge(source, obj)
    first = made['path']
    for source, other in made.items():
        for name in sorted(set(first) | set(other)):
            require(first.get(name) == other.get(name), lambda: f'{name}: {first.get(name)!r} from a path, {other.get(name)!r} from {source}')  # pylint: disable=cell-var-from-loop


def reading(kinds):
    return st.sampled_from(kinds).flatmap(lambda kind: st.fixed_dictionaries({
        'kind': st.just(kind), 'text': TEXTS[kind], 'eol': st.sampled_from(['\n', '\n', '\n', '\r\n', '\r']), 'sign': st.sampled_from(['', '', '', '\x0b', '\x0c', '\x1c', '\x85', '\u2028']), 'sources': st.lists(st.sampled_from(['handler', 'stringio', 'string', 'bytes', 'behind', 'string behind', 'pathlib', 'relative', 'odd name']), min_size=1, max_size=3, unique=True)}))


def check_sinks(case):  # pylint: disable=too-many-statements
    """Writing."""
    kind = case['kind']
    obj = call('reading', CLASSES[kind], **{STRINGS[kind]: case['text']})
    before = results(obj)
    buffer = io.StringIO()
    call('writing to a string', obj.write, file_handler=buffer)
    require(not buffer.closed, 'the string buffer was closed')
    reference = buffer.getvalue()
    require(reference != '', 'nothing was written')
    directory = scratch()
    for sink in case['sinks']:
        name = 'OUT PUT #1 %s.µ' if sink == 'odd name' else 'OUTPUT'
        target = os.path.join(directory, name)
        if os.path.exists(target):
            os.remove(target)
        if sink in ('old', 'old short'):
            write_file('OUTPUT', 'old content\n' * (1 if sink == 'old short' else 400))
        listing = sorted(set(os.listdir(directory)) | {name})
        head = tail = ''
        if sink in ('path', 'old', 'old short', 'pathlib', 'relative', 'odd name'):
            with all_closed(), place(sink, name) as given:
                call(f'writing to a path ({sink})', obj.write, file_path=given)
        else:
            head = 'something before\n' if 'before' in sink else ''
            tail = 'something behind\n' if 'behind' in sink else ''
            with (io.StringIO() if 'string' in sink else open_text(target, 'w+')) as handle:
                handle.write(head)
                call(f'writing to an open file ({sink})', obj.write, file_handler=handle)
                require(not handle.closed, f'the open file was closed ({sink})')
                handle.write(tail)
                handle.flush()
                if 'string' in sink:
                    write_file('OUTPUT', handle.getvalue())
        with open(target, 'rb') as handle:
            got = handle.read().decode('utf8')
        equal(got, head + reference + tail, f'what was written ({sink}), compared with the string')
        equal(sorted(os.listdir(directory)), listing, f'files after writing ({sink})')
    if hasattr(obj, 'get_string'):
        got = call('get_string', obj.get_string)
        require(got.strip() == reference.strip(), lambda: f'get_string: {got!r}, written {reference!r}')
    equal(results(obj), before, 'what the object reports after writing')


SINKS = ['path', 'pathlib', 'relative', 'odd name', 'old', 'old short', 'handler', 'handler before', 'handler behind', 'handler before behind', 'string before', 'string behind']
WRITING = st.sampled_from(WRITERS).flatmap(lambda kind: st.fixed_dictionaries({
    'kind': st.just(kind), 'text': TEXTS[kind],
    'sinks': st.lists(st.sampled_from(SINKS), min_size=1, max_size=3, unique=True)}))


def snapshot():
    out = {}
    for name in sorted(os.listdir(scratch())):
        with open(os.path.join(scratch(), name), 'rb') as handle:
            out[name] = handle.read()
    return out


def own_logger():
    records = []
    logger = logging.Logger('own')
    logger.isEnabledFor = lambda level: True  # the runner silences logging
    handler = logging.Handler()
    handler.emit = records.append
    logger.addHandler(handler)
    return logger, records


def check_misuse(case):  # pylint: disable=too-many-branches
    """What is refused."""
    kind, text, how = case['kind'], case['text'], case['how']
    cls = CLASSES[kind]
    path = write_file('INPUT', text)
    other = write_file('OTHER', 'other content\n' * 5)
    absent = os.path.join(scratch(), 'absent')
    logger = None
    if case['logged']:
        logger, records = own_logger()
        cls = functools.partial(cls, logger=logger)
    if how == 'no source':
        before = snapshot()
        if kind == 'potcar':
            expect_refused('no source', cls)
        else:
            expect_exit('no source', 510 if kind == 'vasprun' else 10, cls)
            if logger:
                require(records, 'nothing was said to the logger that was given')
        equal(snapshot(), before, 'files')
        return
    if how == 'missing file':
        before = snapshot()
        expect_exit('a file that does not exist', 14, cls, file_path=absent)
        equal(snapshot(), before, 'files')
        return
    if how == 'conflict':
        if kind not in STRINGS:
            return
        name, content = DICTS[kind]
        given = {STRINGS[kind]: text, name: content, 'file_path': path, 'file_handler': None}
        pair = [[STRINGS[kind], name], [STRINGS[kind], 'file_path'], [name, 'file_path'], [STRINGS[kind], 'file_handler'], [name, 'file_handler']][case['which'] % 5]
        before = snapshot()
        with open_text(other, 'r') as handle:
            given['file_handler'] = handle
            expect_exit(f'{" and ".join(pair)}', 10, cls, **{key: given[key] for key in pair})
            if logger:
                require(records, 'nothing was said to the logger that was given')
            require(not handle.closed, 'the open file was closed')
        equal(snapshot(), before, 'files')
        return
    obj = call('reading', cls, file_path=path)
    before = snapshot()
    if logger:
        records.clear()
    if how == 'no sink':
        expect_exit('write without a sink', 10, obj.write)
        if logger:
            require(records, 'nothing was said to the logger that was given')
    elif how == 'two sinks':
        with open_text(other, 'r+') as handle:
            expect_exit('write to a path and an open file', 10, obj.write, file_path=absent if case['which'] % 2 else other, file_handler=handle)
            require(not handle.closed, 'the open file was closed')
    elif how == 'no directory':
        target = os.path.join(scratch(), 'nowhere', 'OUTPUT')
        if kind in WRITERS:
            expect_exit('write into a directory that does not exist', 14, obj.write, file_path=target)
        else:
            expect_refused('write into a directory that does not exist', obj.write, file_path=target)
        require(not os.path.exists(os.path.dirname(target)), 'the directory was made')
    elif how == 'read only':
        if kind in WRITERS:
            return
        target = [absent, other, path][case['which'] % 3]
        expect_refused('write of a format that is only read', obj.write, file_path=target)
        handle = io.StringIO()
        expect_refused('write of a format that is only read', obj.write, file_handler=handle)
        equal(handle.getvalue(), '', 'what was written')
    equal(snapshot(), before, 'files')


def misuse(kinds):
    return st.sampled_from(kinds).flatmap(lambda kind: st.fixed_dictionaries({
        'kind': st.just(kind), 'text': TEXTS[kind], 'which': st.integers(0, 5), 'logged': st.booleans(),
        'how': st.sampled_from(['no source', 'missing file', 'conflict', 'no sink', 'two sinks', 'no directory'] if kind in WRITERS else ['no source', 'missing file', 'no sink', 'two sinks', 'no directory', 'read only', 'read only'])}))


def labels(case):
    return [case['kind']] + [case[key] for key in ('how',) if key in case] + [f'source {name}' for name in case.get('sources', [])] + [f'sink {name}' for name in case.get('sinks', [])]


SUBS = [
    Sub('sources', reading(sorted(TEXTS)), check_sources, quick=3000, labels=labels, nontrivial=lambda c: len(c['text']) > 20, rule='a file with content', shards=8),
    Sub('sinks', WRITING, check_sinks, quick=2500, labels=labels, nontrivial=lambda c: True, rule='every case'),
    Sub('misuse', misuse(sorted(TEXTS)), check_misuse, quick=2000, labels=labels, nontrivial=lambda c: True, rule='every case'),
]
