"""Runner: turns (strategy, check) pairs into a check of one property.

A *sub-check* draws JSON-able cases from a Hypothesis strategy and hands each to a plain function that runs the real
code and compares with an oracle. Because the case is plain data, a shrunk failure is saved as a replay file and can be
re-run without Hypothesis (run.py PROPERTY --replay FILE).
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import logging
import math
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery itself is broken (never reported as a violation)."""


class Hang(BaseException):
    """A case used more CPU time than any legitimate one could."""


class Outcome:
    """What a call into the code under test did: returned a value, asked the process to exit, or raised."""
    __slots__ = ('value', 'exit', 'exc', 'tb')

    def __init__(self, value=None, exit_code=None, exc=None, tb=None):
        self.value, self.exit, self.exc, self.tb = value, exit_code, exc, tb

    @property
    def ok(self):
        return self.exit is None and self.exc is None

    def __repr__(self):
        if self.exit is not None:
            return f'<exit {self.exit}>'
        if self.exc is not None:
            return f'<raised {type(self.exc).__name__}: {self.exc}>'
        return f'<returned {short(self.value)}>'


class ExitCode:
    """An exit request, also when its code is None or text."""

    def __init__(self, code):
        self.code = code

    def __eq__(self, other):
        return self.code == (other.code if isinstance(other, ExitCode) else other)

    def __repr__(self):
        return repr(self.code)


def sut(func, *args, **kwargs):
    """Call the code under test."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return Outcome(value=func(*args, **kwargs))
    except SystemExit as exc:
        return Outcome(exit_code=ExitCode(exc.code))
    except Hang:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return Outcome(exc=exc, tb=traceback.format_exc(limit=-4))


def call(what, func, *args, **kwargs):
    """Call the code under test where the property says that it works."""
    out = sut(func, *args, **kwargs)
    if not out.ok:
        raise Violation(f'{what}: expected a result, got {out!r}' + (f'\n{out.tb}' if out.tb else ''))
    return out.value


def expect_exit(what, code, func, *args, **kwargs):
    out = sut(func, *args, **kwargs)
    if out.exit is None or out.exit != code:
        raise Violation(f'{what}: expected exit {code}, got {out!r}')


def expect_refused(what, func, *args, **kwargs):
    """The call must not return: any exit request or exception is a refusal."""
    out = sut(func, *args, **kwargs)
    if out.ok:
        raise Violation(f'{what}: expected a refusal, got {out!r}')


def short(value, limit=400):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + f'... ({len(text)} chars)'


def require(cond, message):
    if not cond:
        raise Violation(message() if callable(message) else message)


def equal(actual, expected, what):
    """Exact, type-aware equality of plain Python values."""
    if not _same(actual, expected):
        raise Violation(f'{what}: got {short(actual)}, expected {short(expected)}')


def _same(a, b):
    if isinstance(b, bool) or isinstance(a, (bool, np.bool_)):
        return isinstance(b, bool) and isinstance(a, (bool, np.bool_)) and bool(a) == b
    if b is None or a is None:
        return a is None and b is None
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(_same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(b, int):
        return isinstance(a, (int, np.integer)) and int(a) == b
    if isinstance(b, float):
        return isinstance(a, (float, np.floating)) and (float(a) == b or (math.isnan(b) and math.isnan(a)))
    return type(a) is type(b) and a == b


def close(actual, expected, what, rtol=1e-9, atol=1e-9):
    """Numeric equality of arrays including their shape."""
    if expected is None:
        if actual is not None:
            raise Violation(f'{what}: got {short(actual)}, expected nothing (None)')
        return
    if actual is None:
        raise Violation(f'{what}: got None, expected {short(np.asarray(expected).tolist())}')
    try:
        act = np.asarray(actual, dtype=float)
    except (TypeError, ValueError) as exc:
        raise Violation(f'{what}: got {short(actual)}, which is not numeric ({exc})') from None
    exp = np.asarray(expected, dtype=float)
    if act.shape != exp.shape:
        raise Violation(f'{what}: got shape {act.shape}, expected {exp.shape}; got {short(act.tolist())}, expected {short(exp.tolist())}')
    if not np.allclose(act, exp, rtol=rtol, atol=atol, equal_nan=True):
        bad = np.argwhere(~np.isclose(act, exp, rtol=rtol, atol=atol, equal_nan=True))
        idx = tuple(int(i) for i in bad[0])
        raise Violation(f'{what}: {len(bad)} element(s) differ, first at {idx}: got {act[idx]!r}, expected {exp[idx]!r}; got {short(act.tolist())}, expected {short(exp.tolist())}')


_SCRATCH = None


def scratch():
    """A directory private to this process, removed at exit."""
    global _SCRATCH  # pylint: disable=global-statement
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH')
        _SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix='pbt-', dir=base if base and os.path.isdir(base) else None))
    return _SCRATCH[1]


def clean_scratch():
    if _SCRATCH is not None and _SCRATCH[0] == os.getpid():
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)


def write_file(name, text):
    path = os.path.join(scratch(), name)
    with open(path, 'wb') as handle:
        handle.write(text if isinstance(text, bytes) else text.encode('utf8'))
    return path


def snapshot(value):
    """Plain description of what a caller passed in, to see later that it was left alone."""
    if isinstance(value, dict):
        return {key: snapshot(item) for key, item in value.items()}
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [snapshot(item) for item in value]
    if isinstance(value, np.ndarray):
        return ['array', value.tolist()]
    if hasattr(value, '__dict__'):
        return [type(value).__name__, snapshot(vars(value))]
    return value


QUICK = 3  # how many times the cases of a sub-check the quick tier runs


class Sub:
    """One generated check."""

    def __init__(self, name, strategy, check, quick=300, thorough=None, nontrivial=None, labels=None, rule='', examples=(), shards=4):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick * QUICK, thorough if thorough is not None else quick * 20
        self.nontrivial = nontrivial or (lambda case: True)
        self.labels = labels or (lambda case: [])
        self.rule = rule
        self.examples = list(examples)
        self.shards = shards


def _encode(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


CPU_LIMIT = 30


def _on_timer(signum, frame):
    raise Hang(f'used more than {CPU_LIMIT} s of CPU time')


def run_case(sub, case):
    """Run one case; raises Violation, Hang or HarnessError only."""
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.check(case)
    except (Violation, HarnessError, Hang):
        raise
    except MemoryError as exc:
        raise HarnessError('out of memory') from exc
    except BaseException as exc:  # noqa: B036  the code under test handed back something unusable
        if isinstance(exc, KeyboardInterrupt):
            raise
        raise Violation(f'{type(exc).__name__}: {exc}\n{traceback.format_exc(limit=-4)}') from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_sub(args):
    """Worker: run one sub-check, returns a plain dict."""
    prop, sub_name, tier, seed, scale, budget, deadline, shard, shards = args
    # pylint: disable=import-outside-toplevel
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    logging.disable(logging.CRITICAL)
    start = time.time()
    module = importlib.import_module(f'pbt.{prop.lower()}')
    sub = next(s for s in module.SUBS if s.name == sub_name)
    count = max(1, int((sub.quick if tier == 'quick' else sub.thorough) * scale) // shards)
    state = dict(evals=0, distinct=set(), labels={}, samples=[], failures=[], skipped=0, first_fail=None)
    result = dict(sub=sub_name, error=None)

    def one(case):
        now = time.time()
        if state['first_fail'] is not None and now - state['first_fail'] > min(90, budget / 4):
            state['skipped'] += 1  # stop shrinking
            return
        if state['first_fail'] is None and (now - start > budget or now > deadline):
            state['skipped'] += 1  # time budget used up: inconclusive, not a violation
            return
        state['evals'] += 1
        key = _encode(case)
        if sub.nontrivial(case):
            state['distinct'].add(hashlib.sha1(key.encode()).hexdigest()[:20])
            if len(key) < 2500 and (not state['samples'] or state['evals'] in (25, 80, 81, 82)):
                state['samples'].insert(0, json.loads(key))
        for label in sub.labels(case):
            state['labels'][label] = state['labels'].get(label, 0) + 1
        try:
            run_case(sub, json.loads(key))
        except Violation as exc:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            state['failures'].append((len(key), key, str(exc)))
            raise
        except Hang as exc:
            state['failures'].append((-1, key, f'does not finish: {exc}'))
            raise

    try:
        for case in sub.examples if shard == 0 else ():
            one(case)
        test = settings(
            max_examples=count, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
            phases=(Phase.generate,) if os.environ.get('VERIF_FAST') else (Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example, HealthCheck.differing_executors]
        )(hypothesis.given(sub.strategy)(one))
        salt = int(hashlib.sha1(f'{prop}/{sub_name}/{shard}'.encode()).hexdigest()[:8], 16)
        hypothesis.seed(seed * 1000003 + salt)(test)
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except BaseException:  # noqa: B036
        if not state['failures']:
            result['error'] = traceback.format_exc()
    finally:
        clean_scratch()
    result.update(evals=state['evals'], distinct=state['distinct'], labels=state['labels'], samples=state['samples'],
                  skipped=state['skipped'], rule=sub.rule, wall=time.time() - start, requested=count)
    if state['failures']:
        _, key, message = min(state['failures'], key=lambda item: (item[0], item[1]))
        result['failure'] = dict(case=json.loads(key), message=message)
    return result


def merge(results):
    """Join the shards of each sub-check."""
    out = {}
    for r in results:
        m = out.setdefault(r['sub'], dict(r))
        if m is not r and m.get('_seen'):
            for key in ('evals', 'skipped', 'requested'):
                m[key] += r[key]
            m['distinct'] = m['distinct'] | r['distinct']
            m['wall'] = max(m['wall'], r['wall'])
            m['labels'] = {k: m['labels'].get(k, 0) + r['labels'].get(k, 0) for k in {**m['labels'], **r['labels']}}
            m['samples'] = m['samples'] + r['samples']
            m['error'] = m['error'] or r['error']
            fails = [f for f in (m.get('failure'), r.get('failure')) if f]
            if fails:
                m['failure'] = min(fails, key=lambda f: (len(_encode(f['case'])), _encode(f['case'])))
        m['_seen'] = True
    for m in out.values():
        m['distinct'] = len(m['distinct'])
    return list(out.values())


def known_findings():
    """Lines `known: property=<id> sub=<name> <what fails>` with the exact case kept beside it."""
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            if line.startswith('known: '):
                fields = line[len('known: '):].strip()
                out.append(fields)
    return out


def replay(prop, path):
    data = json.load(open(path, encoding='utf8'))
    module = importlib.import_module(f'pbt.{prop.lower()}')
    sub = next(s for s in module.SUBS if s.name == data['sub'])
    logging.disable(logging.CRITICAL)
    try:
        run_case(sub, data['case'])
    except (Violation, Hang) as exc:
        print(f'{data["sub"]}: {exc}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    finally:
        clean_scratch()
    print('the case passes')
    return 0


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument('prop', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--sub')
    parser.add_argument('--replay')
    parser.add_argument('--scale', type=float, default=1.0)
    parser.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument('--selftest', action='store_true')
    parser.add_argument('--no-evidence', action='store_true')
    opts = parser.parse_args(argv)
    if opts.selftest:
        import hypothesis  # pylint: disable=import-outside-toplevel
        import parsevasp  # pylint: disable=import-outside-toplevel
        print(f'hypothesis {hypothesis.__version__} from {os.path.dirname(hypothesis.__file__)}; parsevasp from {parsevasp.__file__}; numpy {np.__version__}')
        return 0
    start = time.time()
    prop = opts.prop
    if opts.replay:
        return replay(prop, opts.replay)
    try:
        module = importlib.import_module(f'pbt.{prop.lower()}')
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f'harness error: cannot load the check of {prop}')
        return 2
    subs = [s for s in module.SUBS if not opts.sub or s.name == opts.sub]
    budget = 420 if opts.tier == 'quick' else 3600
    deadline = start + (600 if opts.tier == 'quick' else 36000)
    # shards do not depend on the number of cores, so a run is a function of code, seed and tier only
    jobs = [(prop, s.name, opts.tier, opts.seed, opts.scale, budget, deadline, i, s.shards) for i in range(max(s.shards for s in subs)) for s in subs if i < s.shards]
    with mp.get_context('fork').Pool(min(opts.jobs, len(jobs)), maxtasksperchild=1) as pool:
        results = merge(pool.map(run_sub, jobs, chunksize=1))
    wall = time.time() - start
    errors = [r for r in results if r['error']]
    failures = [r for r in results if r.get('failure')]
    evidence = dict(
        property=prop, tier=opts.tier if opts.tier in ('quick', 'thorough') else 'quick', seed=opts.seed, level='exploration',
        coverage=dict(
            evaluations=sum(r['evals'] for r in results), distinct_nontrivial=sum(r['distinct'] for r in results),
            rule=getattr(module, 'RULE', '') + ' Per sub-check: ' + '; '.join(f"{r['sub']}: {r['rule']}" for r in results if r['rule']),
            samples=[dict(sub=r['sub'], case=c) for r in results for c in r['samples'][:1]],
            subchecks=[dict(name=r['sub'], evaluations=r['evals'], requested=r['requested'], distinct_nontrivial=r['distinct'], skipped_for_time=r['skipped'],
                            wall_s=round(r['wall'], 2), classes=dict(sorted(r['labels'].items()))) for r in results]),
        assumptions=getattr(module, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(failures))
    if not opts.no_evidence and not opts.sub:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', f'.{prop}.{os.getpid()}')
        with open(tmp, 'w', encoding='utf8') as handle:
            json.dump(evidence, handle, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))
    for r in results:
        print(f"{prop}/{r['sub']}: {r['evals']} cases, {r['distinct']} distinct non-trivial, {r['wall']:.1f} s"
              + (f", {r['skipped']} skipped for time" if r['skipped'] else '') + (', FAILED' if r.get('failure') else '') + (', HARNESS ERROR' if r['error'] else ''))
    for r in failures if not os.environ.get('VERIF_FAST') else ():
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        text = json.dumps(dict(property=prop, sub=r['sub'], seed=opts.seed, message=r['failure']['message'], case=r['failure']['case'],
                               how=f'bash /verif/check.sh {prop} --replay <this file>'), indent=1)
        path = os.path.join(HERE, 'replays', f"{prop}-{r['sub']}-{hashlib.sha1(text.encode()).hexdigest()[:8]}.json")
        with open(path, 'w', encoding='utf8') as handle:
            handle.write(text)
        print(f"--- {prop}/{r['sub']}: {r['failure']['message'][:3000]}")
        print(f"    case: {short(r['failure']['case'], 2000)}")
        print(f'VIOLATION property={prop} replay={path}')
    for r in errors:
        print(f"--- {prop}/{r['sub']}: harness error\n{r['error']}", file=sys.stderr)
    for line in known_findings():
        if line.startswith(f'property={prop} '):
            print('KNOWN-FINDING: ' + line)
    if failures:
        return 1
    return 2 if errors else 0
