"""C17: saved studies load as equivalent, usable studies."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c10, c11
from vf.common import check, check_close, hyper_ok, kinds
from vf.core import Test, Reject, Violation, scratch

_count = [0]


def path(suffix='.bl'):
    _count[0] += 1
    return os.path.join(scratch(), 'study-{}-{}{}'.format(os.getpid(), _count[0], suffix))


def save(name, S):
    with dsl.hush():
        dsl.bl().save(name, S)


def load(name):
    with dsl.hush():
        return dsl.bl().load(name)


# ------------------------------------------------------------------------------------------- everything a study reports

def attempt(f):
    """Result of a query, or the type of the error."""
    try:
        with dsl.hush():
            out = f()
    except Exception as e:  # the same error is expected from the loaded study
        return 'error ' + type(e).__name__
    return out


def report(S, case):
    out = []

    def add(name, f):
        out.append((name, attempt(f)))
    online = case['cls'] == 'OnlineStudy'
    for a in ('rawData', 'rawTimestamps', 'formattedData', 'formattedTimestamps', 'marginalGrid', 'latticeConstant', 'logEvidence',
              'log10Evidence', 'localEvidence', 'posteriorSequence', 'posteriorMeanValues', 'hyperParameterDistribution', 'averagePosteriorSequence',
              'logEvidenceList', 'hyperGridValues', 'flatHyperParameterNames', 'transitionModelNames', 'marginalizedPosterior',
              'transitionModelDistribution', 'transitionModelPosterior', 'parameterPosterior', 'localTransitionModelDistribution'):
        if hasattr(S, a):
            add(a, lambda: getattr(S, a))
    n = len(case['data'])
    stamps = (case.get('ts') or list(range(n)))
    for p in case['om']['names']:
        add('PDs of ' + p, lambda: S.getPDs(p))
        add('average PD of ' + p, lambda: S.getPD('avg', p))
        add('means of ' + p, lambda: S.getParameterMeanValues(p))
        for t in stamps:
            add('PD of {} at {}'.format(p, t), lambda: S.getPD(t, p))
        if online:
            add('CPD of ' + p, lambda: S.getCPD(p))
    tms = case['tms'] if online else [case['tm']]
    for tm in tms:
        for h, _, _ in ref.flat_hypers(tm):
            add('value of ' + h, lambda: S.getHyperParameterValue(h))
            if online:
                add('CHPD of ' + h, lambda: S.getCHPD(h))
                add('HPDs of ' + h, lambda: S.getHPDs(h))
                add('mean values of ' + h, lambda: S.getHyperParameterMeanValues(h))
            elif case['cls'] != 'Study':
                add('HPD of ' + h, lambda: S.getHPD(h))
    if online:
        add('transition model probabilities', lambda: S.getTransitionModelProbabilities())
        add('transition model distributions', lambda: S.getTransitionModelDistributions())
    p = case['om']['names'][0]
    if case['query']:  # slow
        add('query', lambda: S.eval('{} > 0.7'.format(p), t=stamps[-1], silent=True))
    return out


def flat(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x
    if isinstance(x, dict):
        return [flat(x[k]) for k in sorted(x, key=str)]
    if isinstance(x, (list, tuple, np.ndarray)):
        return [flat(v) for v in x]
    return x


def same(a, b):
    a, b = flat(a), flat(b)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a is b or (type(a) == type(b) and a == b)
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return str(a) == str(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-12, atol=0., equal_nan=True))


def compare(a, b, what):
    check([n for n, _ in a] == [n for n, _ in b], '{}: different attributes'.format(what))
    for (n, x), (_, y) in zip(a, b):
        if not same(x, y):
            raise Violation('{}: {} is {!r}, but {!r}'.format(what, n, str(y)[:300], str(x)[:300]))


# ------------------------------------------------------------------------------------------------------------ continuing

def new_case(case):
    """Other data for a study (reversed)."""
    c = dict(case, data=case['data'][::-1] + case['data'][:1])
    if case.get('ts'):
        c['ts'] = case['ts'] + [case['ts'][-1] + 1]
    return c


def go_on(S, op, case):
    """Continues to work with a study; returns what it reports afterwards."""
    if case['cls'] == 'OnlineStudy':
        pts = dsl.data_points(case)
        dsl.step(S, pts[op[1] % len(pts)])
        c = dict(case, data=case['data'] + case['data'][:1])
        return report(S, c)
    c = case
    with dsl.hush():
        if op[0] == 'load':
            c = new_case(case)
            S.load(dsl.build_data(c), timestamps=c.get('ts'), silent=True)
        elif op[0] == 'tm':
            S.set(dsl.build_tm(case['tm2']), silent=True)
            c = dict(case, tm=case['tm2'])
        elif op[0] == 'om':
            S.set(dsl.build_om(case['om']), silent=True)
    kw = [{}, {'forwardOnly': True}, {'evidenceOnly': True}][op[1] % 3]
    first = attempt(lambda: S.fit(silent=True, **kw))
    return [('fit', first)] + report(S, c)


def create(case):
    if case['cls'] == 'OnlineStudy':
        S, _ = c11.start(case, case['history'])
        for x in dsl.data_points(case):
            dsl.step(S, x)
        return S
    fit = case['fit']
    S = dsl.study(case, case['cls'])
    if fit is not None:
        from bayesloop.exceptions import ConfigurationError
        try:
            dsl.run_fit(S, **fit)
        except ConfigurationError:  # e.g. no ordered combination of change-points
            raise Reject()
    return S


def domain(case):
    cls = case['cls']
    if cls == 'OnlineStudy':
        c11.usable(case, 12)
        return
    if cls == 'Study':
        case['tm'] = dsl.scalar_tm(case['tm'])
        case['tm2'] = dsl.scalar_tm(case['tm2'])
        return
    if cls == 'ChangepointStudy':
        if case.get('skip') or c10.size(case) > 30 or not c10.first_values(case['tm']):
            raise Reject()
        return
    for k in ('tm', 'tm2'):
        if not hyper_ok(case[k]):
            raise Reject()
        n = 1
        for _, v, _ in ref.flat_hypers(case[k]):
            n *= len(v) if isinstance(v, list) else 1
        if n > 8:
            raise Reject()


def body_round(case, ctx):
    domain(case)
    S = create(case)
    before = report(S, case)
    name = path(case['suffix'])
    if case['overwrite']:
        with open(name, 'wb') as f:
            f.write(b'x' * 500000)
    try:
        save(name, S)
        compare(before, report(S, case), 'study after saving')
        T = load(name)
        compare(before, report(T, case), 'loaded study')
        check(type(T) is type(S), 'class of loaded study is {}'.format(type(T)))
        U = load(name)
        # continue with one of both; the others do not change
        base = report(U, case)
        after = None
        for op in case['ops']:
            after = go_on(T, op, case)
        compare(before, report(S, case), 'original study after working with the loaded study')
        compare(base, report(U, case), 'second loaded study after working with the first')
        want = None
        for op in case['ops']:
            want = go_on(S, op, case)
        if want is not None:
            compare(want, after, 'continued loaded study')
        # save the continued study again, with the same name
        if case['again']:
            save(name, T)
            V = load(name)
            c = case
            compare(report(T, c), report(V, c), 'study saved a second time')
    finally:
        if os.path.exists(name):
            os.remove(name)
    ctx.label(case['cls'], case['om']['om'], 'continued' if case['ops'] else 'loaded')
    ctx.nontrivial(bool(case['ops']) and (case['cls'] == 'OnlineStudy' or case['fit'] is not None))


@st.composite
def s_round(draw, slow=False):
    cls = draw(st.sampled_from(['Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy']))
    okinds = dsl.SLOW if slow else None
    if cls == 'OnlineStudy':
        c = draw(c11.s_batch(max_len=4, min_len=2))
    elif cls == 'ChangepointStudy':
        c = draw(c10.s_points(max_points=2))
        c['tm2'] = c.get('tm')
    else:
        om = draw(dsl.oms(kinds=okinds, max_n1=5, max_n2=3))
        c = draw(dsl.cases(om=st.just(om), multi=True, priors=True, max_values=2, min_len=2, max_len=4))
        c['tm2'] = draw(dsl.tms(om, dsl.seg_ts(om, len(c['data']), c.get('ts')), multi=True, max_values=2))
    c['cls'] = cls
    c['fit'] = draw(st.sampled_from([None, {}, {}, {}, {'forwardOnly': True}, {'evidenceOnly': True}]))
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(['fit', 'load', 'tm', 'om']), st.integers(0, 5)).map(list), max_size=2))
    c['suffix'] = draw(st.sampled_from(['.bl', '.pkl', '', '.a.b', ' x.dat']))
    c['overwrite'] = draw(st.integers(0, 4)) == 0
    c['query'] = draw(st.integers(0, 30)) == 17
    c['again'] = draw(st.booleans())
    return c


@st.composite
def s_large(draw):
    """Fine parameter grids and long data."""
    cls = draw(st.sampled_from(['Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy']))
    n = draw(st.sampled_from([400, 1000, 2500]))
    om = {'om': 'Poisson', 'names': ['r'], 'grids': [{'kind': 'oint', 'a': 0., 'b': 7., 'n': n}], 'prior': draw(st.sampled_from([None, 'default']))}
    if draw(st.booleans()):
        om = {'om': 'Gaussian', 'names': ['m', 's'], 'grids': [{'kind': 'cint', 'a': 0., 'b': 7., 'n': n // 25}, {'kind': 'oint', 'a': 0., 'b': 3., 'n': 25}],
              'prior': None}
    p = om['names'][0]
    d = dsl.stretched([draw(st.integers(0, 6)) for _ in range(5)], draw(st.sampled_from([64, 100, 130])), draw(st.integers(0, 9)))
    grw = {'tm': 'GRW', 'names': ['w'], 'values': [draw(st.sampled_from([[0.1, 0.5], [0.25]]))], 'target': p}
    c = {'cls': cls, 'om': om, 'data': d, 'history': draw(st.booleans()), 'float': draw(st.booleans())}
    if cls == 'OnlineStudy':
        c['tms'] = [grw, {'tm': 'Regime', 'names': ['q'], 'values': [[-3., -2.]]}]
    elif cls == 'ChangepointStudy':
        c['tm'] = {'tm': 'CP', 'names': ['t'], 'values': [[10, 30, 50]]}
        c['tm2'] = {'tm': 'CP', 'names': ['t'], 'values': [[12, 20]]}
    else:
        c['tm'] = grw
        c['tm2'] = {'tm': 'Regime', 'names': ['q'], 'values': [[-3., -2.]]}
    c['fit'] = draw(st.sampled_from([{}, {}, {'forwardOnly': True}]))
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(['fit', 'load', 'tm', 'om']), st.integers(0, 5)).map(list), max_size=1))
    c['suffix'], c['overwrite'], c['query'], c['again'] = '.bl', False, False, draw(st.booleans())
    return c


# ------------------------------------------------------------------------------------------------- another Python process

def child(arg):
    """Loads studies and writes what they report (run in a new process)."""
    import pickle
    jobs = json.load(open(arg))
    out = []
    for name, case in jobs:
        T = load(name)
        out.append((plain(report(T, case)), plain([go_on(T, op, case) for op in case['ops'][:1]])))
    with open(arg + '.out', 'wb') as f:
        pickle.dump(out, f)


def plain(x):
    x = flat(x)
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, (np.ndarray, str, int, float, bool, type(None), np.generic)):
        return x
    return str(x)


def body_process(case, ctx):
    import pickle
    jobs, want = [], []
    files = []
    for c in case['list']:
        try:
            domain(c)
        except Reject:
            continue
        try:
            S = create(c)
        except Reject:
            continue
        name = path()
        files.append(name)
        save(name, S)
        jobs.append([name, c])
        want.append((plain(report(S, c)), plain([go_on(S, op, c) for op in c['ops'][:1]])))
    if not jobs:
        raise Reject()
    arg = path('.json')
    files += [arg, arg + '.out']
    try:
        with open(arg, 'w') as f:
            json.dump(jobs, f)
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        from vf.worker import REPO
        code = ('import sys, warnings; sys.path[:0] = {!r}; warnings.simplefilter("ignore"); import numpy; numpy.seterr(all="ignore"); '
                'import vf.checks.c17 as c; c.child({!r})').format([os.path.join(here, 'vendor'), here, REPO], arg)
        p = subprocess.run([sys.executable, '-B', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch(), timeout=300)
        if p.returncode != 0:
            text = p.stdout.decode(errors='replace')
            raise Violation('saved study can not be used in another process: {}'.format(text[-1500:]))
        with open(arg + '.out', 'rb') as f:
            got = pickle.load(f)
        for (a, b), (x, y) in zip(want, got):
            compare(a, x, 'study loaded in another process')
            for u, v in zip(b, y):
                compare(u, v, 'study continued in another process')
    finally:
        for n in files:
            if os.path.exists(n):
                os.remove(n)
    ctx.label(*[c['cls'] for _, c in jobs])
    ctx.nontrivial(any(c['ops'] for _, c in jobs))


@st.composite
def s_process(draw):
    return {'list': [draw(s_round(slow=draw(st.integers(0, 9)) == 0)) for _ in range(4)]}


TESTS = [
    Test('round', s_round, body_round, 700, 10000, 'fitted study that is continued after loading'),
    Test('large', s_large, body_round, 16, 200, 'fitted study that is continued after loading'),
    Test('symbolic', lambda: s_round(slow=True), body_round, 24, 300, 'fitted study that is continued after loading'),
    Test('process', s_process, body_process, 16, 200, 'at least one continued study'),
]
KNOWN = {}
