"""C15: hyper-parameter values are set, read and optimized by name."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c10, c11
from vf.checks.c12 import expect_error
from vf.common import triggers, match, make_ref, kinds, check, check_close, check_log, hyper_ok
from vf.core import Test, Reject, Violation

SMOOTH = ('Static', 'GRW', 'Regime', 'NotEqual', 'Det', 'Indep', 'CP')  # defined for all hyper-parameter values


def shuffle_names(tm, perm):
    """Names that are unrelated to the position in the model."""
    names = [n for n, _, _ in ref.flat_hypers(tm)]
    new = dict(zip(names, [['zeta', 'a', 'sigma', 'b2', 'b', 'b21', 'sigma2', 'k', 'log10b', 'c', 'B', 'e', 'ba'][i % 13] + ('' if i < 13 else str(i))
                           for i in perm]))

    def rec(m):
        m = dict(m)
        for k in ('models', 'parts'):
            if k in m:
                m[k] = [rec(x) for x in m[k]]
        if m.get('names'):
            m['names'] = [new[n] for n in m['names']]
        return m
    return rec(tm)


def points(tm):
    return [n for m in ref.leaves(tm) if m['tm'] in ('CP', 'Break') for n in m['names']]


def equal(a, b):
    try:
        return list(np.ravel(np.array(a, dtype=float))) == list(np.ravel(np.array(b, dtype=float)))
    except (TypeError, ValueError):
        return str(a) == str(b)


# ------------------------------------------------------------------------------------------------------ reading by name

def body_read(case, ctx):
    tm = case['tm']
    hyp = ref.flat_hypers(tm)
    cls = case['cls']
    if cls == 'Study':
        tm = case['tm'] = dsl.scalar_tm(tm)
        hyp = ref.flat_hypers(tm)
    elif not hyper_ok(tm):
        raise Reject()
    n = 1
    for _, v, _ in hyp:
        n *= len(v) if isinstance(v, list) else 1
    if n > 8:
        raise Reject()
    S = dsl.study(case, cls)
    for rnd in range(3):
        for i in case['order']:
            if i < len(hyp):
                name, v, _ = hyp[i]
                check(equal(S.getHyperParameterValue(name), v), 'value of {} is {!r}, expected {!r} ({})'.format(
                    name, S.getHyperParameterValue(name), v, ['before fit', 'after fit', 'after second fit'][rnd]))
        expect_error(lambda: S.getHyperParameterValue('nosuch'), 'unknown hyper-parameter')
        if rnd < 2:
            dsl.run_fit(S, **case['fits'][rnd])
    ctx.label(cls, '{} hyper-parameters'.format(len(hyp)))
    ctx.nontrivial(len(hyp) >= 2)


@st.composite
def s_read(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'NumPyTable', 'AR1'), max_n1=5, max_n2=3))
    c = draw(dsl.cases(om=st.just(om), multi=True, max_values=2, min_len=3, max_len=5,
                       shape=draw(st.sampled_from(['comb', 'serial', None]))))
    n = len(ref.flat_hypers(c['tm']))
    c['tm'] = shuffle_names(c['tm'], draw(st.permutations(range(n))))
    c['order'] = draw(st.permutations(range(n)))
    c['cls'] = draw(st.sampled_from(['Study', 'HyperStudy']))
    f = st.sampled_from([{}, {'forwardOnly': True}, {'evidenceOnly': True}])
    c['fits'] = [draw(f), draw(f)]
    return c


def body_stream(case, ctx):
    """On-line studies never change the values set by the user."""
    c11.usable(case, 20)
    from vf.checks.c11 import OnlineRef
    OnlineRef(case['om'], case['tms'], case['data'])  # rejects data of zero probability
    b = dsl.bl()
    tms = [dsl.build_tm(tm) for tm in case['tms']]
    with dsl.hush():
        S = b.OnlineStudy(storeHistory=case['history'], silent=True)
        S.set(dsl.build_om(case['om']), silent=True)
        for i, tm in enumerate(tms):
            S.add('m{}'.format(i), tm)

    def look(what):
        for tm, obj in zip(case['tms'], tms):
            T = b.Study(silent=True)  # reads the values of the transition model
            T.transitionModel = obj
            for name, v, _ in ref.flat_hypers(tm):
                check(equal(T.getHyperParameterValue(name), v), 'value of {} is {!r}, expected {!r} ({})'.format(
                    name, T.getHyperParameterValue(name), v, what))
        for name, v, _ in ref.flat_hypers(case['tms'][-1]):
            check(equal(S.getHyperParameterValue(name), v), 'on-line study: value of {} is {!r}, expected {!r} ({})'.format(
                name, S.getHyperParameterValue(name), v, what))
    look('before first data point')
    for i, x in enumerate(dsl.data_points(case)):
        dsl.step(S, x)
        look('after {} data points'.format(i + 1))
    ctx.label('{} models'.format(len(tms)))
    ctx.nontrivial(any(isinstance(v, list) and len(v) > 1 for tm in case['tms'] for _, v, _ in ref.flat_hypers(tm)))


# ---------------------------------------------------------------------------------------------------------- optimization

def fresh(case, S, tm, fwd):
    """A new study with the values that are reported for each name."""
    names = [n for n, _, _ in ref.flat_hypers(tm)]
    vals = [float(S.getHyperParameterValue(n)) for n in names]
    vals = [v if i not in pts_index(tm) or v != ref.flat_hypers(tm)[i][1] else ref.flat_hypers(tm)[i][1] for i, v in enumerate(vals)]
    if not ordered(ref.with_values(tm, vals)):
        return None
    return dsl.study(dict(case, tm=ref.with_values(tm, vals)), fit=dict(forwardOnly=True) if fwd else {})


def ordered(tm):
    """Breaks of serial models (still) are in order."""
    if tm['tm'] == 'Serial':
        v = [m['values'][0] for m in tm['parts'] if m['tm'] in ('Break', 'CP')]
        if any(not a < b for a, b in zip(v, v[1:])):
            return False
    return all(ordered(m) for m in tm.get('models', tm.get('parts', [])))


def pts_index(tm):
    pts = points(tm)
    return [i for i, (n, _, _) in enumerate(ref.flat_hypers(tm)) if n in pts]


def body_optimize(case, ctx):
    tm = case['tm']
    hyp = ref.flat_hypers(tm)
    names = [n for n, _, _ in hyp]
    pts = points(tm)
    free = [n for n in names if n not in pts]
    start = {n: v for n, v, _ in hyp}
    S = dsl.study(case, fit=dict(evidenceOnly=True))
    if not np.isfinite(S.logEvidence):
        raise Reject()
    logE = S.logEvidence
    if not free:
        expect_error(lambda: S.optimize(tol=0.1), 'optimization without hyper-parameters')
        if not names:
            raise Reject()
    changed, mode = False, dict(evidenceOnly=True)
    for sel, fwd, form in case['runs']:
        pool = names if form == 'any' else free  # points can be selected, too
        sel = [pool[i] for i in sel if i < len(pool)]
        if set(sel) & set(pts):
            ctx.label('points')
        arg = sel[0] if form == 'str' and len(sel) == 1 else list(sel)
        if not sel:
            sel = list(free)
        if not sel:
            continue
        keep = list(arg)
        with dsl.hush():
            if arg:
                S.optimize(arg, forwardOnly=fwd, tol=0.05, options=dict(maxiter=case['maxiter']))
            else:
                S.optimize(forwardOnly=fwd, tol=0.05, options=dict(maxiter=case['maxiter']))
        mode = dict(forwardOnly=True) if fwd else {}
        check(keep == list(arg), 'list of names is modified')
        for n in names:
            v = S.getHyperParameterValue(n)
            check(np.ndim(v) == 0 and np.isfinite(v), 'value of {} after optimization: {!r}'.format(n, v))
            if n not in sel:
                check(equal(v, start[n]), 'value of {} changes from {!r} to {!r}, but only {} are optimized'.format(n, start[n], v, sel))
            else:
                changed = changed or not equal(v, start[n])
        logE = S.logEvidence
        start = {n: S.getHyperParameterValue(n) for n in names}
        F = fresh(case, S, tm, fwd)
        if F is None:
            break
        check_log(S.logEvidence, F.logEvidence, 'log-evidence after optimization versus new study with the reported values')
        check_close(S.posteriorSequence, F.posteriorSequence, 'distributions after optimization versus new study')
        check_close(S.posteriorMeanValues, F.posteriorMeanValues, 'mean values after optimization versus new study', 1e-6, 1e-7)
        logE = S.logEvidence
        start = {n: S.getHyperParameterValue(n) for n in names}
    expect_error(lambda: S.optimize(['nosuch'], tol=0.1), 'optimization of unknown hyper-parameter')
    for n in names:
        check(equal(S.getHyperParameterValue(n), start[n]), 'value of {} changes by a rejected optimization'.format(n))
    dsl.run_fit(S, **mode)  # same mode (the backward pass of deterministic models may move all probability off the grid)
    check_log(S.logEvidence, logE, 'log-evidence of another fit after optimization')
    ctx.label('{} hyper-parameters'.format(len(names)), *kinds(tm))
    ctx.nontrivial(changed)


@st.composite
def s_optimize(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'NumPyTable', 'WhiteNoise', 'GaussianMean'), max_n1=8, max_n2=4, units=False))
    c = draw(dsl.cases(om=st.just(om), kinds=SMOOTH, min_len=3, max_len=6))
    n = len(ref.flat_hypers(c['tm']))
    c['tm'] = shuffle_names(c['tm'], draw(st.permutations(range(n))))
    c['runs'] = draw(st.lists(st.tuples(st.lists(st.integers(0, 5), max_size=3, unique=True), st.booleans(),
                                        st.sampled_from(['str', 'list', 'any', 'any'])).map(list), min_size=1, max_size=2))
    c['maxiter'] = draw(st.sampled_from([3, 8, 20]))
    return c


# ------------------------------------------------------------------------------------------- optimization finds maxima

def body_maximum(case, ctx):
    """With a single, clear maximum of the evidence, optimization gets there."""
    om = {'om': 'GaussianMean', 'names': ['x'], 'grids': [{'kind': 'cint', 'a': -10., 'b': 10., 'n': 81}], 'prior': None}
    tm = {'tm': 'GRW', 'names': ['s'], 'values': [case['start']], 'target': 'x'}
    c = {'om': om, 'tm': tm, 'data': [[float(v), 0.5] for v in case['path']]}
    scan = np.array([0.2, 0.4, 0.7, 1.0, 1.4, 1.8, 2.4, 3.1, 4.0])
    E = [make_ref(c, tm=dict(tm, values=[float(s)])).logE for s in scan]
    k = int(np.argmax(E))
    d = np.diff(E)
    if not (np.all(d[:k] > 0.05) and np.all(d[k:] < -0.02)) or k in (0, len(scan) - 1):
        raise Reject()
    S = dsl.study(c, fit=dict(evidenceOnly=True))
    first = S.logEvidence
    with dsl.hush():
        S.optimize(tol=0.01)
    if S.logEvidence < max(E) - 0.1:  # the optimizer of SciPy may end up elsewhere, e.g. at negative values
        from scipy.optimize import minimize
        with dsl.hush():
            x = minimize(lambda v: -make_ref(c, tm=dict(tm, values=[float(v[0])])).logE, [case['start']], method='COBYLA', tol=0.01).x
        if make_ref(c, tm=dict(tm, values=[float(x[0])])).logE < max(E) - 0.05:
            raise Reject()
    check(S.logEvidence >= first - 1e-6 or S.logEvidence >= max(E) - 0.1, 'evidence decreases')
    check(S.logEvidence >= max(E) - 0.1, 'optimization ends at {} with log-evidence {}, but {} has {}'.format(
        S.getHyperParameterValue('s'), S.logEvidence, scan[k], max(E)))
    ctx.nontrivial(first < max(E) - 0.2)


@st.composite
def s_maximum(draw):
    step = draw(st.sampled_from([0.8, 1.2, 1.7]))
    signs = draw(st.lists(st.sampled_from([-1, 1]), min_size=8, max_size=14))
    path = np.clip(np.cumsum(signs) * step, -9., 9.).tolist()
    return {'path': path, 'start': draw(st.sampled_from([0.3, 0.5, 1., 2., 3.]))}


TESTS = [
    Test('read', s_read, body_read, 1500, 10000, 'at least two hyper-parameters'),
    Test('stream', lambda: c11.s_batch(max_len=4), body_stream, 400, 3000, 'transition model with several hyper-parameter values'),
    Test('optimize', s_optimize, body_optimize, 900, 6000, 'optimization changes at least one value'),
    Test('maximum', s_maximum, body_maximum, 120, 800, 'clear maximum away from the starting point'),
]
KNOWN = {}
