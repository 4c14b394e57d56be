"""C20: invalid set-ups and requests are rejected and leave the study usable."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c10, c18
from vf.common import check, check_close, check_log, hyper_ok, kinds
from vf.core import Test, Reject, Violation


def E():
    import bayesloop.exceptions as e
    return e.ConfigurationError, e.PostProcessingError


def rejects(f, errors, what):
    try:
        with dsl.hush():
            r = f()
    except errors as e:
        return e
    except Exception as e:
        raise Violation('{}: raises {!r} instead of {}'.format(what, e, ' or '.join(x.__name__ for x in errors)))
    raise Violation('{} is accepted'.format(what))


# ---------------------------------------------------------------------------------------------- mistakes in model objects

def mistakes(b, k, v):
    """(what, call, error types): model objects that can not be created. v: small integers that vary the mistake."""
    C, P = E()
    import scipy.stats as ss
    import sympy.stats
    x = [0., 1., 2., 3.][:2 + v % 3]
    bp, cp = b.tm.BreakPoint, b.tm.ChangePoint
    st_ = b.tm.Static
    point = lambda n, t: (bp if (v + len(n)) % 2 else cp)(n, t)

    def f1(data, m):
        return m

    def f2(data, m, s):
        return m

    def f3(x, m):
        return m

    def d1(t, a, c=1):
        return a

    def d2(t, a):
        return a

    def d3(a=1, c=1):
        return a

    def d4(t, a=[1, 2]):
        return a * t

    def d5(t, a=[1, 2], c=[0, 1]):
        return a * t
    hi, lo = 5 + v, 5 + v - (v % 4)  # equal or decreasing
    items = [
        ('break-points in wrong order', lambda: b.tm.SerialTransitionModel(st_(), point('a', hi), st_(), point('bb', lo), st_()), (C,)),
        ('break-points in wrong order (lists)', lambda: b.tm.SerialTransitionModel(st_(), point('a', [hi, hi + 4]), st_(), point('bb', [lo, 90]), st_()), (C,)),
        ('break-points in wrong order (third)', lambda: b.tm.SerialTransitionModel(st_(), bp('a', 1), st_(), point('bb', hi), st_(), point('c', lo), st_()), (C,)),
        ('too many break-points', lambda: b.tm.SerialTransitionModel(st_(), point('a', 1), point('bb', 2), st_()), (C,)),
        ('too few break-points', lambda: b.tm.SerialTransitionModel(*([st_(), bp('a', 1)] + [st_()] * (2 + v % 3))), (C,)),
        ('no break-point', lambda: b.tm.SerialTransitionModel(st_(), st_()), (C,)),
        ('no sub-models', lambda: b.tm.SerialTransitionModel(point('a', 1)), (C,)),
        ('combined model with break-point', lambda: b.tm.CombinedTransitionModel(*([st_()] * (v % 3) + [bp('a', v)] + [st_()] * (v % 2))), (C,)),
        ('random walk without target', lambda: b.tm.GaussianRandomWalk('s', 0.1), (C,)),
        ('alpha-stable walk without target', lambda: b.tm.AlphaStableRandomWalk('c', 0.1, 'a', 1.), (C,)),
        ('deterministic model without target', lambda: b.tm.Deterministic(d4), (C,)),
        ('deterministic model with positional argument', lambda: b.tm.Deterministic(d1, target='m'), (C,)),
        ('deterministic model with two positional arguments', lambda: b.tm.Deterministic(d2, target='m'), (C,)),
        ('deterministic model without time', lambda: b.tm.Deterministic(d3, target='m'), (C,)),
        ('deterministic model with too many priors', lambda: b.tm.Deterministic(d4, target='m', prior=[None] * (2 + v % 2)), (C,)),
        ('deterministic model with too few priors', lambda: b.tm.Deterministic(d5, target='m', prior=[None]), (C,)),
        ('no function', lambda: b.om.NumPy(['f', 3, None][v % 3], 'm', x), (C,)),
        ('function with too many parameters', lambda: b.om.NumPy(f2, 'm', x), (C,)),
        ('function with too few parameters', lambda: b.om.NumPy(f1, 'm', x, 's', x), (C,)),
        ('function without parameter values', lambda: b.om.NumPy(f1), (C,)),
        ('function without data', lambda: b.om.NumPy(f3, 'm', x), (C,)),
        ('no SciPy distribution', lambda: b.om.SciPy([f1, 'norm', 3][v % 3], 'loc', x), (C,)),
        ('unknown parameter of SciPy distribution', lambda: b.om.SciPy(ss.norm, *(['loc', x, 'scal', x] if v % 2 else ['mu', x])), (C,)),
        ('fixed parameter of SciPy distribution', lambda: b.om.SciPy(ss.norm, 'loc', x, 'scale', x, fixedParameters={'loc': 0}), (C,)),
        ('no SymPy distribution', lambda: b.om.SymPy([f1, 'norm', 3][v % 3], 'loc', x), (C,)),
        ('unknown parameter of SymPy distribution', lambda: b.om.SymPy(sympy.stats.Normal('n', 0, sympy.Symbol('s', positive=True)), 'sigma', x,
                                                                       determineJeffreysPrior=False), (C,)),
        ('unknown argument', lambda: b.om.NumPy(f1, 'm', x, priors=None), (TypeError,)),
        ('unknown argument', lambda: b.om.SciPy(ss.norm, 'loc', x, 'scale', x, pior=None), (TypeError,)),
        ('no study', lambda: b.Parser(), (C,)),
    ]
    return items[k % len(items)]


def body_objects(case, ctx):
    b = dsl.bl()
    what, call, errors = mistakes(b, case['k'], case['v'])
    rejects(call, errors, what)
    ctx.label(what)
    ctx.nontrivial()


@st.composite
def s_objects(draw):
    return {'k': draw(st.integers(0, 28)), 'v': draw(st.integers(0, 11))}


# ------------------------------------------------------------------------------------------------------ mistakes in fits

def with_bad_prior(om, v):
    """Observation model with an invalid prior."""
    import sympy
    import sympy.stats
    o = dict(om, prior=None)
    shape = [len(ref.grid_values(g)) for g in om['grids']]
    L = dsl.build_om(o)
    free = sympy.Symbol('q', positive=True)
    n = len(shape)
    rv = lambda i: sympy.stats.Normal('rv{}'.format(i), 1, 2)
    bad = [lambda: np.ones([s + 1 for s in shape]), lambda: np.ones(shape[0] + 2), lambda: np.ones(shape + [2]),
           lambda: np.ones([s + (i == n - 1) for i, s in enumerate(shape)]),
           lambda: [rv(i) for i in range(n + 1)], lambda: [rv(i) for i in range(n - 1)] if n > 1 else [],
           lambda: [rv(i) for i in range(n - 1)] + [sympy.stats.Normal('r', free, 1)],
           lambda: [rv(i) for i in range(n - 1)] + [3.], lambda: [1.] * n,
           # arrays with the right number of values
           lambda: np.ones(shape[::-1]) if shape != shape[::-1] else np.ones(shape + [1]),
           lambda: np.arange(1., 1. + np.prod(shape)) if n > 1 else np.ones([1] + shape)][v % 11]()
    return ('prior ' + repr(bad)[:60]), bad


def rebuild(om, prior):
    """Observation model with this prior (given as an object)."""
    orig = dsl.build_prior
    dsl.build_prior = lambda o, s: prior
    try:
        return dsl.build_om(dict(om, prior={'object': 1}))
    finally:
        dsl.build_prior = orig


def bad_hyper_prior(tm, v):
    """Transition model with an invalid hyper-prior; None if there is no list of hyper-parameter values."""
    import sympy
    import sympy.stats
    tm = copy.deepcopy(tm)
    todo = [(m, i) for m in ref.leaves(tm) for i, x in enumerate(m.get('values', [])) if isinstance(x, list) and len(x) > 1]
    if not todo:
        return None
    m, i = todo[v % len(todo)]
    n = len(m['values'][i])

    def failing(x):
        raise ValueError('no prior')

    def failing2(x):
        return 'a'
    bad = [np.ones(n + 1), np.ones(n - 1) if n > 2 else np.ones(n + 2), sympy.stats.Normal('r', sympy.Symbol('q'), 1), failing, failing2][v // 3 % 5]
    pr = list(m.get('priors') or [None] * len(m['values']))
    pr[i] = {'bad': True}
    m['priors'] = pr
    orig = dsl.hyper_prior
    dsl.hyper_prior = lambda p, j=0: bad if isinstance(p, dict) and 'bad' in p else orig(p, j)
    try:
        return dsl.build_tm(tm)
    finally:
        dsl.hyper_prior = orig


def duplicate(tm, v):
    """Two hyper-parameters with the same name."""
    tm = copy.deepcopy(tm)
    named = [(m, i) for m in ref.leaves(tm) for i in range(len(m.get('names', [])))]
    if len(named) < 2:
        return None
    a = v % len(named)
    c = (a + 1 + v % (len(named) - 1)) % len(named)
    if named[a][0] is named[c][0] and named[a][0]['tm'] == 'Det':
        return None  # not possible in Python
    named[c][0]['names'][named[c][1]] = named[a][0]['names'][named[a][1]]
    return tm


def results(S, case):
    return c18.results(S, case['cls'], case['tm'], {})


def body_fits(case, ctx):
    """A mistake before a fit; the corrected study works like a new one."""
    b = dsl.bl()
    C, P = E()
    if case.get('skip'):
        raise Reject()
    cls, tm, om, v = case['cls'], case['tm'], case['om'], case['v']
    if cls == 'Study':
        tm = case['tm'] = dsl.scalar_tm(tm)
    elif cls == 'ChangepointStudy':
        if c10.size(case) > 30 or not c10.first_values(tm):
            raise Reject()
    else:
        n = 1
        for _, x, _ in ref.flat_hypers(tm):
            n *= len(x) if isinstance(x, list) else 1
        if n > 8 or not hyper_ok(tm):
            raise Reject()
    F = dsl.study(case, cls)
    try:
        dsl.run_fit(F)
    except C:
        raise Reject()
    if not np.isfinite(F.logEvidence):
        raise Reject()
    want = results(F, case)

    with dsl.hush():
        S = getattr(b, cls)(silent=True)
    data, ts = dsl.build_data(case), case.get('ts')
    L, T = dsl.build_om(om), dsl.build_tm(tm)
    kind = case['kind']
    mode = [{}, {'forwardOnly': True}, {'evidenceOnly': True}][v % 3]
    fit = lambda: S.fit(silent=True, **mode)

    def setup(d=True, o=True, t=True):
        with dsl.hush():
            if d:
                S.load(data, timestamps=ts, silent=True)
            if o:
                S.set(L, silent=True)
            if t:
                S.set(T, silent=True)
    if case['fitted']:  # an earlier, valid fit
        setup()
        dsl.run_fit(S)
    if kind == 'missing':
        if case['fitted']:
            raise Reject()
        parts = [v & 1, v & 2, v & 4]
        if all(parts) or not any(parts) and False:
            raise Reject()
        setup(*[bool(p) for p in parts])
        rejects(fit, (C,), 'fit without {}'.format([n for n, p in zip(['data', 'observation model', 'transition model'], parts) if not p]))
        setup(*[not p for p in parts])
    elif kind == 'prior':
        what, bad = with_bad_prior(om, v)
        setup()
        with dsl.hush():
            S.set(rebuild(om, bad), silent=True)
        rejects(fit, (C,), what)
        setup(False, True, False)
    elif kind == 'hyper-prior':
        if cls == 'Study':
            raise Reject()
        with dsl.hush():
            bad = bad_hyper_prior(tm, v)
        if bad is None:
            raise Reject()
        setup()
        with dsl.hush():
            S.set(bad, silent=True)
        rejects(fit, (C,), 'invalid hyper-prior')
        setup(False, False, True)
    elif kind == 'duplicate':
        bad = duplicate(tm, v)
        if bad is None:
            raise Reject()
        setup()
        with dsl.hush():
            S.set(dsl.build_tm(bad), silent=True)
        rejects(fit, (C,), 'duplicate names of hyper-parameters')
        setup(False, False, True)
    elif kind == 'interrupted':
        if np.sum([not np.any(np.isnan(np.asarray(x, float))) for x in data]) <= v % 4:  # the likelihood is not used for missing data
            raise Reject()
        if ref.SEGMENT.get(om['om'], 1) > 1 and any(v == 'all' for _, v, _ in ref.flat_hypers(tm)):
            raise Reject()  # the substitute uses one data point per time step: another number of change-point times
        setup()
        w = c18.World.__new__(c18.World)
        with dsl.hush():
            S.set(c18.World._interrupted(w, om, v % 4), silent=True)
        rejects(lambda: S.fit(silent=True), (RuntimeError,), 'interrupted fit')
        setup(False, True, False)
    elif kind == 'set':
        setup()
        calls = [('break-point', lambda: S.set(b.tm.BreakPoint('tbb', 3), silent=True), (C,)),
                 ('break-point', lambda: S.setTM(b.tm.BreakPoint('tbb', 3), silent=True), (C,)),
                 ('number as model', lambda: S.set([3, 'a', None, np.ones(3)][v % 4], silent=True), (C,)),
                 ('two observation models', lambda: S.set(b.om.Poisson('zz', [1., 2.]), b.om.Poisson('zz', [1., 2.]), silent=True), (C,)),
                 ('two transition models', lambda: S.set(b.tm.Static(), b.tm.Independent(), silent=True), (C,)),
                 ('unknown argument', lambda: S.set(b.tm.Static(), silet=True), (TypeError,)),
                 ('data of wrong type', lambda: S.load(['abc', 3, None, {1: 2}, (1, 2)][v % 5]), (C,)),
                 ('grid that can not be estimated', lambda: S.set(b.om.SciPy(__import__('scipy.stats').stats.norm), silent=True), (C,)),
                 ('grid that can not be estimated', lambda: S.set(b.om.NumPy(_like, 'm', None), silent=True), (C,))]
        what, f, errors = calls[v % len(calls)]
        rejects(f, errors, what)
    else:
        raise ValueError(kind)
    try:
        dsl.run_fit(S)
    except Exception as e:
        raise Violation('fit fails with {!r} after a rejected call ({})'.format(e, kind))
    c18.compare(want, results(S, case), 'study after a rejected call ({}) versus new study'.format(kind))
    ctx.label(kind, cls)
    ctx.nontrivial()


def _like(data, m):
    return m


@st.composite
def s_fits(draw):
    cls = draw(st.sampled_from(['Study', 'HyperStudy', 'HyperStudy', 'ChangepointStudy']))
    if cls == 'ChangepointStudy':
        c = draw(c10.s_points(max_points=2))
    else:
        om = draw(dsl.oms(kinds=('Poisson', 'Bernoulli', 'Gaussian', 'Laplace', 'AR1', 'WhiteNoise', 'NumPyTable'), max_n1=5, max_n2=3))
        c = draw(dsl.cases(om=st.just(om), multi='more', priors=True, max_values=2, max_len=4, min_len=2))
    c['cls'] = cls
    c['kind'] = draw(st.sampled_from(['missing', 'prior', 'hyper-prior', 'duplicate', 'interrupted', 'set', 'set']))
    c['v'] = draw(st.integers(0, 40))
    c['fitted'] = draw(st.booleans())
    return c


# ---------------------------------------------------------------------------------------------------- mistakes in queries

def body_queries(case, ctx):
    """Requests that make no sense, before or after a fit; results are not changed."""
    b = dsl.bl()
    C, P = E()
    if case.get('skip'):
        raise Reject()
    cls, tm, om, v = case['cls'], case['tm'], case['om'], case['v']
    if cls == 'Study':
        tm = case['tm'] = dsl.scalar_tm(tm)
    elif cls == 'ChangepointStudy':
        if c10.size(case) > 30 or not c10.first_values(tm):
            raise Reject()
    else:
        n = 1
        for _, x, _ in ref.flat_hypers(tm):
            n *= len(x) if isinstance(x, list) else 1
        if n > 8 or not hyper_ok(tm):
            raise Reject()
    S = dsl.study(case, cls)
    n = om['names'][v % len(om['names'])]
    p = c18.plt()
    if not case['fitted']:
        t = (case.get('ts') or list(range(len(case['data']))))[-1]
        calls = [lambda: S.getPD(t, n), lambda: S.getPDs(n), lambda: S.plot(n), lambda: S.getPD('avg', n), lambda: S.plot(n, t=t)]
        rejects(calls[v % len(calls)], (C, P), 'request {} before fit'.format(v % len(calls)))
        p.close('all')
    try:
        dsl.run_fit(S)
    except C:
        raise Reject()
    if not np.isfinite(S.logEvidence):
        raise Reject()
    before = results(S, case)
    ts = dsl.seg_ts(om, len(case['data']), case.get('ts'))
    used = set(om['names']) | set(x for x, _, _ in ref.flat_hypers(tm))
    other = [x for x in ['nosuch', n + 'x', n[:-1], '', n.upper() + '_', 'log'] if x not in used][v % 3]
    bad = [x for x in [ts[-1] + 1, ts[0] - 1, ts[0] + 0.1, 10 ** 6] if x not in ts][v % 4 % 3]
    hyp = [x for x, _, _ in ref.flat_hypers(tm)]
    calls = [
        ('PD of unknown parameter', lambda: S.getPD(ts[0], other), (P,)),
        ('PDs of unknown parameter', lambda: S.getPDs(other), (P,)),
        ('means of unknown parameter', lambda: S.getParameterMeanValues(other), (P,)),
        ('PD at unknown time', lambda: S.getPD(bad, n), (P,)),
        ('simulation at unknown time', lambda: S.simulate([1, 0], t=bad), (P, NotImplementedError)),
        ('unknown hyper-parameter', lambda: S.getHyperParameterValue(other), (P, C)),
        ('plot of unknown parameter', lambda: S.plot(other), (P, C)),
        ('plot at unknown time', lambda: S.plot(n, t=bad), (P, C)),
        ('evolution of unknown parameter', lambda: S.plotParameterEvolution(other), (P,)),
        ('evolution of hyper-parameter', lambda: S.plotParameterEvolution(hyp[0] if hyp else other), (P,)),
        ('parameter index', lambda: S.getPD(ts[0], len(om['names']) + v), (P,)),
    ]
    if cls == 'Study':
        calls += [('optimization of unknown hyper-parameter', lambda: S.optimize([other]), (C,)),
                  ('optimization of parameter', lambda: S.optimize(n), (C,))]
        if hyp:
            calls += [('optimization of known and unknown hyper-parameter', lambda: S.optimize([hyp[0], other]), (C,)),
                      ('optimization of unknown and known hyper-parameter', lambda: S.optimize([other, hyp[-1]]), (C,))]
    else:
        calls += [('optimization', lambda: S.optimize(), (NotImplementedError,)),
                  ('HPD of unknown hyper-parameter', lambda: S.getHPD(other), (P,)),
                  ('HPD of parameter', lambda: S.getHPD(n), (P,)),
                  ('joint HPD of one hyper-parameter', lambda: S.getJHPD([hyp[0]]), (P,)) if hyp else calls[0],
                  ('joint HPD of three hyper-parameters', lambda: S.getJHPD([hyp[0]] * 3), (P,)) if hyp else calls[0],
                  ('joint HPD of unknown hyper-parameter', lambda: S.getJHPD([hyp[0], other]), (P,)) if hyp else calls[0]]
    if cls == 'ChangepointStudy':
        calls += [('duration of one change-point', lambda: S.getDD(hyp[:1]), (P,)),
                  ('duration of three change-points', lambda: S.getDD([hyp[0]] * 3), (P,)),
                  ('duration of unknown change-point', lambda: S.getDD([hyp[0], other]), (P, C))]
    for k in case['calls']:
        what, f, errors = calls[k % len(calls)]
        p.close('all')
        rejects(f, errors, what)
        ctx.label(what)
    p.close('all')
    c18.compare(before, results(S, case), 'results after rejected requests')
    dsl.run_fit(S)
    c18.compare(before, results(S, case), 'fit after rejected requests')
    ctx.label(cls)
    ctx.nontrivial(len(case['calls']) > 0)


@st.composite
def s_queries(draw):
    c = draw(s_fits())
    c['calls'] = draw(st.lists(st.integers(0, 40), min_size=1, max_size=4))
    return c


# ------------------------------------------------------------------------------------------------- mistakes in structures

def body_structures(case, ctx):
    """Models that have no meaning for a certain type of study."""
    b = dsl.bl()
    C, P = E()
    v = case['v']
    ts = case['ts']
    cp = lambda n, x: {'tm': 'CP', 'names': [n], 'values': [x]}
    br = lambda n, x: {'tm': 'Break', 'names': [n], 'values': [x]}
    st_, rw = {'tm': 'Static'}, {'tm': 'GRW', 'names': ['s'], 'values': [[0.1, 0.3]], 'target': 'm'}
    ser = lambda a, x: {'tm': 'Serial', 'parts': [st_, br(a, x), rw if v % 2 else st_]}
    inner = ts[:-1]
    kinds_ = [
        ('ChangepointStudy without change-points', 'ChangepointStudy', rw if v % 2 else {'tm': 'Comb', 'models': [st_, rw]}, (C,)),
        ('ChangepointStudy with both types of points', 'ChangepointStudy', {'tm': 'Comb', 'models': [cp('tc', inner), ser('tb', inner)][::1 - 2 * (v % 2)]},
         (NotImplementedError,)),
        ('ChangepointStudy with two serial models', 'ChangepointStudy', {'tm': 'Comb', 'models': [ser('tb', inner), ser('tb2', inner) if v % 2 == 0 else
                                                                                                 {'tm': 'Serial', 'parts': [st_, br('tb2', inner), st_]}]},
         (NotImplementedError,)),
        ('change-points in wrong order', 'ChangepointStudy', {'tm': 'Comb', 'models': [cp('t1', [inner[-1]]), cp('t2', inner[:1 + v % len(inner)])]}
         if v % 2 else {'tm': 'Comb', 'models': [cp('t1', [inner[-1]]), cp('t2', [inner[0]]), cp('t3', inner)]}, (C,)),
        ('overlapping change-points in HyperStudy', 'HyperStudy', {'tm': 'Comb', 'models': [cp('t1', inner), cp('t2', inner)] + ([rw] if v % 2 else [])},
         (C,)),
        ('overlapping break-points in HyperStudy', 'HyperStudy', {'tm': 'Serial', 'parts': [st_, br('t1', inner), st_, br('t2', ['x'] and
                                                                                                                         [inner[0] + 1] + inner), st_]}
         if False else {'tm': 'Comb', 'models': [cp('t1', inner[:1 + v % len(inner)]), rw, cp('t2', inner[v % len(inner)])]}, (C,)),
    ]
    what, cls, tm, errors = kinds_[case['k'] % len(kinds_)]
    om = {'om': 'Poisson', 'names': ['m'], 'grids': [{'kind': 'oint', 'a': 0., 'b': 6., 'n': 5}], 'prior': 'default'}
    c = {'om': om, 'tm': tm, 'data': case['data'], 'ts': ts, 'cls': cls}
    S = dsl.study(c, cls)
    rejects(lambda: S.fit(silent=True), errors, what)
    good = dict(c, tm=cp('tg', inner) if v % 3 else {'tm': 'Comb', 'models': [cp('tg', inner), rw]})
    F = dsl.study(good, cls, fit={})
    with dsl.hush():
        S.set(dsl.build_tm(good['tm']), silent=True)
        S.fit(silent=True)
    c18.compare(results(F, good), results(S, good), 'study after a rejected model ({})'.format(what))
    ctx.label(what)
    ctx.nontrivial()


@st.composite
def s_structures(draw):
    n = draw(st.integers(4, 6))
    d = draw(st.lists(st.integers(0, 6), min_size=n, max_size=n))
    ts = draw(dsl.timestamps(n)) or list(range(n))
    return {'data': d, 'ts': ts, 'k': draw(st.integers(0, 5)), 'v': draw(st.integers(0, 11))}


# ------------------------------------------------------------------------------------------------------- on-line studies

def body_online(case, ctx):
    b = dsl.bl()
    C, P = E()
    om, tms, v = case['om'], case['tms'], case['v']
    from vf.checks import c11
    c11.usable(case, 12)
    hist = bool(v % 2)
    F = dsl.online(om, [('m{}'.format(i), t) for i, t in enumerate(tms)], hist)
    pts = dsl.data_points(case)
    seg = ref.SEGMENT.get(om['om'], 1)
    with dsl.hush():
        S = b.OnlineStudy(storeHistory=hist, silent=True)
        add = lambda: [S.add('m{}'.format(i), dsl.build_tm(t)) for i, t in enumerate(tms)]
        kind = case['kind']
        if kind == 'no model':
            S.set(dsl.build_om(om), silent=True)
            rejects(lambda: S.step(pts[0]), (C,), 'step without transition model')
            add()
        elif kind == 'no observation model':
            add()
            rejects(lambda: S.step(pts[0]), (C,), 'step without observation model')
            S.set(dsl.build_om(om), silent=True)
        elif kind == 'prior':
            what, bad = with_bad_prior(om, v)
            S.set(rebuild(om, bad), silent=True)
            add()
            if seg == 1:
                rejects(lambda: S.step(pts[0]), (C,), what)
            S.set(dsl.build_om(om), silent=True)
        elif kind == 'hyper-prior':
            S.set(dsl.build_om(om), silent=True)
            bad = bad_hyper_prior(tms[v % len(tms)], v)
            if bad is not None:
                rejects(lambda: S.add('bad', bad), (C,), 'invalid hyper-prior')
            add()
        elif kind == 'break-point':
            S.set(dsl.build_om(om), silent=True)
            rejects(lambda: S.add('bad', b.tm.BreakPoint('tb', 3)), (C,), 'break-point')
            add()
        elif kind == 'prior of models':
            S.set(dsl.build_om(om), silent=True)
            add()
            rejects(lambda: S.setTransitionModelPrior([1. / (len(tms) + 1)] * (len(tms) + 1), silent=True), (C,), 'prior for too many transition models')
        elif kind == 'fit':
            S.set(dsl.build_om(om), silent=True)
            add()
            rejects(lambda: S.fit(), (NotImplementedError,), 'fit')
        elif kind == 'duplicate':
            names = [n for n, _, _ in ref.flat_hypers(tms[0])]
            if not names:
                raise Reject()
            D = b.OnlineStudy(silent=True)
            D.set(dsl.build_om(om), silent=True)
            for i, t in enumerate(list(tms) + [{'tm': 'Regime', 'names': [names[v % len(names)]], 'values': [[-3., -2.]]}]):
                D.add('m{}'.format(i), dsl.build_tm(t))
            rejects(lambda: D.step(pts[0]), (C,), 'duplicate names of hyper-parameters')
            S.set(dsl.build_om(om), silent=True)
            add()
        elif kind == 'interrupted':
            S.set(dsl.build_om(om), silent=True)
            add()
    good = list(pts)
    for i, x in enumerate(pts):
        dsl.step(F, x)
        if kind == 'interrupted' and i == v % len(pts):
            # a data point that can not be processed
            if i < seg - 1:
                raise Reject()
            rejects(lambda: S.step('abc' if v % 3 else object()), (Exception,), 'invalid data point')
        dsl.step(S, x)
    if len(pts) < seg:
        raise Reject()
    a, c = dsl.online_moments(F), dsl.online_moments(S)
    if not np.isfinite(a['logE']):
        raise Reject()
    for k in ('post', 'tmd', 'local', 'tmpost', 'logE'):
        check_close(c[k], a[k], '{} after a rejected call ({})'.format(k, kind), 1e-9, 1e-12)
    for x, y in zip(c['hyper'], a['hyper']):
        check_close(x, y, 'hyper-parameters after a rejected call ({})'.format(kind), 1e-9, 1e-12)
    check(list(S.formattedTimestamps) == list(F.formattedTimestamps), 'time stamps after a rejected call ({}): {}'.format(kind, S.formattedTimestamps))
    if hist:
        check_close(S.posteriorSequence, F.posteriorSequence, 'history after a rejected call ({})'.format(kind), 1e-9, 1e-12)
        rejects(lambda: S.getPD(999, om['names'][0]), (P,), 'unknown time')
    else:
        rejects(lambda: S.getPDs(om['names'][0]), (P,), 'history that is not stored')
    rejects(lambda: S.getCPD('nosuch'), (P,), 'unknown parameter')
    rejects(lambda: S.getCHPD('nosuch'), (P,), 'unknown hyper-parameter')
    n, hyp = om['names'][v % len(om['names'])], [x for t in tms for x, _, _ in ref.flat_hypers(t)]
    other = [x for x in [n + 'x', n[:-1], 'nosuch', 'none'] if x not in om['names'] + hyp][v % 2]
    t = S.formattedTimestamps[-1]
    calls = [('PD of unknown parameter', lambda: S.getPD(t, other)), ('PDs of unknown parameter', lambda: S.getPDs(other)),
             ('CPD of unknown parameter', lambda: S.getCPD(other)), ('current mean of unknown parameter', lambda: S.getCurrentParameterMeanValue(other)),
             ('mean of unknown parameter', lambda: S.getParameterMeanValue(t, other)),
             ('means of unknown parameter', lambda: S.getParameterMeanValues(other)),
             ('evolution of unknown parameter', lambda: S.plotParameterEvolution(other)),
             ('HPD of unknown hyper-parameter', lambda: S.getHPD(t, other)), ('HPDs of unknown hyper-parameter', lambda: S.getHPDs(other)),
             ('CHPD of unknown hyper-parameter', lambda: S.getCHPD(other)), ('CHPD of parameter', lambda: S.getCHPD(n)),
             ('mean of unknown hyper-parameter', lambda: S.getHyperParameterMeanValue(t, other)),
             ('means of unknown hyper-parameter', lambda: S.getHyperParameterMeanValues(other)),
             ('evolution of unknown hyper-parameter', lambda: S.plotHyperParameterEvolution(other)),
             ('evolution of parameter as hyper-parameter', lambda: S.plotHyperParameterEvolution(n)),
             ('PD at unknown time', lambda: S.getPD(t + 1, n)), ('mean at unknown time', lambda: S.getParameterMeanValue(t + 1, n)),
             ('mean at unknown time', lambda: S.getParameterMeanValue(-1, n)), ('PD at unknown time', lambda: S.getPD(-1, n))]
    if hyp:
        calls += [('HPD at unknown time', lambda: S.getHPD(t + 1, hyp[0])), ('hyper-mean at unknown time', lambda: S.getHyperParameterMeanValue(t + 1, hyp[0])),
                  ('HPD at unknown time', lambda: S.getHPD(-1, hyp[0])), ('evolution of hyper-parameter as parameter', lambda: S.plotParameterEvolution(hyp[0]))]
    p = c18.plt()
    for k in range(3):
        what, f = calls[(v * 3 + k * 7 + len(pts)) % len(calls)]
        rejects(f, (P,), what + (' (on-line)' if hist else ' (on-line, no history)'))
        p.close('all')
    for f, what in ((lambda: S.getCTMP(other), 'probability of unknown transition model'), (lambda: S.getTMPs(other), 'probabilities of unknown transition model')):
        rejects(f, (Exception,), what)
    d = dsl.online_moments(S)
    for k in ('post', 'tmd', 'local', 'logE'):
        check_close(d[k], c[k], '{} after rejected requests'.format(k), 0, 0)
    ctx.label(kind)
    ctx.nontrivial(len(pts) > 1)


@st.composite
def s_online(draw):
    from vf.checks import c11
    c = draw(c11.s_batch(max_len=4, min_len=2))
    c.pop('set', None)
    c.pop('prior', None)
    c['v'] = draw(st.integers(0, 40))
    c['kind'] = draw(st.sampled_from(['no model', 'no observation model', 'prior', 'hyper-prior', 'break-point', 'prior of models', 'fit', 'duplicate',
                                      'interrupted']))
    return c


# ------------------------------------------------------------------------------------------- wrong number of time stamps

def body_stamps(case, ctx):
    """Time stamps that do not belong to the data are omitted (documented), also if valid time stamps have been used before."""
    b = dsl.bl()
    data = dsl.build_data(case)
    wrong = [float(v) for v in case['wrong'][:max(0, len(data) + case['diff'])]]
    arg = {'list': list, 'tuple': tuple, 'array': np.array}[case['form']](wrong)
    with dsl.hush():
        S, F = [getattr(b, case['cls'])(silent=True) for _ in range(2)]
        if case['before']:
            S.load(data, timestamps=case['wrong'][:len(data)], silent=True)
        S.load(data, timestamps=arg, silent=case['silent'])
        F.load(data, silent=True)
        for X in (S, F):
            X.set(dsl.build_om(case['om']), dsl.build_tm(case['tm']), silent=True)
            X.fit(silent=True)
    check(list(S.formattedTimestamps) == list(F.formattedTimestamps) and len(S.formattedTimestamps) <= len(data),
          'time stamps with {} supplied for {} data points: {}'.format(len(wrong), len(data), S.formattedTimestamps))
    if np.isfinite(F.logEvidence):
        check_log(S.logEvidence, F.logEvidence, 'log-evidence with omitted time stamps')
        check_close(S.posteriorSequence, F.posteriorSequence, 'distributions with omitted time stamps')
    ctx.label(case['cls'], case['form'], 'too few' if case['diff'] < 0 else 'too many')
    ctx.nontrivial(len(data) > 1)


@st.composite
def s_stamps(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'NumPyTable', 'AR1'), max_n1=6, max_n2=4, units=False))
    c = draw(dsl.cases(om=st.just(om), multi=draw(st.booleans()), kinds=('Static', 'GRW', 'Regime', 'Det'), max_values=2, max_len=6, stamps=False,
                       nested=False, long=False))
    c['cls'] = draw(st.sampled_from(['Study', 'HyperStudy'])) if not any(isinstance(v, list) for _, v, _ in ref.flat_hypers(c['tm'])) else 'HyperStudy'
    n = len(c['data'])
    c['diff'] = draw(st.sampled_from([-2, -1, 1, 2, 5]))
    start, step = draw(st.sampled_from([[5, 3], [0.5, 0.25], [-3, 1], [2000, -1], [1, 2]]))
    c['wrong'] = [start + step * i for i in range(n + 5)]
    c['form'] = draw(st.sampled_from(['list', 'tuple', 'array']))
    c['before'], c['silent'] = draw(st.booleans()), draw(st.booleans())
    return c


TESTS = [
    Test('stamps', s_stamps, body_stamps, 600, 5000, 'more than one data point'),
    Test('objects', s_objects, body_objects, 250, 2000, 'all'),
    Test('fits', s_fits, body_fits, 700, 10000, 'all that are not rejected as set-up'),
    Test('queries', s_queries, body_queries, 350, 5000, 'all that are not rejected as set-up'),
    Test('structures', s_structures, body_structures, 120, 1500, 'all'),
    Test('online', s_online, body_online, 350, 5000, 'more than one data point'),
]
KNOWN = {}
