"""C21: intervals, estimated grids and Jeffreys priors."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import check, check_close, check_log, match
from vf.core import Test, Reject, Violation
from vf.dsl import num


# --------------------------------------------------------------------------------------------------------------- intervals

def body_intervals(case, ctx):
    b = dsl.bl()
    a, c, n = case['a'], case['b'], case['n']
    o, k = np.asarray(b.oint(a, c, n)), np.asarray(b.cint(a, c, n))
    width, scale = c - a, max(abs(a), abs(c))
    check(o.shape == (n,), 'oint({}, {}, {}) has shape {}'.format(a, c, n, o.shape))
    check(k.shape == (n,), 'cint({}, {}, {}) has shape {}'.format(a, c, n, k.shape))
    tol = 1e-12 * scale
    check(bool(np.all((o - a) * np.sign(width) > 0) and np.all((c - o) * np.sign(width) > 0)), 'oint({}, {}, {}) contains a boundary'.format(a, c, n))
    check_close(np.concatenate([[a], o, [c]]), a + width * np.arange(n + 2) / (n + 1.), 'oint({}, {}, {})'.format(a, c, n), 1e-12, tol)
    check(float(k[0]) == a, 'cint({}, {}, {}) does not contain the left boundary'.format(a, c, n))
    if n > 1:
        check(float(k[-1]) == c, 'cint({}, {}, {}) does not contain the right boundary'.format(a, c, n))
        check_close(k, a + width * np.arange(n) / (n - 1.), 'cint({}, {}, {})'.format(a, c, n), 1e-12, tol)
    ctx.label('descending' if width < 0 else 'ascending', 'one value' if n == 1 else 'several values')
    ctx.nontrivial(n > 1)


@st.composite
def s_intervals(draw):
    x = st.one_of(st.integers(-20, 20), num(-50., 50.), st.sampled_from([0, 1e-6, 1e6, -1e6, 1e-3, 0.1, 1. / 3]))
    a, c = draw(x), draw(x)
    if abs(a - c) < 1e-9 * max(abs(a), abs(c), 1e-3):
        c = a + draw(st.sampled_from([1, -2, 0.3]))
    return {'a': a, 'b': c, 'n': draw(st.one_of(st.integers(1, 12), st.sampled_from([50, 101, 1000])))}


# ---------------------------------------------------------------------------------------------------------- estimated grids

MODELS = {  # name -> default names of the parameters
    'Bernoulli': ['p'], 'Poisson': ['lambda'], 'Gaussian': ['mean', 'std'], 'Laplace': ['mean', 'scale'], 'GaussianMean': ['mean'], 'WhiteNoise': ['std'],
    'AR1': ['correlation coefficient', 'noise amplitude'], 'ScaledAR1': ['correlation coefficient', 'standard deviation']}


def expected_ranges(model, data):
    """(lower boundary, upper boundary, boundaries are included) for each parameter"""
    d = np.asarray(data, dtype=float)
    if model == 'GaussianMean':
        m = d[:, 0]
        m = m[~np.isnan(m)]
        w = max(m) - min(m)
        return [(min(m) - w, max(m) + w, False)]
    d = d[~np.isnan(d)]
    mean, std = sum(d) / len(d), ref.np.sqrt(sum((d - sum(d) / len(d)) ** 2) / len(d))
    return {'Bernoulli': [(0., 1., False)], 'Poisson': [(0., 1.25 * max(d), False)],
            'Gaussian': [(mean - 2 * std, mean + 2 * std, True), (0., 2 * std, False)],
            'Laplace': [(mean - 2 * std, mean + 2 * std, True), (0., np.sqrt(2) * std, False)],
            'WhiteNoise': [(0., 2 * std, False)],
            'AR1': [(-1., 1., False), (0., 2 * std, False)], 'ScaledAR1': [(-1., 1., False), (0., 2 * std, False)]}[model]


def to_array(data, ints):
    d = np.array([[np.nan if x is None else x for x in row] if isinstance(row, list) else (np.nan if row is None else row) for row in data], dtype=float)
    if ints and not np.any(np.isnan(d)):
        return d.astype(int)
    return d


def make(model, names, grids, **kw):
    b = dsl.bl()
    args = []
    for n, g in zip(names, grids):
        args += [n, g]
    if kw.pop('bare', False):
        return getattr(b.om, model)(**kw)
    return getattr(b.om, model)(*args, **kw)


def explicit(model, lo, hi, inc, n):
    b = dsl.bl()
    return b.cint(lo, hi, n) if inc else b.oint(lo, hi, n)


def body_grids(case, ctx):
    b = dsl.bl()
    model = case['model']
    data = to_array(case['data'], case['ints'] and model != 'GaussianMean')
    c2 = case['scale']
    names = case['names'] or MODELS[model]
    try:
        with np.errstate(all='raise'):
            want = expected_ranges(model, data)
    except (ValueError, ZeroDivisionError, FloatingPointError):
        raise Reject()
    if any(hi - lo < 1e-3 for lo, hi, _ in want):
        raise Reject()
    given = [np.linspace(0.3, 0.9, 4) if not w else None for w in case['estimate'][:len(names)]]
    if all(g is not None for g in given):
        raise Reject()
    bare = not case['names'] and all(g is None for g in given)
    with dsl.hush():
        S = b.Study(silent=True)
        L = make(model, names, given, bare=bare)
        if case['before'] is not None:  # the same model object was used with other data before
            d0 = to_array(case['before'], False)
            try:
                S.load(d0, silent=True)
                S.set(L, silent=True)
            except Exception:
                raise Reject()
        S.load(data, silent=True)
        S.set(L, b.tm.Static(), silent=True)
    grid = S.marginalGrid
    check(list(S.observationModel.parameterNames) == list(names), 'names of parameters: {}'.format(S.observationModel.parameterNames))
    check(len(grid) == len(names), '{} grids for {} parameters'.format(len(grid), len(names)))
    full = []
    for n, x, g, (lo, hi, inc) in zip(names, grid, given, want):
        x = np.asarray(x)
        if g is not None:
            check_close(x, g, 'given grid of {}'.format(n))
            full.append(g)
            continue
        what = 'estimated grid of {} ({}) for {}'.format(n, model, case['data'])
        check(len(x) >= 100, what + ' has {} values only'.format(len(x)))
        check(bool(np.all(np.isfinite(x))), what + ' contains invalid values')
        d = np.diff(x)
        check(bool(np.all(d > 0)), what + ' is not increasing')
        check_close(d, np.mean(d) * np.ones(len(d)), what + ' is not regular', 1e-6, 1e-9)
        a, e = (x[0], x[-1]) if inc else (x[0] - d[0], x[-1] + d[-1])
        check_close([a, e], [lo, hi], what + ': boundaries', 1e-7, 1e-7 * (hi - lo))
        if not inc:
            check(x[0] > lo and x[-1] < hi, what + ' contains its boundaries')
        full.append(explicit(model, lo, hi, inc, len(x)))
    # the study can be used, just like with these values given by hand
    dsl.run_fit(S, forwardOnly=True)
    with dsl.hush():
        R = b.Study(silent=True)
        R.load(data, silent=True)
        R.set(make(model, names, full), b.tm.Static(), silent=True)
    dsl.run_fit(R, forwardOnly=True)
    check(np.isfinite(S.logEvidence) or model in ('Poisson', 'Bernoulli'), 'log-evidence is {}'.format(S.logEvidence))
    check_log(S.logEvidence, R.logEvidence, 'log-evidence with estimated grid', 1e-6)
    if np.isfinite(S.logEvidence):
        check_close(np.sum(S.posteriorSequence[-1]), 1., 'sum of posterior with estimated grid', 1e-8)
        check_close(S.posteriorMeanValues, R.posteriorMeanValues, 'mean values with estimated grid', 1e-6, 1e-9)
    # change of units
    if model not in ('Poisson', 'Bernoulli') and all(g is None for g in given) and c2 != 1:
        with dsl.hush():
            U = b.Study(silent=True)
            U.load(np.asarray(data) * c2, silent=True)
            U.set(make(model, names, given), b.tm.Static(), silent=True)
        dsl.run_fit(U, forwardOnly=True)
        missing = np.isnan(np.asarray(data, dtype=float))
        if model == 'GaussianMean':
            n = np.sum(~np.any(missing, axis=1))
        elif model in ('AR1', 'ScaledAR1'):
            n = np.sum(~missing[1:] & ~missing[:-1])
        else:
            n = np.sum(~missing)
        check_log(U.logEvidence, S.logEvidence - n * np.log(c2), 'log-evidence in other units', 1e-6)
        ctx.label('units')
    ctx.label(model, 'missing' if np.any(np.isnan(np.asarray(data, float))) else 'complete', 'partly given' if any(g is not None for g in given) else 'estimated',
              're-used model' if case['before'] is not None else 'new model', 'several measurements' if data.ndim > 1 and model != 'GaussianMean' else 'single')
    ctx.nontrivial()


@st.composite
def s_grids(draw):
    model = draw(st.sampled_from(sorted(MODELS)))
    x = {'Bernoulli': st.integers(0, 1), 'Poisson': st.integers(0, 30)}.get(model, st.one_of(num(-9., 9.), st.integers(-5, 5)))

    def series(n, cols):
        miss = draw(st.sampled_from([False, False, True]))
        y = st.one_of(x, x, st.none()) if miss else x
        if model == 'GaussianMean':
            return [[draw(y), draw(num(0.2, 3.))] for _ in range(n)]
        if cols > 1:
            return [[draw(y) for _ in range(cols)] for _ in range(n)]
        return [draw(y) for _ in range(n)]
    cols = draw(st.sampled_from([1, 1, 1, 2, 3]))
    n = draw(st.integers(3, 10))
    return {'model': model, 'data': series(n, cols), 'ints': draw(st.booleans()), 'names': draw(st.sampled_from([None, None, ['a', 'b c']])) and
            ['a', 'b c'][:len(MODELS[model])], 'estimate': draw(st.sampled_from([[True, True], [True, True], [True, False], [False, True]])),
            'before': series(draw(st.integers(3, 5)), cols) if draw(st.sampled_from([0, 0, 1])) else None,
            'scale': draw(st.sampled_from([1, 0.01, 10., 250.]))}


# ---------------------------------------------------------------------------------------------------------- Jeffreys priors

def fisher(dist, pars, free):
    """Fisher information matrix (parameters pars[i], i in free) by numerical differentiation and quadrature/summation."""
    discrete = hasattr(dist(*pars), 'pmf')
    D = dist(*pars)

    def logp(x, p):
        q = dist(*p)
        return q.logpmf(x) if discrete else q.logpdf(x)
    if discrete:
        lo, hi = D.ppf(1e-15), D.ppf(1 - 1e-15)
        x = np.arange(lo, hi + 1)
        w = D.pmf(x)
    else:
        z = np.linspace(-32., 32., 1201)  # probabilities p = 1/(1 + exp(-z))
        q = 1. / (1. + np.exp(np.abs(z)))
        x = np.where(z < 0, D.ppf(q), D.isf(q))
        w = q * (1. - q) * (z[1] - z[0])
    scores = []
    for i in free:
        h = 1e-4 * max(abs(pars[i]), 0.02)
        up, dn = list(pars), list(pars)
        up[i] += h
        dn[i] -= h
        scores.append((logp(x, up) - logp(x, dn)) / (2 * h))
    ok = w > 0
    return np.array([[np.sum(w[ok] * a[ok] * c[ok]) for c in scores] for a in scores])


def jeffreys(dist, pars, free):
    return np.sqrt(np.linalg.det(fisher(dist, pars, free)))


BUILTIN = {
    'Bernoulli': (lambda p: ss.bernoulli(p), [(0., 1.)]),
    'Poisson': (lambda m: ss.poisson(m), [(0., 12.)]),
    'Gaussian': (lambda m, s: ss.norm(m, s), [(-4., 4.), (0., 4.)]),
    'Laplace': (lambda m, s: ss.laplace(m, s), [(-4., 4.), (0., 4.)]),
    'WhiteNoise': (lambda s: ss.norm(0., s), [(0., 4.)]),
    'GaussianMean': (None, [(-4., 4.)]),
    'AR1': (None, [(-1., 1.), (0., 4.)]),
    'ScaledAR1': (None, [(-1., 1.), (0., 4.)]),
}


def prior_of(L, data, cls='Study'):
    """The prior of an observation model as seen by a study: posterior of missing data"""
    b = dsl.bl()
    with dsl.hush():
        S = getattr(b, cls)(silent=True)
        S.load(data, silent=True)
        S.set(L, b.tm.Static(), silent=True)
    dsl.run_fit(S, **({'forwardOnly': True} if cls == 'Study' else {}))
    return np.array(S.posteriorSequence[0])


def body_defaults(case, ctx):
    model = case['model']
    dist, _ = BUILTIN[model]
    grids = [np.linspace(a, c, n + 2)[1:-1] for a, c, n in case['grids']]
    names = ['u', 'v'][:len(grids)]
    data = {'GaussianMean': np.array([[np.nan, 1.]] * 2), 'AR1': np.array([np.nan] * 3), 'ScaledAR1': np.array([np.nan] * 3)}.get(model, np.array([np.nan] * 2))
    got = prior_of(make(model, names, grids), data)
    mesh = np.meshgrid(*grids, indexing='ij')
    if dist is None:
        want = np.ones(mesh[0].shape)
    else:
        want = np.array([jeffreys(dist, list(p), range(len(grids))) for p in zip(*[m.ravel() for m in mesh])]).reshape(mesh[0].shape)
    check_close(got, want / np.sum(want), 'default prior of {} versus square root of the Fisher information'.format(model), 2e-4, 1e-9)
    ctx.label(model)
    ctx.nontrivial(got.size > 1)


@st.composite
def s_defaults(draw):
    model = draw(st.sampled_from(sorted(BUILTIN)))
    out = []
    for lo, hi in BUILTIN[model][1]:
        w = hi - lo
        a = lo + w * draw(st.sampled_from([0., 0., 0.1, 0.3]))
        c = hi - w * draw(st.sampled_from([0., 0.1, 0.3]))
        out.append([a, c, draw(st.integers(2, 6 if len(BUILTIN[model][1]) == 1 else 4))])
    return {'model': model, 'grids': out}


# ------------------------------------------------------------------------------------------------- symbolic Jeffreys priors

def S_(name, kind):
    import sympy
    return sympy.Symbol(name, **({'real': True} if kind == 'real' else {'positive': True}))


# name: SymPy distribution (name, symbols or fixed values), frozen SciPy distribution with the same parameters, kinds of parameters, ranges
SYM = {
    'Exponential': (lambda q: ss.expon(scale=1. / q), ['pos']),
    'Normal': (lambda m, s: ss.norm(m, s), ['real', 'pos']),
    'Laplace': (lambda m, s: ss.laplace(m, s), ['real', 'pos']),
    'Rayleigh': (lambda s: ss.rayleigh(scale=s), ['pos']),
    'Gamma': (lambda k, t: ss.gamma(k, scale=t), ['fix', 'pos']),
    'Pareto': (lambda xm, a: ss.pareto(a, scale=xm), ['fix', 'pos']),
    'Weibull': (lambda lam, k: ss.weibull_min(k, scale=lam), ['pos', 'fix']),
    'Maxwell': (lambda a: ss.maxwell(scale=a), ['pos']),
    'GammaInverse': (lambda a, c: ss.invgamma(a, scale=c), ['fix', 'pos']),
    'Poisson': (lambda m: ss.poisson(m), ['pos']),
}
CACHE = {}


def symbolic(name, args, fn, order):
    """(symbolic prior, function, symbols) for a distribution; args: None for a free parameter, number for a fixed one; fn: re-parametrisation"""
    import sympy
    import sympy.stats
    b = dsl.bl()
    key = repr((name, args, fn, order))
    if key not in CACHE:
        kinds = SYM[name][1]
        labels = ['x', 'rate', 'mu', 'z'][order:] + ['x', 'rate']
        syms, full = [], []
        for i, (a, k) in enumerate(zip(args, kinds)):
            if a is None:
                s = S_(labels[i], k)
                syms.append(s)
                full.append({'id': s, 'double': 2 * s, 'inverse': 1 / s, 'square': s ** 2}[fn if k == 'pos' else 'id'])
            else:
                full.append(sympy.Rational(str(a)))
        rv = getattr(sympy.stats, name)('obs', *full)
        try:
            with dsl.hush():
                res = b.getJeffreysPrior(rv)
        except (NotImplementedError, ValueError, TypeError, AttributeError) as e:
            raise Violation('no Jeffreys prior for {}: {!r}'.format(rv.pspace.distribution, e))
        CACHE[key] = res[0], res[1], syms, rv
    return CACHE[key]


def numeric(name, args, fn, point):
    dist, kinds = SYM[name]
    free = [i for i, a in enumerate(args) if a is None]
    f = {'id': lambda s: s, 'double': lambda s: 2 * s, 'inverse': lambda s: 1. / s, 'square': lambda s: s ** 2}
    pars = [p if a is None else a for a, p in zip(args, point)]

    def d2(*p):
        return dist(*[f[fn](v) if (args[i] is None and kinds[i] == 'pos') else v for i, v in enumerate(p)])
    return jeffreys(d2, pars, free)


def body_symbolic(case, ctx):
    name, args, fn = case['name'], case['args'], case['fn']
    sym, func, syms, rv = symbolic(name, args, fn, case['order'])
    free = [i for i, a in enumerate(args) if a is None]
    vals, want = [], []
    for p in case['points']:
        want.append(numeric(name, args, fn, p))
        vals.append([p[i] for i in free])
    got = [complex(sym.subs(dict(zip(syms, v))).evalf()).real for v in vals]
    what = 'Jeffreys prior {} of {}'.format(sym, rv.pspace.distribution)
    check_close(got, want, what + ' versus square root of the Fisher information', 5e-4, 1e-9)
    if len(syms) == 1:
        with np.errstate(all='ignore'):
            arr = np.array([v[0] for v in vals])
            out = np.asarray(func(arr)) * np.ones(len(arr))
        check_close(out, want, 'function of the ' + what, 5e-4, 1e-9)
    ctx.label(name + ('' if len(syms) == 1 else ' (2)'), fn)
    ctx.nontrivial(len(case['points']) > 1)


@st.composite
def s_symbolic(draw, names=sorted(SYM)):
    name = draw(st.sampled_from([n for n in names if n != 'Poisson'] * 2 + ['Poisson']))
    kinds = SYM[name][1]
    args = [draw(st.sampled_from([1, 2, 3, 1.5])) if k == 'fix' else None for k in kinds]
    if name in ('Normal', 'Laplace'):
        c = draw(st.integers(0, 2)) if name == 'Normal' else 0  # mean of Laplace: SymPy does not find the integral
        if c < 2:
            args[c] = draw(st.sampled_from([1, 2, 1.5]))
    fn = draw(st.sampled_from(['id', 'double', 'inverse', 'square'])) if name in ('Exponential', 'Normal', 'Rayleigh') else 'id'
    pts = []
    for _ in range(draw(st.integers(1, 4))):
        pts.append([draw(num(-3., 3.)) if k == 'real' else draw(num(0.5, 4.)) for k in kinds])
    return {'name': name, 'args': args, 'fn': fn, 'points': pts, 'order': draw(st.integers(0, 1))}


# ---------------------------------------------------------------------------- Jeffreys priors of symbolic observation models

def sym_model(case):
    b = dsl.bl()
    name, args, fn = case['name'], case['args'], case['fn']
    sym, func, syms, rv = symbolic(name, args, fn, case['order'])
    pairs = []
    for s, g in zip(syms, case['values']):
        pairs += [str(s), g]
    with dsl.hush():
        return b.om.SymPy(rv, *pairs), sym, syms


def body_model(case, ctx):
    """Prior of a SymPy observation model: the Jeffreys prior (K5: flat)."""
    L, sym, syms = sym_model(case)
    got = prior_of(L, np.array([np.nan, np.nan]))
    mesh = np.meshgrid(*case['values'], indexing='ij')
    free = [i for i, a in enumerate(case['args']) if a is None]
    want = np.zeros(mesh[0].shape)
    for i in np.ndindex(*want.shape):
        p = [1.] * len(case['args'])
        for j, m in zip(free, mesh):
            p[j] = float(m[i])
        want[i] = numeric(case['name'], case['args'], case['fn'], p)
    want = want / np.sum(want)

    def compare(flags):
        check_close(got, np.ones(want.shape) / want.size if 'K5' in flags else want, 'prior of SymPy model', 5e-4, 1e-9)
    match(['K5'], compare, ctx)
    ctx.label(case['name'])
    ctx.nontrivial(want.size > 1 and np.ptp(want) > 1e-3)


@st.composite
def s_model(draw):
    c = draw(s_symbolic(['Exponential', 'Normal', 'Laplace', 'Rayleigh', 'Gamma', 'Maxwell']))
    c.pop('points')
    if c['name'] == 'Poisson':
        c = dict(c, name='Rayleigh', args=[None])
    kinds = SYM[c['name']][1]
    v = []
    for a, k in zip(c['args'], kinds):
        if a is None:
            lo = draw(num(-3., 1.)) if k == 'real' else draw(num(0.5, 2.))
            v.append([float(x) for x in np.linspace(lo, lo + draw(num(0.5, 2.)), draw(st.integers(2, 4)))])
    return dict(c, values=v)


# -------------------------------------------------------------------------------------------------------------- AR1 process

def ar1_want(model, r, s, n, d0):
    """Jeffreys prior of the exact likelihood of a stationary AR1 process with n data points, times the likelihood of the first one."""
    def cov(p):
        rr, sc = p
        var = sc ** 2 if model == 'ScaledAR1' else sc ** 2 / (1 - rr ** 2)
        i = np.arange(n)
        return var * rr ** np.abs(i[:, None] - i[None, :])
    p0 = [r, s]
    C = np.linalg.inv(cov(p0))
    D = []
    for i in range(2):
        h = 1e-5
        up, dn = list(p0), list(p0)
        up[i] += h
        dn[i] -= h
        D.append(C.dot((cov(up) - cov(dn)) / (2 * h)))
    G = np.array([[0.5 * np.trace(a.dot(c)) for c in D] for a in D])
    return np.sqrt(np.linalg.det(G)) * ss.norm.pdf(d0, 0., np.sqrt(cov(p0)[0, 0]))


def body_ar1(case, ctx):
    b = dsl.bl()
    model = case['model']
    r = np.linspace(*case['r'])
    s = np.linspace(*case['s'])
    data = np.array(case['data'], dtype=float)
    with dsl.hush():
        S = b.Study(silent=True)
        S.load(data, silent=True)
        S.set(make(model, ['r', 's'], [r, s]), b.tm.Static(), silent=True)
        got = b.computeJeffreysPriorAR1(S)
    want = np.array([[ar1_want(model, x, y, len(data), data[0]) for y in s] for x in r])
    check(np.shape(got) == want.shape, 'shape of AR1 prior: {}'.format(np.shape(got)))
    check_close(got, want / np.sum(want), 'Jeffreys prior of {} process with {} data points'.format(model, len(data)), 1e-4, 1e-12)
    # the prior can be used, in any study
    with dsl.hush():
        S.set(make(model, ['r', 's'], [r, s], prior=got), silent=True)
    dsl.run_fit(S, evidenceOnly=True)
    mesh = np.meshgrid(r, s, indexing='ij')
    like = np.ones(want.shape)
    for i in range(1, len(data)):
        like = like * ss.norm.pdf(data[i], mesh[0] * data[i - 1], mesh[1] * (np.sqrt(1 - mesh[0] ** 2) if model == 'ScaledAR1' else 1.))
    check_log(S.logEvidence, np.log(np.sum(like * want / np.sum(want))), 'log-evidence with AR1 prior', 1e-4)
    ctx.label(model)
    ctx.nontrivial(want.size > 1)


@st.composite
def s_ar1(draw):
    lo = draw(num(-0.9, 0.5))
    s0 = draw(num(0.5, 2.))
    return {'model': draw(st.sampled_from(['AR1', 'ScaledAR1'])), 'r': [lo, min(0.95, lo + draw(num(0.2, 1.5))), draw(st.integers(2, 4))],
            's': [s0, s0 + draw(num(0.3, 2.)), draw(st.integers(2, 4))], 'data': draw(st.lists(num(-3., 3.), min_size=2, max_size=6))}


def probe_k5():
    import sympy
    import sympy.stats
    b = dsl.bl()
    with dsl.hush():
        L = b.om.SymPy(sympy.stats.Exponential('e', sympy.Symbol('q', positive=True)), 'q', [1., 2.])
    return abs(prior_of(L, np.array([np.nan]))[0] - 0.5) < 1e-6


TESTS = [
    Test('intervals', s_intervals, body_intervals, 600, 10000, 'more than one value'),
    Test('grids', s_grids, body_grids, 160, 3000, 'data with some variation'),
    Test('defaults', s_defaults, body_defaults, 250, 3000, 'more than one parameter value'),
    Test('symbolic', s_symbolic, body_symbolic, 160, 2000, 'more than one parameter value'),
    Test('model', s_model, body_model, 120, 1500, 'prior is not constant'),
    Test('ar1', s_ar1, body_ar1, 250, 4000, 'more than one parameter value'),
]
KNOWN = {'K5': probe_k5}
