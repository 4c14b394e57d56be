"""C03: observation models evaluate their documented likelihood functions."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st

from vf import dsl, ref
from vf.core import Test, Reject, check, check_close, Violation
from vf.dsl import num


def observed_likelihood(om_object, data, shape):
    """Likelihood of the data (one time step), as seen through a fit with a uniform prior."""
    b = dsl.bl()
    with dsl.hush():
        S = b.Study(silent=True)
        S.load(data, silent=True)
        S.set(om_object, b.tm.Static(), silent=True)
        S.fit(forwardOnly=True, silent=True)
    if S.logEvidence == -np.inf:
        return np.zeros(shape)
    return S.posteriorSequence[-1] * np.prod(shape) * np.exp(S.logEvidence)


def compare(L, expected, what):
    """Relative accuracy for all values that are not negligible compared with the largest one."""
    expected = np.asarray(expected, dtype=float)
    if np.max(expected) < 1e-290:
        if np.max(expected) > 0:
            raise Reject()
        check(np.all(L == 0), what + ': likelihood of impossible data is zero')
        return
    check_close(L, expected, what, rtol=1e-7, atol=1e-14 * np.max(expected) + 1e-300)


def flat(om):
    return dict(om, prior=None)


def body_builtin(case, ctx):
    om = flat(case['om'])
    grid = np.meshgrid(*[ref.grid_values(g) for g in om['grids']], indexing='ij')
    d = np.array(ref.rows(case['data']), dtype=float if case['float'] or dsl.any_float(case['data']) else None)
    if d.dtype.kind == 'i' and np.max(np.abs(d)) < 100 and (np.min(d) >= 0 or case['dtype'] != 'uint8'):
        d = d.astype(case.get('dtype', 'int64'))
        if om['om'] == 'Bernoulli' and case['dtype'] == 'int16':
            d = d.astype(bool)
    if om['om'] == 'Bernoulli':  # values that are zero or one only up to rounding are not defined
        near = np.minimum(np.abs(grid[0]), np.abs(grid[0] - 1.))
        if 'n' in om['grids'][0] and np.any(near[1:-1] < 1e-9) or np.any((near < 1e-9) & (near > 0)):
            raise Reject()
    exp = ref.likelihood(om, grid, ref.rows(case['data']))
    if not np.all(np.isfinite(exp)):
        raise Reject()
    L = observed_likelihood(dsl.build_om(om), d, grid[0].shape)
    compare(L, exp, om['om'])
    ctx.label(om['om'], str(d.dtype))
    ctx.nontrivial(np.ptp(exp) > 0)


@st.composite
def s_builtin(draw):
    k = draw(st.sampled_from(['Bernoulli', 'Poisson', 'Gaussian', 'Laplace', 'GaussianMean', 'WhiteNoise', 'AR1', 'ScaledAR1',
                              'NumPyGauss', 'NumPyTable']))
    scale = draw(st.sampled_from([1., 1., 1., 1e-3, 1e3, 1e6]))
    G = lambda lo, hi: draw(dsl.grids(lo, hi, max_n=8))
    two = k in ('Gaussian', 'Laplace', 'AR1', 'ScaledAR1')
    om = {'om': k, 'names': draw(st.sampled_from([['x', 'y'], ['mean', 'std'], ['q', 'lambda']]))[:2 if two else 1]}
    mul = lambda g: dict(g, vals=[v * scale for v in g['vals']]) if 'vals' in g else dict(g, a=g['a'] * scale, b=g['b'] * scale)
    val = num(-4., 4., 100).map(lambda v: v * scale)
    if draw(st.integers(0, 2)) == 2 and k not in ('GaussianMean', 'NumPyGauss'):
        val = st.integers(-4, 4).map(lambda v: v * int(max(scale, 1.)))
    if k == 'Bernoulli':
        g = G(-0.2, 1.2) if draw(st.booleans()) else G(0., 1.)
        om['grids'] = [g]
        item = st.integers(0, 1)
    elif k == 'Poisson':
        big = draw(st.sampled_from([8., 8., 60., 400., 3000.]))
        g = draw(dsl.grids(0., 1., max_n=8))
        f = lambda v: v * big
        g = dict(g, vals=[f(v) for v in g['vals']]) if 'vals' in g else dict(g, a=f(g['a']), b=f(g['b']))
        om['grids'] = [g]
        item = st.integers(0, int(big * 1.3))
    elif k == 'NumPyTable':
        om['grids'] = [G(-2., 2.)]
        n = len(ref.grid_values(om['grids'][0]))
        om['table'] = draw(st.lists(st.lists(num(0.1, 3.), min_size=n, max_size=n), min_size=1, max_size=3))
        item = st.integers(0, len(om['table']) - 1)
    elif two:
        first = G(-0.95, 0.95) if k in ('AR1', 'ScaledAR1') else mul(G(-4., 4.))
        om['grids'] = [first, mul(G(0.05, 3.))]
        item = val
    else:
        om['grids'] = [mul(G(0.05, 3.)) if k == 'WhiteNoise' else mul(G(-4., 4.))]
        item = val
    if k in ('GaussianMean', 'NumPyGauss'):
        item = st.tuples(val, num(0.2, 3.).map(lambda v: v * scale)).map(list)
    elif k not in ref.VECTOR and draw(st.integers(0, 3)) == 0:
        m = draw(st.integers(1, 4))
        item = st.lists(item, min_size=m, max_size=m)
    n = ref.SEGMENT.get(k, 1)
    return {'om': om, 'data': draw(st.lists(item, min_size=n, max_size=n)), 'float': draw(st.booleans()),
            'dtype': draw(st.sampled_from(['int64', 'int64', 'int32', 'int16', 'float32']))}


# -------------------------------------------------------------------------------- SciPy, SymPy and NumPy models

SCIPY = {  # name -> (free parameters with ranges, kind of data)
    'norm': ({'loc': (-3, 3), 'scale': (0.3, 3)}, 'real'),
    'laplace': ({'loc': (-3, 3), 'scale': (0.3, 3)}, 'real'),
    'expon': ({'loc': (-3, 0), 'scale': (0.3, 3)}, 'pos'),
    'gamma': ({'a': (0.5, 4), 'loc': (-2, 0), 'scale': (0.3, 3)}, 'pos'),
    'beta': ({'a': (0.5, 4), 'b': (0.5, 4)}, 'unit'),
    't': ({'df': (1, 6), 'loc': (-2, 2), 'scale': (0.3, 3)}, 'real'),
    'cauchy': ({'loc': (-3, 3), 'scale': (0.3, 3)}, 'real'),
    'lognorm': ({'s': (0.3, 2), 'scale': (0.3, 3)}, 'pos'),
    'poisson': ({'mu': (0.2, 8)}, 'int'),
    'binom': ({'p': (0.05, 0.95)}, 'int10'),
    'geom': ({'p': (0.05, 0.95)}, 'int1'),
    'nbinom': ({'n': (1, 8), 'p': (0.05, 0.95)}, 'int'),
    'bernoulli': ({'p': (0.05, 0.95)}, 'bit'),
    'logser': ({'p': (0.05, 0.95)}, 'int1'),
    'zipf': ({'a': (1.2, 4)}, 'int1'),
    'skellam': ({'mu1': (0.3, 4), 'mu2': (0.3, 4)}, 'sint'),
    'dlaplace': ({'a': (0.3, 2)}, 'sint'),
    'planck': ({'lambda_': (0.3, 2)}, 'int'),
    'betabinom': ({'a': (0.5, 4), 'b': (0.5, 4)}, 'int10'),
    'yulesimon': ({'alpha': (0.5, 4)}, 'int1'),
    'gumbel_r': ({'loc': (-3, 3), 'scale': (0.3, 3)}, 'real'),
    'logistic': ({'loc': (-3, 3), 'scale': (0.3, 3)}, 'real'),
    'weibull_min': ({'c': (0.5, 4), 'loc': (-2, 0), 'scale': (0.3, 3)}, 'pos'),
    'invgamma': ({'a': (0.5, 4), 'scale': (0.3, 3)}, 'pos'),
    'chi2': ({'df': (1, 6), 'loc': (-2, 0)}, 'pos'),
    'rayleigh': ({'loc': (-2, 0), 'scale': (0.3, 3)}, 'pos'),
    'pareto': ({'b': (0.5, 4), 'loc': (-3, -1), 'scale': (0.3, 1)}, 'pos'),
    'vonmises': ({'kappa': (0.3, 4), 'loc': (-1, 1)}, 'real'),
    'uniform': ({'loc': (-3, 0), 'scale': (0.5, 6)}, 'real'),
    'skewnorm': ({'a': (-3, 3), 'loc': (-2, 2), 'scale': (0.3, 3)}, 'real'),
}
EXTRA = {'binom': {'n': 10}, 'betabinom': {'n': 10}}


@st.composite
def s_scipy(draw):
    name = draw(st.sampled_from(sorted(SCIPY)))
    ranges, kind = SCIPY[name]
    free = draw(st.lists(st.sampled_from(sorted(ranges)), min_size=1, max_size=min(3, len(ranges)), unique=True))
    fixed = dict(EXTRA.get(name, {}))
    for p, (a, b) in sorted(ranges.items()):
        if p not in free:
            fixed[p] = draw(num(a + 0.1, b - 0.1))
    if draw(st.booleans()) and 'loc' not in ranges:
        fixed['loc'] = 0
    item = {'real': num(-4, 4), 'pos': num(0.1, 5), 'unit': num(0.1, 0.9), 'int': st.integers(0, 10),
            'int10': st.integers(0, 10), 'int1': st.integers(1, 10), 'bit': st.integers(0, 1), 'sint': st.integers(-6, 6)}[kind]
    m = draw(st.sampled_from([0, 0, 1, 3]))
    if m:
        item = st.lists(item, min_size=m, max_size=m)
    return {'name': name, 'free': free, 'grids': [draw(dsl.grids(float(ranges[p][0]), float(ranges[p][1]), max_n=4)) for p in free],
            'fixed': fixed, 'data': [draw(item)], 'float': draw(st.booleans()), 'api': draw(st.sampled_from(['args', 'dict']))}


def body_scipy(case, ctx):
    b = dsl.bl()
    grids = [dsl.build_grid(g) for g in case['grids']]
    vals = [np.array(g, dtype=float) for g in grids]
    grid = np.meshgrid(*vals, indexing='ij')
    rv = getattr(ss, case['name'])
    par = dict(zip(case['free'], grid), **case['fixed'])
    f = rv.pdf if hasattr(rv, 'pdf') else rv.pmf
    x = np.ravel(case['data'])
    exp = np.ones(grid[0].shape)
    for v in x:
        exp = exp * f(float(v), **par)
    if case['api'] == 'args':
        om = b.om.SciPy(rv, *[y for p in zip(case['free'], grids) for y in p], fixedParameters=case['fixed'])
    else:
        om = b.om.SciPy(rv, dict(zip(case['free'], grids)), fixedParameters=case['fixed'])
    d = np.array(case['data'], dtype=float if case['float'] or dsl.any_float(case['data']) else None)
    compare(observed_likelihood(om, d, grid[0].shape), exp, 'SciPy ' + case['name'])
    ctx.label(case['name'], '{} free'.format(len(case['free'])))
    ctx.nontrivial(np.ptp(exp) > 0)


SYMPY = {  # name -> (number of parameters, scipy density, kind)
    'Normal': (lambda x, a, b: ss.norm.pdf(x, a, b), [(-3, 3), (0.3, 3)], 'real'),
    'Exponential': (lambda x, a: ss.expon.pdf(x, scale=1. / a), [(0.3, 4)], 'pos'),
    'Gamma': (lambda x, a, b: ss.gamma.pdf(x, a, scale=b), [(0.5, 4), (0.3, 3)], 'pos'),
    'Laplace': (lambda x, a, b: ss.laplace.pdf(x, a, b), [(-3, 3), (0.3, 3)], 'real'),
    'Poisson': (lambda x, a: ss.poisson.pmf(x, a), [(0.3, 6)], 'int'),
    'Cauchy': (lambda x, a, b: ss.cauchy.pdf(x, a, b), [(-3, 3), (0.3, 3)], 'real'),
    'Beta': (lambda x, a, b: ss.beta.pdf(x, a, b), [(0.5, 4), (0.5, 4)], 'unit'),
    'ChiSquared': (lambda x, a: ss.chi2.pdf(x, a), [(1, 5)], 'pos'),
    'Weibull': (lambda x, a, b: ss.weibull_min.pdf(x, b, scale=a), [(0.5, 3), (0.5, 3)], 'pos'),
    'Logistic': (lambda x, a, b: ss.logistic.pdf(x, a, b), [(-3, 3), (0.3, 3)], 'real'),
    'LogNormal': (lambda x, a, b: ss.lognorm.pdf(x, b, scale=np.exp(a)), [(-1, 1), (0.3, 2)], 'pos'),
    'StudentT': (lambda x, a: ss.t.pdf(x, a), [(1, 6)], 'real'),
    'Rayleigh': (lambda x, a: ss.rayleigh.pdf(x, scale=a), [(0.5, 3)], 'pos'),
    'Geometric': (lambda x, a: ss.geom.pmf(x, a), [(0.1, 0.9)], 'int1'),
    'VonMises': (lambda x, a, b: ss.vonmises.pdf(x, b, loc=a), [(-1, 1), (0.3, 4)], 'angle'),
    'GammaInverse': (lambda x, a, b: ss.invgamma.pdf(x, a, scale=b), [(0.5, 3), (0.5, 3)], 'pos'),
    'Gumbel': (lambda x, a, b: ss.gumbel_r.pdf(x, b, scale=a), [(0.5, 3), (-2, 2)], 'real'),
    'Logarithmic': (lambda x, a: ss.logser.pmf(x, a), [(0.1, 0.9)], 'int1'),
}


@st.composite
def s_sympy(draw):
    name = draw(st.sampled_from(sorted(SYMPY)))
    _, ranges, kind = SYMPY[name]
    n = len(ranges)
    free = sorted(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    names = draw(st.sampled_from([['mu', 'sigma'], ['b', 'a'], ['x', 'y'], ['sigma', 'mu']]))
    order = draw(st.permutations(free))
    item = {'real': num(-4, 4), 'pos': num(0.1, 5), 'int': st.integers(0, 8), 'int1': st.integers(1, 8), 'unit': num(0.1, 0.9),
            'angle': num(-3, 3)}[kind]
    m = draw(st.sampled_from([0, 0, 2]))
    if m:
        item = st.lists(item, min_size=m, max_size=m)
    return {'name': name, 'free': free, 'order': list(order), 'names': names[:n],
            'fixed': [draw(num(a + 0.1, b - 0.1)) for a, b in ranges],
            'grids': [draw(dsl.grids(float(ranges[i][0]), float(ranges[i][1]), max_n=4)) for i in order],
            'data': [draw(item)], 'float': draw(st.booleans())}


def body_sympy(case, ctx):
    import sympy
    import sympy.stats
    b = dsl.bl()
    pdf, ranges, kind = SYMPY[case['name']]
    grids = [dsl.build_grid(g) for g in case['grids']]
    grid = np.meshgrid(*[np.array(g, dtype=float) for g in grids], indexing='ij')
    args, num_args = [], []
    for i in range(len(ranges)):
        if i in case['free']:
            positive = True if ranges[i][0] > 0 else None
            args.append(sympy.Symbol(case['names'][i], positive=positive) if positive else sympy.Symbol(case['names'][i], real=True))
            num_args.append(grid[case['order'].index(i)])
        else:
            args.append(case['fixed'][i])
            num_args.append(case['fixed'][i])
    exp = np.ones(grid[0].shape)
    for v in np.ravel(case['data']):
        exp = exp * pdf(float(v), *num_args)
    with dsl.hush():
        rv = getattr(sympy.stats, case['name'])('obs', *args)
        if case['float']:
            om = b.om.SymPy(rv, *[y for i, g in zip(case['order'], grids) for y in (case['names'][i], g)], determineJeffreysPrior=False)
        else:
            om = b.om.SymPy(rv, dict(zip([case['names'][i] for i in case['order']], grids)), determineJeffreysPrior=False)
    d = np.array(case['data'], dtype=float if case['float'] or dsl.any_float(case['data']) else None)
    compare(observed_likelihood(om, d, grid[0].shape), exp, 'SymPy ' + case['name'])
    ctx.label(case['name'], 'reordered' if case['order'] != case['free'] else 'ordered')
    ctx.nontrivial(np.ptp(exp) > 0)


@st.composite
def s_numpy(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'grids': [draw(dsl.grids(0.2, 3., max_n=4)) for _ in range(n)], 'row': draw(st.integers(0, 3)),
            'data': [draw(num(0.1, 3.)) for _ in range(4)]}


def body_numpy(case, ctx):
    b = dsl.bl()

    def f1(data, a):
        return np.exp(-a * np.sum(data)) * a

    def f2(data, a, c):
        return np.exp(-a * np.sum(data)) * a * c ** 2

    def f3(data, a, c, e):
        return np.exp(-a * np.sum(data)) * a * c ** 2 + 0.1 * e
    f = [f1, f2, f3][case['n'] - 1]
    grids = [dsl.build_grid(g) for g in case['grids']]
    grid = np.meshgrid(*[np.array(g, dtype=float) for g in grids], indexing='ij')
    x = np.array(case['data'][:case['row']] if case['row'] else case['data'][0])
    s = float(np.sum(x))
    exp = grid[0] * np.exp(-grid[0] * s)
    if case['n'] > 1:
        exp = exp * grid[1] * grid[1]
    if case['n'] > 2:
        exp = exp + grid[2] / 10.
    om = b.om.NumPy(f, *[y for p in zip('uvw', grids) for y in p])
    compare(observed_likelihood(om, np.array([x]), grid[0].shape), exp, 'NumPy function')
    ctx.label('{} parameters'.format(case['n']), 'row of {}'.format(case['row']))
    ctx.nontrivial(True)


def body_segments(case, ctx):
    """Auto-regressive models: every time step uses the current data point, given the previous one."""
    om = flat(case['om'])
    d = case['data']
    S = dsl.study({'om': om, 'tm': {'tm': 'Indep'}, 'data': d}, fit=dict(forwardOnly=True))
    grid = np.meshgrid(*[ref.grid_values(g) for g in om['grids']], indexing='ij')
    n = len(d) - 1
    check(len(S.posteriorSequence) == n, 'number of time steps is {}, expected {}'.format(len(S.posteriorSequence), n))
    for i in range(n):
        L = ref.likelihood(om, grid, [d[i], d[i + 1]])
        check_close(S.posteriorSequence[i], L / np.sum(L), 'distribution of time step {}'.format(i))
    ctx.label(om['om'])
    ctx.nontrivial(n > 1)


@st.composite
def s_segments(draw):
    om = draw(dsl.oms(kinds=('AR1', 'ScaledAR1')))
    return {'om': om, 'data': draw(dsl.datasets(om, missing=False, max_len=6))}


TESTS = [
    Test('builtin', s_builtin, body_builtin, 8000, 60000, 'likelihood is not constant'),
    Test('scipy', s_scipy, body_scipy, 5000, 20000, 'likelihood is not constant'),
    Test('sympy', s_sympy, body_sympy, 600, 4000, 'likelihood is not constant'),
    Test('numpy', s_numpy, body_numpy, 800, 4000, 'always'),
    Test('segments', s_segments, body_segments, 1500, 8000, 'at least two time steps'),
]
TESTS[2].cost = 8.
