"""Model descriptions: how they are turned into bayesloop objects, and Hypothesis strategies that generate them."""
import contextlib
import copy
import io
import json
import warnings
import zlib

import numpy as np
from hypothesis import strategies as st

from vf import ref

warnings.simplefilter('ignore')
_BL = []


def bl():
    if not _BL:
        import bayesloop
        _BL.append(bayesloop)
    return _BL[0]


@contextlib.contextmanager
def hush():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield


# ------------------------------------------------------------------------------------------------------ builders

TRACKED = []  # objects that are handed to the library, with copies


def own(x):
    """Remembers an object that belongs to the user."""
    if len(TRACKED) < 2000 and isinstance(x, (np.ndarray, list, dict)):
        TRACKED.append((x, copy.deepcopy(x)))
    return x


def check_owned():
    """None, or a description of an object that has been modified."""
    for x, y in TRACKED:
        if isinstance(x, np.ndarray):
            if x.dtype != y.dtype or x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
                return 'array {!r} has been changed to {!r}'.format(y, x)
        elif repr(x) != repr(y):
            return 'object {!r} has been changed to {!r}'.format(y, x)
    return None


def build_grid(g):
    if 'vals' in g:
        return own(list(g['vals']) if g.get('as') == 'list' else np.array(g['vals'], dtype=float))
    return own(getattr(bl(), g['kind'])(g['a'], g['b'], g['n']))


RV_NAMES = {'number': ['rv0', 'rv1', 'rv2'], 'same': ['p', 'p', 'p'], 'x': ['x', 'x', 'x'], 'abc': ['b', 'a', 'c'], 'cba': ['c', 'b', 'a'],
            'obs': ['obs', 'rv0', 'obs']}


def sympy_rv(d, i=0, names='number'):
    import sympy.stats
    return getattr(sympy.stats, d[0])(RV_NAMES[names][i], *d[1:])


class Callable(object):
    """An object that is called like a function."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def method(self, *args):
        return self.f(*args)


def callable_of(f, k):
    """Functions, partial functions, callable objects, methods."""
    import functools
    return [f, f, f, functools.partial(f), Callable(f), Callable(f).method][k % 6]


def build_prior(om, shape):
    p = om.get('prior', 'default')
    if p == 'default' or p is None:
        return p
    if 'array' in p:
        return own(np.array(p['array']).reshape(shape))  # integer weights stay integers
    if 'func' in p:
        f = ref.prior_func(p['func'])
        f.__name__ = 'generated_prior'
        return callable_of(f, int(p['func'][0] * 10) + len(p['func']))
    rvs = [sympy_rv(d, i, p.get('rv', 'number')) for i, d in enumerate(p['sympy'])]
    if p.get('rv') == 'cba':
        rvs = tuple(rvs)
    return rvs[0] if len(rvs) == 1 and not p.get('aslist') else rvs


def build_om(om):
    b = bl()
    k, names = om['om'], om['names']
    grids = [build_grid(g) for g in om['grids']]
    shape = [len(g) for g in grids]
    prior = build_prior(om, shape)
    kw = {} if isinstance(prior, str) else dict(prior=prior)
    args = [x for pair in zip(names, grids) for x in pair]
    if om.get('dict'):  # deprecated way to define parameters
        args = [own(dict(zip(names, grids)))]
    if k in ('Bernoulli', 'Poisson', 'Gaussian', 'Laplace', 'WhiteNoise', 'GaussianMean', 'AR1', 'ScaledAR1'):
        return getattr(b.om, k)(*args, **kw)
    import scipy.stats as ss
    if k == 'SciPyNorm':
        return b.om.SciPy(ss.norm, *args, **kw)
    if k == 'SciPyPoisson':
        return b.om.SciPy(ss.poisson, *args, fixedParameters=own({'loc': 0}), **kw)
    if k == 'SciPyGamma':
        return b.om.SciPy(ss.gamma, *args, fixedParameters=own({'loc': 0, 'scale': om['fixed']}), **kw)
    if k in ('SymPyNormal', 'SymPyExp'):
        import sympy
        import sympy.stats
        s = sympy.Symbol(names[0], positive=True)
        rv = sympy.stats.Normal('obs', om['fixed'], s) if k == 'SymPyNormal' else sympy.stats.Exponential('obs', s)
        return b.om.SymPy(rv, *args, determineJeffreysPrior=False, **kw)
    if k == 'NumPyGauss':
        def gauss(data, mu):
            x, std = data
            return np.exp(-(x - mu) ** 2. / (2 * std ** 2.)) / np.sqrt(2 * np.pi * std ** 2.)
        return b.om.NumPy(gauss, *args, **kw)
    if k == 'NumPyTable':
        table = [np.array(t, dtype=float).reshape(shape) for t in om['table']]
        if len(names) == 1:
            def look(data, a):
                return table[int(data)]
        elif len(names) == 2:
            def look(data, a, c):
                return table[int(data)]
        else:
            def look(data, a, c, e):
                return table[int(data)]
        return b.om.NumPy(look, *args, **kw)
    raise ValueError(k)


def hyper_prior(p, i=0):
    if p is None:
        return None
    if 'array' in p:
        return own(np.array(p['array']))
    if 'func' in p:
        a, c = p['func']

        def generated(x):
            return a + c * abs(x)
        return callable_of(generated, int(a * 10) + int(2 * c))
    return sympy_rv(p['sympy'], i, p.get('rv', 'number'))


def hyper_value(v, container='array'):
    if isinstance(v, (list, tuple)):
        return own(list(v) if container == 'list' else (tuple(v) if container == 'tuple' else np.array(v)))
    return v


DET_SRC = {'lin': 'a*t', 'quad': 'a*t*t', 'sin': 'a*np.sin(b*t)', 'poly': 'a*t + b*t*t'}


def build_tm(tm):
    b = bl()
    k = tm['tm']
    names = tm.get('names', [])
    box = tm.get('box', 'array')
    values = [hyper_value(v, box) for v in tm.get('values', [])]
    priors = [hyper_prior(p, i) for i, p in enumerate(tm.get('priors') or [None] * len(names))]
    has = any(p is not None for p in priors)
    if k == 'Static':
        return b.tm.Static()
    if k == 'Indep':
        return b.tm.Independent()
    if k == 'GRW':
        return b.tm.GaussianRandomWalk(names[0], values[0], target=tm['target'], prior=priors[0])
    if k == 'Alpha':
        kw = dict(prior=priors) if has else {}
        return b.tm.AlphaStableRandomWalk(names[0], values[0], names[1], values[1], target=tm['target'], **kw)
    if k == 'Biv':
        kw = dict(prior=priors) if has else {}
        return b.tm.BivariateRandomWalk(names[0], values[0], names[1], values[1], names[2], values[2], **kw)
    if k == 'CP':
        return b.tm.ChangePoint(names[0], values[0], prior=priors[0])
    if k == 'Break':
        return b.tm.BreakPoint(names[0], values[0], prior=priors[0])
    if k == 'Regime':
        return b.tm.RegimeSwitch(names[0], values[0], prior=priors[0])
    if k == 'NotEqual':
        return b.tm.NotEqual(names[0], values[0], prior=priors[0])
    if k == 'Det':
        src = 'def generated(t, {}):\n    {}\n    return {}\n'.format(
            ', '.join('{}=_v[{}]'.format(n, i) for i, n in enumerate(names)),
            '{}, = {},'.format(', '.join(['a', 'b'][:len(names)]), ', '.join(names)), DET_SRC[tm['fn']])
        env = {'np': np, '_v': values}
        exec(src, env)
        kw = dict(prior=priors) if has else {}
        return b.tm.Deterministic(env['generated'], target=tm['target'], **kw)
    if k == 'Comb':
        return b.tm.CombinedTransitionModel(*[build_tm(m) for m in tm['models']])
    if k == 'Serial':
        return b.tm.SerialTransitionModel(*[build_tm(m) for m in tm['parts']])
    raise ValueError(k)


def build_data(case):
    d = case['data']
    return own(np.array(ref.rows(d), dtype=float if any_float(d) or case.get('float') else None))


def any_float(d):
    for r in d:
        for v in (r if isinstance(r, (list, tuple)) else [r]):
            if v is None or isinstance(v, float):
                return True
    return False


def spelling(case):
    """Which of the equivalent ways to set up a study is used for this case (an arbitrary, but reproducible choice)."""
    return crc(case) % 6


def crc(case):
    return zlib.crc32(json.dumps([case.get('om'), case.get('tm'), case.get('data')], sort_keys=True, default=str).encode())


def loud(k):
    """Arguments for quiet calls (two out of three) or calls with output."""
    return {} if k % 3 == 0 else {'silent': True}


def study(case, cls='Study', fit=None, **kw):
    """A bayesloop study for a case with the keys om, tm, data, ts (optional)."""
    b = bl()
    with hush():
        k = spelling(case)
        q = loud(crc(case) // 6)
        S = getattr(b, cls)(**dict(q, **kw))
        if cls != 'OnlineStudy':
            ts = case.get('ts')
            load = S.loadData if k % 2 else S.load
            load(build_data(case), timestamps=None if ts is None else np.array(ts), **q)
        if cls != 'OnlineStudy' and k == 3:
            S.set(build_om(case['om']), build_tm(case['tm']), **q)
        elif cls != 'OnlineStudy' and k == 4:
            S.set(build_tm(case['tm']), build_om(case['om']), **q)
        else:
            [S.set, S.setObservationModel, S.setOM][k % 3](build_om(case['om']), **q)
            if cls != 'OnlineStudy':
                [S.set, S.setTransitionModel, S.setTM][k % 3](build_tm(case['tm']), **q)
        if fit is not None:
            S.fit(**dict(q, **fit))
    return S


def run_fit(S, **kw):
    with hush():
        S.fit(**dict(loud(len(S.rawData) + len(kw)), **kw))
    return S


def scalar_tm(tm):
    return ref.with_values(tm, [v[0] if isinstance(v, list) else v for _, v, _ in ref.flat_hypers(tm)])


# ---------------------------------------------------------------------------------------------------- strategies

def num(lo, hi, scale=10):
    """Decimal numbers, shrinking towards zero / the lower end."""
    return st.integers(int(round(lo * scale)), int(round(hi * scale))).map(lambda i: i / float(scale))


@st.composite
def grids(draw, lo, hi, min_n=2, max_n=8, categorical=True, open_only=False, min_width=0.5, reverse=False):
    """A grid within [lo, hi]; open grids avoid the boundaries."""
    kind = draw(st.sampled_from(['oint', 'cint', 'vals'] if categorical else ['oint', 'cint']))
    if open_only and kind == 'cint':
        kind = 'oint'
    n = draw(st.integers(min_n, max_n))
    if kind == 'vals':
        vals = draw(st.lists(st.integers(1, 39), min_size=n, max_size=n, unique=True))
        return {'vals': [lo + (hi - lo) * i / 40. for i in sorted(vals)], 'as': draw(st.sampled_from(['array', 'list']))}
    a = draw(st.integers(0, 10))
    b = draw(st.integers(0, 10))
    w = hi - lo
    x = lo + a / 20. * (w - min_width)
    y = hi - b / 20. * (w - min_width)
    x, y = round(x, 6), round(y, 6)
    if reverse and draw(st.integers(0, 9)) == 0:
        x, y = y, x
    return {'kind': kind, 'a': x, 'b': y, 'n': n}


def tiled(item, size, limit=27):
    """Lists of a given size; long ones repeat themselves."""
    n = min(size, limit)
    return st.lists(item, min_size=n, max_size=n).map(lambda v: (v * (size // n + 1))[:size])


OM1 = ('Bernoulli', 'Poisson', 'WhiteNoise', 'GaussianMean', 'SciPyPoisson', 'SciPyGamma', 'NumPyGauss', 'NumPyTable')
OM2 = ('Gaussian', 'Laplace', 'AR1', 'ScaledAR1', 'SciPyNorm', 'NumPyTable')
LOCATION = ('Gaussian', 'Laplace', 'SciPyNorm', 'GaussianMean', 'NumPyGauss')
WHOLE = ('Gaussian', 'Laplace', 'WhiteNoise', 'SciPyNorm', 'SciPyGamma', 'AR1', 'ScaledAR1', 'SymPyNormal', 'SymPyExp', 'GaussianMean', 'NumPyGauss')
SLOW = ('SymPyNormal', 'SymPyExp')  # symbolic set-up takes a while


@st.composite
def oms(draw, kinds=None, priors=('default', None, 'array', 'func', 'sympy'), max_n1=9, max_n2=5, categorical=True, min_n=2,
        table_zeros=False, table_scales=False, three=True, large=True, units=True, offset=False):
    if kinds is None:
        kinds = OM1 + OM2
    k = draw(st.sampled_from(kinds))
    dim = 1 if k not in OM2 else 2
    if k == 'NumPyTable':
        dim = draw(st.sampled_from([1, 2, 2, 1, 3] if three else [1, 2]))
    mn = max_n1 if dim == 1 else (max_n2 if dim == 2 else 3)
    # several kinds of names, so that nothing depends on defaults
    names = draw(st.sampled_from([['x', 'y', 'z'], ['a', 'b', 'c'], ['mean', 'std', 'df'], ['p2', 'p1', 'p3'],
                                 ['x', 'X', 'xx'], ['M', 'm', 'Mm'], ['ab', 'a', 'b']]))[:dim]
    big = draw(st.integers(0, 15)) == 15 and large
    # parameters in other units
    unit = draw(st.sampled_from([1.] * 9 + [1e-7, 1e-3, 1e3, 1e6])) if k == 'NumPyTable' and large and units else 1.

    def G(lo, hi, o=False):
        g = draw(grids(lo, hi, min_n=min_n, max_n=mn, categorical=categorical, open_only=o))
        if big and 'n' in g:
            g['n'] = draw(st.sampled_from({1: [g['n'], 13, 24, 37, 64, 101, 150], 2: [g['n'], 8, 11, 16], 3: [g['n'], 4, 5]}[dim]))
        if unit != 1.:
            g = {'vals': [v * unit for v in g['vals']]} if 'vals' in g else dict(g, a=g['a'] * unit, b=g['b'] * unit)
        return g
    om = {'om': k}
    if k == 'Bernoulli':
        gs = [G(0., 1., True)] if draw(st.integers(0, 4)) else [dict(G(0., 1., True))]
    elif k in ('Poisson', 'SciPyPoisson'):
        gs = [G(0., 8., True)]
    elif k == 'WhiteNoise':
        gs = [G(0.2, 4., False)]
    elif k in ('GaussianMean', 'NumPyGauss'):
        gs = [G(-4., 4.)]
    elif k == 'SciPyGamma':
        gs = [G(0.3, 5.)]
        om['fixed'] = draw(st.sampled_from([0.5, 1.0, 2.0]))
        names = ['a']
    elif k in ('SymPyNormal', 'SymPyExp'):
        gs = [G(0.3, 4.)]
        om['fixed'] = draw(st.sampled_from([0., 1.]))
    elif k in ('Gaussian', 'Laplace', 'SciPyNorm'):
        gs = [G(-3., 3.), G(0.3, 3.)]
        if k == 'SciPyNorm':
            names = ['loc', 'scale']
    elif k in ('AR1', 'ScaledAR1'):
        gs = [G(-0.9, 0.9), G(0.3, 3.)]
    else:
        gs = [G(-2., 2.) for _ in names]
    if k == 'SciPyPoisson':
        names = ['mu']
    # measured values with small differences, as compared to the values
    off = draw(st.sampled_from([0.] * 9 + [1e3, -1e5, 1e6])) if offset and k in LOCATION else 0.
    if off:
        om['offset'] = off
        gs[0] = {'vals': [v + off for v in gs[0]['vals']]} if 'vals' in gs[0] else dict(gs[0], a=gs[0]['a'] + off, b=gs[0]['b'] + off)
    om['names'], om['grids'] = list(names), gs
    if k.startswith(('SciPy', 'SymPy')) and draw(st.integers(0, 2)) == 2:
        om['dict'] = True
    size = int(np.prod([len(ref.grid_values(g)) for g in gs]))
    if k == 'NumPyTable':
        lo = 0 if table_zeros else 1
        om['table'] = draw(st.lists(tiled(st.integers(lo, 20).map(lambda i: i / 10.), size), min_size=1, max_size=3))
        if table_scales:  # very probable and very improbable data points
            sc = draw(st.lists(st.sampled_from([-250, -120, -60, -30, -12, 0, 25, 80, 200]), min_size=len(om['table']),
                               max_size=len(om['table'])))
            om['table'] = [[v * 10. ** e for v in row] for row, e in zip(om['table'], sc)]
    kind = draw(st.sampled_from(list(priors)))
    if (unit != 1. or off) and kind in ('func', 'sympy'):
        kind = None
    if kind in ('default', None):
        om['prior'] = kind
    elif kind == 'array':
        if draw(st.booleans()):
            w = draw(tiled(st.integers(1, 9), size))
        else:
            w = draw(tiled(num(0.1, 2.), size))
            if draw(st.booleans()):
                w = (np.array(w) / np.sum(w)).tolist()
        om['prior'] = {'array': w}
    elif kind == 'func':
        om['prior'] = {'func': [draw(num(0.1, 2.))] + draw(st.sampled_from([[], [0.5], [0., 1.], [0.3, 0., 0.4]]))}
    else:
        om['prior'] = {'sympy': [draw(st.sampled_from([['Normal', 0.5, 2.], ['Normal', 1., 1.], ['Exponential', 0.5]]))
                                 if np.all(ref.grid_values(g) > 0) else ['Normal', draw(num(-1., 1.)), 2.] for g in gs],
                       'rv': draw(st.sampled_from(sorted(RV_NAMES)))}
    return om


@st.composite
def datasets(draw, om, min_len=1, max_len=7, missing=True, multi=True, long=False):
    k = om['om']
    n = draw(st.integers(max(min_len, ref.SEGMENT.get(k, 1)), max(max_len, ref.SEGMENT.get(k, 1))))
    if k == 'Bernoulli':
        item = st.integers(0, 1)
    elif k in ('Poisson', 'SciPyPoisson'):
        item = st.integers(0, 9)
    elif k == 'NumPyTable':
        item = st.integers(0, len(om['table']) - 1)
    elif k in ('SciPyGamma', 'SymPyExp'):
        item = num(0.1, 6.)
    else:
        item = num(-3., 3.)
    if k in ('GaussianMean', 'NumPyGauss'):
        item = st.tuples(num(-3., 3.), num(0.3, 2.)).map(list)
    elif multi and k not in ref.VECTOR and draw(st.integers(0, 5)) == 0:
        m = draw(st.integers(1, 3))
        item = st.lists(item, min_size=m, max_size=m)
    d = draw(st.lists(item, min_size=n, max_size=n))
    if k in WHOLE and draw(st.integers(0, 7)) == 7:  # measured values that happen to be whole numbers
        d = [[int(np.ceil(u)) for u in v] if isinstance(v, list) else int(np.ceil(v)) for v in d]
    if missing and draw(st.integers(0, 2)) == 0:
        for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            if isinstance(d[i], list):
                d[i] = list(d[i])
                d[i][draw(st.integers(0, len(d[i]) - 1))] = None
            else:
                d[i] = None
    if om.get('offset'):
        add = lambda v: None if v is None else v + om['offset']
        if k in ref.VECTOR:
            d = [[add(v[0])] + v[1:] if isinstance(v, list) else v for v in d]
        else:
            d = [[add(u) for u in v] if isinstance(v, list) else add(v) for v in d]
    if long == 'always':
        d = stretched(d, draw(st.sampled_from([20, 31, 32, 33, 50, 64, 65, 101, 130])), draw(st.integers(0, 30)))
    elif long and draw(st.integers(0, 15)) == 15:  # long time series, by repetition
        d = (d * draw(st.sampled_from([2, 3, 5, 8, 13])))[:70]
    return d


def stretched(d, n, k):
    """A long series of n data points out of a few ones."""
    return [copy.deepcopy(d[(i * i * (2 * k + 1) // 3 + i * (k % 4)) % len(d)]) for i in range(n)]


@st.composite
def timestamps(draw, n):
    """None (default) or increasing time stamps."""
    kind = draw(st.sampled_from(['none', 'none', 'none', 'shift', 'shift', 'gaps', 'gaps', 'float', 'float', 'fine', 'large', 'inexact', 'inexact']))
    if kind == 'none':
        return None
    # e.g. years, days, seconds
    start = draw(st.integers(-5, 2000) if kind != 'large' else st.sampled_from([100000, 1800000, 1500000000]))
    if kind == 'shift':
        return [start + i for i in range(n)]
    steps = draw(tiled(st.integers(1, 4), n, 20))
    if kind == 'inexact':  # differences of time stamps are subject to rounding
        start, unit = draw(st.sampled_from([0, 1, start])), draw(st.sampled_from([0.1, 0.1, 0.3, 1 / 7., 1 / 365., 1e-9, 0.7e6 / 3.]))
        if draw(st.booleans()):
            steps = [1] * n
        return [(start + int(s)) * unit for s in np.cumsum(steps)]
    ts = [start + int(s) for s in np.cumsum(steps)]
    return [t * 0.25 for t in ts] if kind == 'float' else [t * 2. ** -10 for t in ts] if kind == 'fine' else ts


def dx_of(om):
    return [ref.lattice(ref.grid_values(g)) for g in om['grids']]


NAMES = ['s12', 's1', 's', 'Ss', 's2', 'S', 's21', 'ss', 's11', 'sigma_s', 'sigma', 'log_s1', 'S1', 'as1', 'as_', 'ss2', 'sig']


class Namer(object):
    """Names of hyper-parameters; one kind of names has many that are parts of others."""

    def __init__(self, draw):
        self.n = 0
        self.base = draw(st.sampled_from(['h', 'sigma', 'q', None]))

    def __call__(self):
        self.n += 1
        if self.base is None and self.n <= len(NAMES):
            return NAMES[self.n - 1]
        return '{}{}'.format(self.base or 'h', self.n)


def values(draw, item, multi, max_values=3, count=9):
    """A scalar or (if multi) a list of distinct values (mostly increasing); count: number of possible values."""
    if not multi or draw(st.integers(0, 2 if multi is True else 9)) == (2 if multi is True else 9):
        return draw(item)
    n = 1 if multi is True or count < 2 or max_values < 2 else draw(st.sampled_from([2, 2, 2, 1]))
    v = sorted(draw(st.lists(item, min_size=n, max_size=max(n, min(max_values, count)), unique=True)))
    if len(v) > 1 and draw(st.integers(0, 7)) == 7:
        v = list(draw(st.permutations(v)))
    return v


def hpriors(draw, vals, enabled):
    if not enabled or not isinstance(vals, list):
        return None
    kind = draw(st.sampled_from(['none', 'none', 'array', 'func', 'sympy']))
    if kind == 'none':
        return None
    if kind == 'array':
        return {'array': draw(st.lists(st.integers(1, 8), min_size=len(vals), max_size=len(vals)))}
    if kind == 'func' or max(abs(v) for v in vals) > 20:  # no underflow of normal distributions
        return {'func': [draw(num(0.1, 2.)), draw(st.sampled_from([0., 0.5, 2.]))]}
    return {'sympy': draw(st.sampled_from([['Normal', 0.5, 1.5], ['Exponential', 0.7]]
                                          if min(vals) >= 0 else [['Normal', 0.5, 1.5]])),
            'rv': draw(st.sampled_from(['number', 'same', 'x']))}


LEAVES = ('Static', 'GRW', 'Alpha', 'CP', 'Indep', 'Regime', 'NotEqual', 'Det', 'Biv')


@st.composite
def leaf_tms(draw, om, ts, namer, kinds=LEAVES, multi=False, priors=False, max_values=3, reset_in_range=True):
    names = om['names']
    kinds = [k for k in kinds if (k != 'Biv' or len(names) == 2) and (k not in ('Det', 'Alpha') or len(names) < 3)]
    k = draw(st.sampled_from(kinds))
    ax = draw(st.integers(0, len(names) - 1))
    dx = dx_of(om)
    if k in ('Static', 'Indep'):
        return {'tm': k}
    tm = {'tm': k}
    if k == 'GRW':
        # multiples of the grid spacing that stay away from the steps of the cut-off radius
        item = st.integers(0, 18).map(lambda i: i * 0.2 * dx[ax])
        n = len(ref.grid_values(om['grids'][ax]))
        if n > 12 and draw(st.booleans()):  # wide kernels
            item = st.integers(0, n).map(lambda i: i * 0.4 * dx[ax])
        vals = [values(draw, item, multi, max_values)]
        tm['target'] = names[ax]
    elif k == 'Alpha':
        item = st.integers(0, 15).map(lambda i: i * 0.2 * dx[ax])
        vals = [values(draw, item, multi, max_values), values(draw, st.sampled_from([0.5, 1., 1.5, 2.]), multi, max_values, 4)]
        tm['target'] = names[ax]
    elif k == 'Biv':
        it = lambda d: st.sampled_from([0.35, 0.6, 0.85, 1.3, 1.7]).map(lambda i: i * d)
        vals = [values(draw, it(dx[0]), multi, max_values), values(draw, it(dx[1]), multi, max_values),
                values(draw, st.sampled_from([-0.8, -0.3, 0., 0.3, 0.5, 0.9]), multi, max_values)]
    elif k == 'CP':
        vals = [values(draw, st.sampled_from(list(ts[:-1]) or [ts[0]]), multi, max_values, max(1, len(ts) - 1))]
    elif k in ('Regime', 'NotEqual'):
        vals = [values(draw, st.sampled_from([-6., -4., -3., -2., -1.5, -1.]), multi, max_values)]
    elif k == 'Det':
        tm['fn'] = draw(st.sampled_from(sorted(DET_SRC)))
        tm['target'] = names[ax]
        small = st.integers(-8, 8).map(lambda i: i * 0.25 * dx[ax])
        scale = max(abs(ts[0]), abs(ts[-1]), 1.)
        if tm['fn'] == 'quad':
            small = st.integers(-8, 8).map(lambda i: i * 0.1 * dx[ax] / scale)
        if tm['fn'] == 'poly':
            vals = [values(draw, small, multi, max_values),
                    values(draw, st.integers(-8, 8).map(lambda i: i * 0.05 * dx[ax] / scale), multi, max_values)]
        elif tm['fn'] == 'sin':
            vals = [values(draw, small, multi, max_values), values(draw, st.sampled_from([0.3, 1., 2.]), multi, max_values, 3)]
        else:
            vals = [values(draw, small, multi, max_values)]
    tm['names'] = [namer() for _ in vals]
    tm['values'] = vals
    pr = [hpriors(draw, v, priors) for v in vals]
    if any(p is not None for p in pr):
        tm['priors'] = pr
    if multi:
        tm['box'] = draw(st.sampled_from(['array', 'list', 'tuple']))
    return tm


@st.composite
def serial_tms(draw, om, ts, namer, kinds, multi=False, priors=False, max_values=2, depth=0, max_breaks=3):
    inner = list(ts[:-1])
    nb = draw(st.integers(1, max(1, min(max_breaks, len(inner)))))
    if len(inner) < nb:
        return {'tm': 'Static'}
    if multi:
        # disjoint increasing value lists
        pts = sorted(draw(st.lists(st.sampled_from(inner), min_size=nb, max_size=min(len(inner), nb * max_values), unique=True)))
        cuts = sorted(draw(st.lists(st.integers(1, len(pts) - 1), min_size=nb - 1, max_size=nb - 1, unique=True))) if nb > 1 else []
        groups = [pts[a:b] for a, b in zip([0] + cuts, cuts + [len(pts)])]
        breaks = [g if len(g) > 1 or draw(st.booleans()) else g[0] for g in groups]
    else:
        breaks = sorted(draw(st.lists(st.sampled_from(inner), min_size=nb, max_size=nb, unique=True)))
    parts = []
    for i in range(nb + 1):
        if depth < 3 and draw(st.integers(0, 5)) == 0:
            parts.append(draw(comb_tms(om, ts, namer, kinds, multi, priors, max_values, depth + 1)))
        else:
            parts.append(draw(leaf_tms(om, ts, namer, kinds, multi, priors, max_values)))
        if i < nb:
            b = {'tm': draw(st.sampled_from(['Break', 'CP'])), 'names': [namer()], 'values': [breaks[i]]}
            p = hpriors(draw, breaks[i], priors)
            if p is not None:
                b['priors'] = [p]
            parts.append(b)
    # a change-point leaf can not be told from a serial change-point
    parts = [({'tm': 'Static'} if p['tm'] == 'CP' and i % 2 == 0 else p) for i, p in enumerate(parts)]
    return {'tm': 'Serial', 'parts': parts}


@st.composite
def comb_tms(draw, om, ts, namer, kinds, multi=False, priors=False, max_values=2, depth=0):
    n = draw(st.integers(1, 3))
    ms = []
    for _ in range(n):
        r = draw(st.integers(0, 11)) if depth < 3 else 9
        if r < 2:
            ms.append(draw(serial_tms(om, ts, namer, kinds, multi, priors, max_values, depth + 1)))
        elif r < (4 if depth else 3):
            ms.append(draw(comb_tms(om, ts, namer, kinds, multi, priors, max_values, depth + 1)))
        else:
            ms.append(draw(leaf_tms(om, ts, namer, kinds, multi, priors, max_values)))
    return {'tm': 'Comb', 'models': ms}


@st.composite
def tms(draw, om, ts, kinds=LEAVES, nested=True, multi=False, priors=False, max_values=3, namer=None, shape=None):
    namer = namer or Namer(draw)
    s = shape or draw(st.sampled_from(['leaf', 'leaf', 'comb', 'serial'] if nested else ['leaf']))
    if s == 'comb':
        return draw(comb_tms(om, ts, namer, kinds, multi, priors, max_values))
    if s == 'serial':
        return draw(serial_tms(om, ts, namer, kinds, multi, priors, max_values))
    if multi == 'more' and draw(st.integers(0, 9)) < 9:
        kinds = [k for k in kinds if k not in ('Static', 'Indep')] or kinds
    return draw(leaf_tms(om, ts, namer, kinds, multi, priors, max_values))


def seg_ts(om, n, ts):
    ts = list(range(n)) if ts is None else list(ts)
    return ts[ref.SEGMENT.get(om['om'], 1) - 1:]


@st.composite
def cases(draw, om=None, kinds=LEAVES, nested=True, multi=False, priors=False, min_len=1, max_len=7, missing=True,
          multi_data=True, stamps=True, max_values=3, shape=None, long=None):
    o = draw(om if om is not None else oms(offset=True))
    d = draw(datasets(o, min_len=min_len, max_len=max_len, missing=missing, multi=multi_data,
                      long=(max_len >= 5 and not multi) if long is None else long))
    ts = draw(timestamps(len(d))) if stamps else None
    tm = draw(tms(o, seg_ts(o, len(d), ts), kinds=kinds, nested=nested, multi=multi, priors=priors, max_values=max_values,
                  shape=shape))
    c = {'om': o, 'tm': tm, 'data': d}
    if ts is not None:
        c['ts'] = ts
    if draw(st.booleans()):
        c['float'] = True
    return c


@st.composite
def many_tms(draw, om, ts, namer=None, most=48, priors=True):
    """Transition models with a large number of hyper-parameter values."""
    namer = namer or Namer(draw)
    dx = dx_of(om)
    ax = draw(st.integers(0, len(om['names']) - 1))

    def vals(n, f):
        if draw(st.booleans()):  # equally spaced
            return [f(i + 1) for i in range(n)]
        ids = draw(st.lists(st.integers(1, 3 * n), min_size=n, max_size=n, unique=True))
        return [f(i / 3.) for i in sorted(ids)]

    def hp(v):
        return [hpriors(draw, v, priors)]

    def walk(n):
        v = vals(n, lambda i: round(i * 2. / n * dx[ax], 9))
        return {'tm': 'GRW', 'names': [namer()], 'values': [v], 'target': om['names'][ax], 'priors': hp(v)}

    def regime(n):
        v = vals(n, lambda i: round(-7. + 6. * i / n, 9))
        return {'tm': 'Regime', 'names': [namer()], 'values': [v], 'priors': hp(v)}

    def point():
        v = list(ts[:-1])[:most]
        return {'tm': 'CP', 'names': [namer()], 'values': [v], 'priors': hp(v)}
    kind = draw(st.sampled_from(['walk', 'regime', 'both', 'both', 'point'] if len(ts) > 4 else ['walk', 'regime', 'both']))
    if kind == 'point':
        return point()
    if kind != 'both':
        n = draw(st.integers(5, most))
        return walk(n) if kind == 'walk' else regime(n)
    n = draw(st.integers(2, 9))
    m = draw(st.integers(2, max(2, min(12, most // n))))
    ms = [walk(n), regime(m)]
    return {'tm': 'Comb', 'models': ms if draw(st.booleans()) else ms[::-1]}


# ------------------------------------------------------------------------------------------------------- on-line

def online(om, named_tms, history=True, tm_prior=None):
    b = bl()
    with hush():
        q = loud(len(named_tms) + len(om['names']))
        S = b.OnlineStudy(storeHistory=history, **q)
        S.set(build_om(om), **q)
        for name, tm in named_tms:
            [S.add, S.addTM, S.addTransitionModel][spelling({'tm': tm}) % 3](name, build_tm(tm))
        if tm_prior is not None:
            S.setTransitionModelPrior(tm_prior, **q)
    return S


def data_points(case):
    """Data points in the form in which they are fed to an on-line study."""
    d = build_data(case)
    return [d[i] if d.ndim > 1 else d[i].item() for i in range(len(d))]


def step(S, x):
    with hush():
        S.step(x)


def online_moments(S):
    """Everything an on-line study reports about its current state."""
    return dict(post=np.array(S.marginalizedPosterior), tmpost=np.array(S.transitionModelPosterior),
                hyper=[np.array(h) for h in S.hyperParameterDistribution], logE=float(S.logEvidence),
                tmd=np.array(S.transitionModelDistribution), local=np.array(S.localTransitionModelDistribution))
