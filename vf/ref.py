"""Independent reference implementation of the inference that bayesloop documents.

It works on JSON-like descriptions of models (see vf/dsl.py) and shares no code with bayesloop. Likelihoods come from
scipy.stats, transition models are explicit operators, the smoothing distributions of linear transition models are
computed with the transposed operators.

Three flags select documented deviations ("known findings") instead of the specified behaviour; see known_findings.txt:
K1 (a reset multiplies the evidence with the volume of a grid cell), K2 (backward message of a serial change-point is the
prior), K3 (combined models are not reversed in the backward pass), K7 (regime-switch floor is applied to the
un-normalised backward message)."""
import itertools

import numpy as np
import scipy.ndimage
import scipy.stats as ss

from vf.core import Reject

NONE = frozenset()
EPS = 3e-16


# ------------------------------------------------------------------------------------------------------- grids

def grid_values(g):
    if 'vals' in g:
        return np.array(g['vals'], dtype=float)
    a, b, n = float(g['a']), float(g['b']), int(g['n'])
    if g['kind'] == 'cint':
        return np.append(a + (b - a) * np.arange(n - 1) / (n - 1.), b)
    return a + (b - a) * np.arange(1, n + 1) / (n + 1.)


def lattice(v):
    d = np.diff(v)
    if len(d) > 1:
        rel = np.max(np.abs(np.diff(d))) / max(np.ptp(v), 1e-300)
        if rel > 1e-6:
            return 1.
        if rel > 1e-12 + 4 * np.finfo(float).eps * np.max(np.abs(v)) / max(np.ptp(v), 1e-300):
            raise Reject()  # neither clearly regular nor clearly irregular
    return abs(d[0])


# ------------------------------------------------------------------------------------------------ observation models

DEFAULT_PRIORS = {
    'Bernoulli': lambda p: (p * (1. - p)) ** -.5,
    'Poisson': lambda r: r ** -.5,
    'Gaussian': lambda m, s: s ** -2. + 0. * m,
    'Laplace': lambda m, s: s ** -2. + 0. * m,
    'WhiteNoise': lambda s: 1. / s,
    'GaussianMean': lambda m: 1. + 0. * m,
    'AR1': lambda r, s: 1. + 0. * r,
    'ScaledAR1': lambda r, s: 1. + 0. * r,
    'SciPyNorm': lambda m, s: 1. + 0. * m,
    'SciPyPoisson': lambda r: 1. + 0. * r,
    'SciPyGamma': lambda a: 1. + 0. * a,
    'SymPyNormal': lambda s: 1. + 0. * s,
    'SymPyExp': lambda s: 1. + 0. * s,
    'NumPyTable': lambda *g: 1. + 0. * g[0],
    'NumPyGauss': lambda m: 1. + 0. * m,
}
SEGMENT = {'AR1': 2, 'ScaledAR1': 2}
VECTOR = ('GaussianMean', 'NumPyTable', 'NumPyGauss')  # a row of the data is one observation


def _norm(x, m, s):
    z = (x - m) / s
    return np.exp(-.5 * z * z) / (s * np.sqrt(2 * np.pi))


def pdf1(om, grid, seg):
    """Likelihood of one data segment (list of scalars; or list holding one row for VECTOR models)."""
    k = om['om']
    if k == 'Bernoulli':
        p = grid[0]
        out = np.where(seg[0] != 0, p, 1. - p)
        return np.where((p < -1e-12) | (p > 1 + 1e-12), 0., np.clip(out, 0., 1.))
    if k in ('Poisson', 'SciPyPoisson'):
        return ss.poisson.pmf(seg[0], grid[0])
    if k in ('Gaussian', 'SciPyNorm'):
        return _norm(seg[0], grid[0], grid[1])
    if k == 'Laplace':
        return ss.laplace.pdf(seg[0], loc=grid[0], scale=grid[1])
    if k == 'WhiteNoise':
        return _norm(seg[0], 0., grid[0])
    if k == 'GaussianMean':
        return _norm(seg[0][0], grid[0], seg[0][1])
    if k == 'AR1':
        return _norm(seg[1], grid[0] * seg[0], grid[1])
    if k == 'ScaledAR1':
        return _norm(seg[1], grid[0] * seg[0], grid[1] * np.sqrt(1. - grid[0] ** 2))
    if k == 'SciPyGamma':
        return ss.gamma.pdf(seg[0], grid[0], loc=0., scale=om['fixed'])
    if k == 'SymPyNormal':
        return _norm(seg[0], om['fixed'], grid[0])
    if k == 'SymPyExp':
        return grid[0] * np.exp(-grid[0] * seg[0]) if seg[0] >= 0 else 0. * grid[0]
    if k == 'NumPyGauss':
        return _norm(seg[0][0], grid[0], seg[0][1])
    if k == 'NumPyTable':  # arbitrary likelihood, looked up by an integer label
        return np.array(om['table'][int(seg[0])], dtype=float).reshape(grid[0].shape)
    raise ValueError(k)


def rows(data):
    return [[(np.nan if v is None else v) for v in r] if isinstance(r, (list, tuple)) else (np.nan if r is None else r)
            for r in data]


def likelihood(om, grid, seg):
    """seg: list of `segment length` raw data points (numbers or rows)."""
    one = np.ones(np.shape(grid[0]))
    k = om['om']
    if k in VECTOR:
        flat = np.ravel(np.array(seg, dtype=float))
        return one if np.isnan(flat).any() else pdf1(om, grid, seg) * one
    if isinstance(seg[0], (list, tuple)):  # several independent measurements per time step
        out = one.copy()
        for j in range(len(seg[0])):
            out = out * likelihood(om, grid, [s[j] for s in seg])
        return out
    if any(np.isnan(s) for s in seg):
        return one
    return pdf1(om, grid, seg) * one


SYMPY_PDF = {
    'Normal': lambda x, a, b: ss.norm.pdf(x, a, b),
    'Exponential': lambda x, a: ss.expon.pdf(x, scale=1. / a),
    'Gamma': lambda x, a, b: ss.gamma.pdf(x, a, scale=b),
    'Uniform': lambda x, a, b: ss.uniform.pdf(x, a, b - a),
    'Beta': lambda x, a, b: ss.beta.pdf(x, a, b),
    'LogNormal': lambda x, a, b: ss.lognorm.pdf(x, b, scale=np.exp(a)),
    'Cauchy': lambda x, a, b: ss.cauchy.pdf(x, a, b),
    'Laplace': lambda x, a, b: ss.laplace.pdf(x, a, b),
}


def prior_func(c):
    """Family of prior functions: c0 + c1*|x0| + c2*x0**2 (+ c3*|x_last|); all-zero but c0: returns a scalar."""
    c = list(c) + [0.] * (4 - len(c))

    def f(*g):
        if c[1] == 0 and c[2] == 0 and c[3] == 0:
            return c[0]
        return c[0] + c[1] * np.abs(g[0]) + c[2] * g[0] ** 2 + c[3] * np.abs(g[-1])
    return f


def prior_density(om, grid, D):
    """Density of the parameter prior on the grid (integrates to one, except for SymPy priors that are not cut off)."""
    p = om.get('prior', 'default')
    if p == 'default':
        w = DEFAULT_PRIORS[om['om']](*grid)
    elif p is None:
        w = np.ones(grid[0].shape)
    elif 'array' in p:
        w = np.array(p['array'], dtype=float).reshape(grid[0].shape)
    elif 'func' in p:
        w = prior_func(p['func'])(*grid) * np.ones(grid[0].shape)
    else:
        w = np.ones(grid[0].shape)
        for g, d in zip(grid, p['sympy']):
            w = w * SYMPY_PDF[d[0]](g, *d[1:])
        return w
    return w / np.sum(w) / D


# ------------------------------------------------------------------------------------------------ transition models

DET = {
    'lin': lambda t, a: a * t,
    'quad': lambda t, a: a * t * t,
    'sin': lambda t, a, b: a * np.sin(b * t),
    'poly': lambda t, a, b: a * t + b * t * t,
}
LINEAR = ('Static', 'GRW', 'Alpha', 'CP', 'Indep', 'Biv')


def flat_hypers(tm):
    """(name, value, prior) of all hyper-parameters; sub-models first, then the structural breaks of a serial model."""
    k = tm['tm']
    out = []
    if k == 'Comb':
        for m in tm['models']:
            out += flat_hypers(m)
    elif k == 'Serial':
        for m in tm['parts']:
            if m['tm'] not in ('Break', 'CP'):
                out += flat_hypers(m)
        for m in tm['parts']:
            if m['tm'] in ('Break', 'CP'):
                out += list(zip(m['names'], m['values'], m.get('priors') or [None] * len(m['names'])))
    else:
        out += list(zip(tm.get('names', []), tm.get('values', []), tm.get('priors') or [None] * len(tm.get('names', []))))
    return out


def with_values(tm, flat):
    """Copy of the description with the hyper-parameter values replaced (in the order of flat_hypers)."""
    flat = list(flat)

    def rec(m):
        m = dict(m)
        if m['tm'] == 'Comb':
            m['models'] = [rec(x) for x in m['models']]
        elif m['tm'] == 'Serial':
            parts = [None] * len(m['parts'])
            for i, x in enumerate(m['parts']):
                if x['tm'] not in ('Break', 'CP'):
                    parts[i] = rec(x)
            for i, x in enumerate(m['parts']):
                if x['tm'] in ('Break', 'CP'):
                    parts[i] = leaf(x)
            m['parts'] = parts
        else:
            m = leaf(m)
        return m

    def leaf(m):
        m = dict(m)
        if m.get('names'):
            m['values'] = [flat.pop(0) for _ in m['names']]
        return m
    out = rec(tm)
    assert not flat
    return out


def leaves(tm):
    if tm['tm'] == 'Comb':
        return [x for m in tm['models'] for x in leaves(m)]
    if tm['tm'] == 'Serial':
        return [x for m in tm['parts'] for x in leaves(m)]
    return [tm]


def gauss_matrix(n, sigma):
    """Reflecting random walk on n grid points; sigma in units of the grid spacing; cut off at 4 sigma."""
    if sigma <= 0:
        return np.eye(n)
    r = 4. * sigma + .5
    if abs(r - round(r)) < 1e-7:
        raise Reject()
    r = int(r)
    x = np.arange(-r, r + 1)
    w = np.exp(-.5 * (x / sigma) ** 2)
    w /= w.sum()
    M = np.zeros((n, n))
    for i in range(n):
        for k in range(-r, r + 1):
            j = (i + k) % (2 * n)
            if j >= n:
                j = 2 * n - 1 - j
            M[i, j] += w[k + r]
    return M


def alpha_matrix(n, c, alpha):
    """Convolution with the (band-limited) symmetric alpha-stable density; probability beyond the boundaries is lost."""
    N = 3 * n
    f = np.arange(N) / float(N)
    f = np.minimum(f, 1. - f)
    phi = np.exp(-np.abs(c * 2. * np.pi * f) ** alpha)
    k = np.array([np.sum(phi * np.cos(2. * np.pi * np.arange(N) * m / N)) / N for m in range(n)])
    i = np.arange(n)
    return k[np.abs(i[:, None] - i[None, :])]


def on_axis(M, p, axis):
    return np.moveaxis(np.tensordot(M, p, axes=([1], [axis])), 0, axis)


def biv_op(p, s1, s2, rho):
    for s in (s1, s2):
        if abs(s - round(s)) < 1e-7:
            raise Reject()
    r1, r2 = 3 * int(np.ceil(s1)), 3 * int(np.ceil(s2))
    x = np.arange(-r1, r1 + 1)[:, None] / s1
    y = np.arange(-r2, r2 + 1)[None, :] / s2
    k = np.exp(-.5 * (x * x - 2 * rho * x * y + y * y) / (1. - rho * rho))
    k /= k.sum()
    out = np.zeros_like(p)
    n1, n2 = p.shape
    for a in range(n1):
        for b in range(n2):
            if p[a, b] != 0.:
                lo1, hi1 = max(0, a - r1), min(n1, a + r1 + 1)
                lo2, hi2 = max(0, b - r2), min(n2, b + r2 + 1)
                out[lo1:hi1, lo2:hi2] += p[a, b] * k[lo1 - a + r1:hi1 - a + r1, lo2 - b + r2:hi2 - b + r2]
    return out


class Ref(object):
    """Reference for one model with fixed hyper-parameter values."""

    def __init__(self, om, tm, data, ts=None, flags=NONE):
        self.om, self.tm, self.flags = om, tm, frozenset(flags)
        self.names = om['names']
        self.margs = [grid_values(g) for g in om['grids']]
        self.dx = [lattice(v) for v in self.margs]
        self.D = float(np.prod(self.dx))
        self.grid = np.meshgrid(*self.margs, indexing='ij')
        self.shape = self.grid[0].shape
        self.prior = prior_density(om, self.grid, self.D)
        seg = SEGMENT.get(om['om'], 1)
        data = rows(data)
        self.segments = [data[i:i + seg] for i in range(len(data) - seg + 1)]
        ts = list(range(len(data))) if ts is None else list(ts)
        self.ts = ts[seg - 1:]
        self.L = [likelihood(om, self.grid, s) for s in self.segments]
        self.cache = {}
        self.amp = 1.

    # -- transition operators -----------------------------------------------------------------------------
    def op(self, kind, axis, *par):
        key = (kind, axis) + par
        if key not in self.cache:
            n = self.shape[axis]
            self.cache[key] = gauss_matrix(n, *par) if kind == 'g' else alpha_matrix(n, *par)
        return self.cache[key]

    blank = True

    def reset(self):
        p = self.prior / np.sum(self.prior)
        return p * self.D if 'K1' in self.flags else p

    def fwd(self, p, t, tm=None, off=0):
        """Distribution at the next time step, given the distribution p at time t."""
        tm = tm or self.tm
        k, v = tm['tm'], tm.get('values', [])
        if k == 'Static':
            return p
        if k == 'GRW':
            ax = self.names.index(tm['target'])
            return on_axis(self.op('g', ax, v[0] / self.dx[ax]), p, ax)
        if k == 'Alpha':
            ax = self.names.index(tm['target'])
            q = np.maximum(on_axis(self.op('a', ax, v[0] / self.dx[ax], v[1]), p, ax), 0.)
            return q / np.sum(q)
        if k == 'Biv':
            q = biv_op(p, v[0] / self.dx[0], v[1] / self.dx[1], v[2])
            return q / np.sum(q)
        if k == 'CP':
            return self.reset() if t == v[0] else p
        if k == 'Indep':
            q = self.prior / np.sum(self.prior)
            return q
        if k == 'Regime':
            q = np.maximum(p, 10. ** v[0] * self.D)
            return q / np.sum(q)
        if k == 'NotEqual':
            q = np.max(p) - p
            s = np.sum(q)
            if np.max(q) <= 1e-9 * np.max(p) and (np.max(q) > 0. or not self.blank or any(m['tm'] in ('GRW', 'Alpha', 'Biv', 'Det')
                                                                        for m in leaves(self.tm))):
                raise Reject()  # differences are rounding noise
            q = np.maximum(q / s if s > 0. else q, 10. ** v[0] * self.D)
            return q / np.sum(q)
        if k == 'Det':
            return self.shift(p, tm, t - off, +1)
        if k == 'Comb':
            for m in tm['models']:
                p = self.fwd(p, t, m, off)
            return p
        if k == 'Serial':
            m, o, cps = self.serial(tm, t)
            p = self.fwd(p, t, m, o)
            return self.reset() if t in cps else p
        raise ValueError(k)

    def serial(self, tm, t):
        models = [m for m in tm['parts'] if m['tm'] not in ('Break', 'CP')]
        breaks = [m['values'][0] for m in tm['parts'] if m['tm'] in ('Break', 'CP')]
        cps = [m['values'][0] for m in tm['parts'] if m['tm'] == 'CP']
        i = sum(1 for b in breaks if b <= t)
        return models[i], (breaks[i - 1] if i > 0 else 0), cps

    def shift(self, p, tm, tau, sign):
        ax = self.names.index(tm['target'])
        f = DET[tm['fn']]
        d = sign * (f(tau + 1, *tm['values']) - f(tau, *tm['values'])) / self.dx[ax]
        s = [0.] * len(self.shape)
        s[ax] = d
        q = np.maximum(scipy.ndimage.shift(p, s, order=3, mode='nearest'), 0.)
        if not np.sum(q) > 0.:
            raise Reject()
        self.amp *= max(1., float(np.sum(p) / np.sum(q)))  # probability is lost, the rest is scaled up
        return q / np.sum(q)

    def bwd(self, b, t, tm=None, off=0):
        """Backward message, moved across the transition that started at time t (documented algorithm)."""
        tm = tm or self.tm
        k = tm['tm']
        flat = np.ones(self.shape) / np.prod(self.shape)
        if k in ('Static', 'GRW', 'Alpha', 'Biv', 'NotEqual'):
            if k == 'NotEqual':
                b = b / np.sum(b)
            return self.fwd(b, t, tm, off)
        if k == 'Regime':
            return self.fwd(b if 'K7' in self.flags else b / np.sum(b), t, tm, off)
        if k == 'CP':
            return flat if t == tm['values'][0] else b
        if k == 'Indep':
            return flat
        if k == 'Det':
            return self.shift(b, tm, t - off, -1)
        if k == 'Comb':
            if 'K3' in self.flags:
                for m in tm['models']:
                    b = self.bwd(b, t, m, off)
                return b
            if self.resets(tm, t) and 'K2' not in self.flags:
                return flat
            for m in tm['models'][::-1]:
                b = self.bwd(b, t, m, off)
            return b
        if k == 'Serial':
            m, o, cps = self.serial(tm, t)
            b = self.bwd(b, t, m, o)
            if t in cps:
                return self.reset() if 'K2' in self.flags else flat
            return b
        raise ValueError(k)

    def is_linear(self, tm=None):
        for m in leaves(tm or self.tm):
            if m['tm'] == 'Break':
                continue
            if m['tm'] not in LINEAR:
                return False
            if m['tm'] == 'Alpha':
                ax = self.names.index(m['target'])
                if np.min(self.op('a', ax, m['values'][0] / self.dx[ax], m['values'][1])) < -1e-15:
                    return False
        return True

    def lin(self, p, t, tm=None):
        """Un-normalised linear operator of the transition that starts at time t (linear transition models only)."""
        tm = tm or self.tm
        k, v = tm['tm'], tm.get('values', [])
        if k == 'Static' or (k == 'CP' and t != v[0]):
            return p
        if k in ('CP', 'Indep'):
            return np.sum(p) * self.prior / np.sum(self.prior)
        if k == 'GRW':
            return self.fwd(p, t, tm)
        if k == 'Alpha':
            ax = self.names.index(tm['target'])
            return on_axis(self.op('a', ax, v[0] / self.dx[ax], v[1]), p, ax)
        if k == 'Biv':
            return biv_op(p, v[0] / self.dx[0], v[1] / self.dx[1], v[2])
        if k == 'Comb':
            start = max([i for i, m in enumerate(tm['models']) if self.resets(m, t)] or [0])
            for m in tm['models'][start:]:  # whatever happens before a reset is irrelevant
                p = self.lin(p, t, m)
            return p
        if k == 'Serial':
            m, o, cps = self.serial(tm, t)
            return np.sum(p) * self.prior / np.sum(self.prior) if t in cps else self.lin(p, t, m)
        raise ValueError(k)

    def resets(self, tm, t):
        """Are the parameter values after the transition that starts at t independent of the ones before?"""
        k = tm['tm']
        if k == 'Comb':
            return any(self.resets(m, t) for m in tm['models'])
        if k == 'Serial':
            m, o, cps = self.serial(tm, t)
            return t in cps or self.resets(m, t)
        return k == 'Indep' or (k == 'CP' and t == tm['values'][0])

    def matrix(self, t):
        if not any(m['tm'] in ('CP', 'Break') for m in leaves(self.tm)):
            t = self.ts[0]
        if ('M', t) not in self.cache:
            self.cache['M', t] = self._matrix(t)
        return self.cache['M', t]

    def _matrix(self, t):
        n = int(np.prod(self.shape))
        M = np.zeros((n, n))
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1.
            M[:, j] = self.lin(e.reshape(self.shape), t).ravel()
        return M

    # -- inference ----------------------------------------------------------------------------------------
    def filter(self):
        """Filtering distributions, log-evidence and local evidence values."""
        a = self.prior * self.D
        self.filt, self.pred, self.local = [], [], []
        self.logE = 0.
        self.cond, self.err = 1., []
        err = EPS
        self.blank = True  # no data point so far
        for i, L in enumerate(self.L):
            self.blank = self.blank and bool(np.all(L == 1.))
            self.pred.append(a)
            q = a * L
            s = float(np.sum(q))
            if not s > 0.:
                self.logE = -np.inf
                return self
            self.cond = min(self.cond, s / float(np.max(L) * np.sum(a)))
            err *= float(np.max(L) * np.sum(a)) / s  # how rounding errors of the transition model are magnified
            self.err.append(err)
            self.logE += np.log(s)
            self.local.append(s)
            q = q / s
            self.filt.append(q)
            self.amp = 1.
            a = self.fwd(q, self.ts[i])
            err = (err + EPS) * self.amp
        return self

    def smooth(self, exact=None):
        """Smoothing distributions; `exact`: with transposed transition operators (linear models only)."""
        exact = self.is_linear() if exact is None else exact
        b = np.ones(self.shape)
        b /= np.sum(b)
        eb = EPS
        self.blank = True
        out = [None] * len(self.L)
        self.local_s = [None] * len(self.L)
        for i in reversed(range(len(self.L))):
            self.blank = self.blank and bool(np.all(self.L[i] == 1.))
            q = self.filt[i] * b
            s = np.sum(q)
            if not s > 0.:
                raise Reject()  # approximations of the backward pass exclude all parameter values
            self.cond = min(self.cond, float(s / np.max(b)))
            self.err[i] = (self.err[i] * float(np.max(b)) + eb * float(np.max(self.filt[i]))) / float(s)
            out[i] = q / s
            with np.errstate(all='ignore'):
                if np.all(self.L[i] > 0):
                    self.local_s[i] = 1. / float(np.sum(out[i] / self.L[i]))
                else:
                    pred = self.pred[i] * b
                    self.local_s[i] = float(np.sum(pred * self.L[i]) / np.sum(pred))
            if i > 0:
                m = b * self.L[i]
                eb = eb * float(np.max(self.L[i]) / np.sum(m)) + EPS
                t = self.ts[i - 1]
                if exact:
                    b = self.matrix(t).T.dot(m.ravel() / np.sum(m)).reshape(self.shape)
                else:
                    self.amp = 1.
                    b = self.bwd(m, t)
                    eb *= self.amp
                b = b / np.sum(b)
        self.smoothed = out
        return out

    def means(self, seq):
        return np.array([[np.sum(p * g) for p in seq] for g in self.grid])


def noisy(tm):
    return any(m['tm'] in ('Alpha', 'Det', 'Biv', 'NotEqual') for m in leaves(tm))


def well_conditioned(ref):
    """Models that use FFTs or splines carry absolute errors of about 1e-16; reject cases that would magnify them."""
    if noisy(ref.tm) and (ref.cond < 1e-5 or max(ref.err + [0.]) > 1e-9):
        raise Reject()
    if ref.cond < 1e-200:
        raise Reject()


# ------------------------------------------------------------------------------------------------ hyper-parameters

def is_multi(v):
    return isinstance(v, (list, tuple, np.ndarray)) or (isinstance(v, str) and v == 'all')


def hyper_prior_values(values, prior):
    """(density values, grid constant) of one hyper-parameter."""
    vals = list(values) if isinstance(values, (list, tuple, np.ndarray)) else [values]
    const = lattice(np.array(vals, dtype=float)) if len(vals) > 1 else 1.
    vals = np.array(vals, dtype=float)
    if prior is None:
        w = np.ones(len(vals))
    elif 'array' in prior:
        w = np.array(prior['array'], dtype=float)
    elif 'func' in prior:
        w = np.array([prior['func'][0] + prior['func'][1] * abs(x) for x in vals], dtype=float)
    else:
        return SYMPY_PDF[prior['sympy'][0]](vals, *prior['sympy'][1:]), const
    return w / np.sum(w) / const, const


class HyperRef(object):
    """Mixture over all combinations of hyper-parameter values."""

    def __init__(self, om, tm, data, ts=None, flags=NONE, valid=None, forward_only=False):
        self.hyp = flat_hypers(tm)
        base = Ref(om, tm, data, ts)
        values = []
        for n, v, p in self.hyp:
            if isinstance(v, str) and v == 'all':
                v = base.ts[:-1]
            values.append(v if isinstance(v, (list, tuple, np.ndarray)) else [v])
        self.values = [list(v) for v in values]
        pv = [hyper_prior_values(v, p) for v, (n, _, p) in zip(self.values, self.hyp)]
        self.consts = [c for _, c in pv]
        self.combos, self.weights, self.refs = [], [], []
        idx, total = [], 0.
        for comb in itertools.product(*[range(len(v)) for v in self.values]):
            x = [self.values[i][j] for i, j in enumerate(comb)]
            w = 1.
            for i, j in enumerate(comb):
                w *= pv[i][0][j] * self.consts[i]
            total += w
            if valid is not None and not valid([n for n, _, _ in self.hyp], x):
                continue
            self.combos.append(x)
            idx.append(comb)
            self.weights.append(w)
        self.idx = idx
        self.weights = np.array(self.weights)
        self.raw_weights = self.weights
        if not self.combos:
            raise Reject()
        if valid is not None:  # invalid combinations are excluded
            self.weights = self.weights * (total / np.sum(self.weights))
        if len(self.combos) == 1:  # equals a fit with these values
            self.weights = np.ones(1)
        for x in self.combos:
            r = Ref(om, with_values(tm, x), data, ts, flags).filter()
            if np.isfinite(r.logE) and not forward_only:
                r.smooth(exact=False if set(flags) & {'K2', 'K3', 'K7'} else None)
            well_conditioned(r)
            self.refs.append(r)
        self.base = base
        self.logE = np.array([r.logE for r in self.refs])
        with np.errstate(divide='ignore'):
            lw = np.log(self.weights) + self.logE
        m = np.max(lw)
        self.total = m + np.log(np.sum(np.exp(lw - m)))
        self.post = np.exp(lw - self.total)  # probability of each combination

    def mixture(self, which):
        """Average sequence of 'filt' or 'smoothed' distributions."""
        out = 0.
        for w, r in zip(self.post, self.refs):
            if w > 0.:
                out = out + w * np.array(getattr(r, which))
        return out

    def marginal(self, i):
        return np.array([np.sum([w for w, c in zip(self.post, self.idx) if c[i] == j]) for j in range(len(self.values[i]))])

    def joint(self, i, k):
        return np.array([[np.sum([w for w, c in zip(self.post, self.idx) if c[i] == a and c[k] == b])
                          for b in range(len(self.values[k]))] for a in range(len(self.values[i]))])
