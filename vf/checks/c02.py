"""C02: the full fit yields the exact smoothing distributions."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, make_ref, check_smooth, kinds, check, check_close, check_log
from vf.core import Test, Reject

LINEAR = ('Static', 'GRW', 'Alpha', 'CP', 'Indep', 'Biv')


def steps(case):
    return len(case['data']) - ref.SEGMENT.get(case['om']['om'], 1) + 1


def body_smooth(case, ctx):
    S = dsl.study(case, fit={})

    def compare(flags):
        r = make_ref(case, flags, backward=True)
        check_smooth(S, r)
        return r
    r = match(triggers(case['tm'], True), compare, ctx)
    if np.isfinite(r.logE) and r.smoothed is not None:
        post = np.array(S.posteriorSequence)
        check_close(post.reshape(len(post), -1).sum(axis=1), np.ones(len(post)), 'normalisation of smoothing distributions')
        check(np.all(post >= 0), 'smoothing distributions are not negative')
        check_close(post[-1], r.filt[-1], 'last smoothing distribution equals last filtering distribution')
    ctx.label(case['om']['om'], *kinds(case['tm']))
    if ref.Ref.is_linear(r):
        ctx.label('exact transposed operators')
    ctx.nontrivial(steps(case) >= 2 and case['tm']['tm'] != 'Static')


def body_paths(case, ctx):
    """Brute force: sum over all parameter trajectories (tiny grids)."""
    S = dsl.study(case, fit={})
    r = make_ref(case)
    if not np.isfinite(r.logE):
        raise Reject()
    n = int(np.prod(r.shape))
    T = len(r.L)
    if n ** T > 5000 or not r.is_linear():
        raise Reject()
    Ms = [r.matrix(t) for t in r.ts[:-1]]
    prior = (r.prior / np.sum(r.prior)).ravel()
    L = [l.ravel() for l in r.L]
    post = np.zeros((T, n))
    for path in itertools.product(range(n), repeat=T):
        w = prior[path[0]] * L[0][path[0]]
        for i in range(1, T):
            w *= Ms[i - 1][path[i], path[i - 1]] * L[i][path[i]]
        for i, x in enumerate(path):
            post[i, x] += w
    post = (post / post.sum(axis=1)[:, None]).reshape((T,) + r.shape)
    check_close(S.posteriorSequence, post, 'smoothing distributions versus sum over all trajectories')
    ctx.label(*kinds(case['tm']))
    ctx.nontrivial(T >= 2 and case['tm']['tm'] != 'Static')


@st.composite
def s_paths(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Bernoulli', 'GaussianMean', 'NumPyTable', 'Gaussian'), max_n1=5, max_n2=2))
    return draw(dsl.cases(om=st.just(om), kinds=('Static', 'GRW', 'Alpha', 'CP', 'Indep'), nested=False, max_len=4))


def body_flat_prior_serial(case, ctx):
    body_smooth(case, ctx)


def body_static(case, ctx):
    """Constant parameters: all smoothing distributions equal the posterior given all data."""
    S = dsl.study(dict(case, tm={'tm': 'Static'}), fit={})
    r = make_ref(dict(case, tm={'tm': 'Static'}))
    if not np.isfinite(r.logE):
        raise Reject()
    lp = np.log(r.prior)
    for L in r.L:
        lp = lp + np.log(L)
    w = np.exp(lp - np.max(lp))
    w = w / np.sum(w)
    check_close(S.posteriorSequence, np.array([w] * len(r.L)), 'posterior of constant parameters')
    check_log(S.logEvidence, np.max(lp) + np.log(np.sum(np.exp(lp - np.max(lp))) * r.D), 'evidence of constant parameters')
    ctx.label(case['om']['om'])
    ctx.nontrivial(len(r.L) >= 2)


TESTS = [
    Test('zero', lambda: dsl.cases(om=dsl.oms(kinds=('NumPyTable', 'NumPyTable', 'Bernoulli'), table_zeros=True), max_len=6), body_smooth, 900,
         15000, 'at least two time steps, non-static transition model'),
    Test('linear', lambda: dsl.cases(kinds=LINEAR, max_len=7), body_smooth, 1600, 40000,
         'at least two time steps, non-static linear transition model (exact oracle: transposed operators)'),
    Test('all', lambda: dsl.cases(max_len=7), body_smooth, 1600, 40000,
         'at least two time steps, non-static transition model'),
    Test('long', lambda: dsl.cases(min_len=3, max_len=6, long='always'), body_smooth, 100, 2000,
         'at least two time steps, transition model that moves probability'),
    Test('paths', s_paths, body_paths, 800, 12000, 'non-static transition model, enumeration of all trajectories'),
    Test('static', lambda: dsl.cases(kinds=('Static',), nested=False, max_len=12), body_static, 500, 10000,
         'at least two time steps'),
]


def _probe(tm, data, prior, flag, om=None):
    case = {'om': om or {'om': 'Poisson', 'names': ['x'], 'grids': [{'kind': 'oint', 'a': 0., 'b': 6., 'n': 11}], 'prior': prior},
            'tm': tm, 'data': data}
    S = dsl.study(case, fit={})
    r = make_ref(case, backward=True)
    d = np.max(np.abs(np.array(S.posteriorSequence) - np.array(r.smoothed)))
    return d > 1e-6


def probe_k1():
    from vf.checks import c01
    return c01.probe_k1()


def probe_k2():
    return _probe({'tm': 'Serial', 'parts': [{'tm': 'Static'}, {'tm': 'CP', 'names': ['t'], 'values': [1]}, {'tm': 'Static'}]},
                  [1, 2, 4, 5], {'func': [0.1, 1.]}, 'K2')


def probe_k3():
    return _probe({'tm': 'Comb', 'models': [{'tm': 'GRW', 'names': ['s'], 'values': [1.], 'target': 'x'},
                                            {'tm': 'Regime', 'names': ['q'], 'values': [-1.]}]}, [1, 2, 4, 5], None, 'K3')


def probe_k7():
    return _probe({'tm': 'Regime', 'names': ['q'], 'values': [-1.5]}, [1, 2, 4, 5], None, 'K7')


KNOWN = {'K1': probe_k1, 'K2': probe_k2, 'K3': probe_k3, 'K7': probe_k7}
