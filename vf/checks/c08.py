"""C08: a hyper-study is the exact mixture over all hyper-parameter values."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import Spelled, triggers, match, kinds, check, check_close, check_log, hyper_ok
from vf.core import Test, Reject

OMS = ('Poisson', 'Bernoulli', 'Gaussian', 'WhiteNoise', 'GaussianMean', 'NumPyTable', 'AR1', 'Laplace')
MODES = {'full': {}, 'fwd': dict(forwardOnly=True), 'evi': dict(evidenceOnly=True)}


def combos(tm):
    n = 1
    for _, v, _ in ref.flat_hypers(tm):
        n *= len(v) if isinstance(v, list) else 1
    return n


def compare_hyper(S, h, mode, tol=1e-6, local=True):
    """h: HyperRef"""
    if not np.isfinite(h.total):
        raise Reject()
    check_log(S.logEvidence, h.total, 'log-evidence of the average model', tol)
    check_log(S.log10Evidence, h.total / np.log(10), 'log10-evidence of the average model', tol)
    if mode != 'evi':
        m = h.mixture('filt' if mode == 'fwd' else 'smoothed')
        check_close(S.posteriorSequence, m, 'average parameter distributions')
        check_close(S.posteriorMeanValues, h.base.means(m), 'average mean values', 1e-6, 1e-7)
    if len(h.combos) > 1:
        check_close(S.logEvidenceList, h.logE, 'log-evidence for each combination of hyper-parameter values', tol, tol)
        if local and np.all(np.isfinite(h.logE)):
            want = np.array([r.local if mode != 'full' else r.local_s for r in h.refs]) * h.weights[:, None]
            check_close(S.localEvidence, np.sum(want, axis=0), 'local evidence of the average model')


def check_hpd(S, h, case):
    names = [n for n, _, _ in h.hyp]
    order = case.get('order') or names
    S = Spelled(S, len(case['data']))
    for n in order:
        i = names.index(n)
        x, p = S.getHPD(n)
        check_close(x, h.values[i], 'values of hyper-parameter ' + n)
        check_close(p, h.marginal(i), 'distribution of hyper-parameter {}'.format(n))
    for a, b in itertools.permutations(order, 2):
        i, k = names.index(a), names.index(b)
        x, y, p = S.getJHPD([a, b])
        check_close(x, h.values[i], 'values of hyper-parameter ' + a)
        check_close(y, h.values[k], 'values of hyper-parameter ' + b)
        check_close(p, h.joint(i, k), 'joint distribution of hyper-parameters {} and {}'.format(a, b))
    check_close(np.sum(S.hyperParameterDistribution) * np.prod(h.consts), 1., 'normalisation of hyper-parameter distribution')


def body_mixture(case, ctx):
    if combos(case['tm']) > (18 if not case.get('many') else 120) or not hyper_ok(case['tm']):
        raise Reject()
    S = dsl.study(case, 'HyperStudy', fit=MODES[case['mode']])
    fwd = case['mode'] != 'full'

    def compare(flags):
        h = ref.HyperRef(case['om'], case['tm'], case['data'], case.get('ts'), flags, forward_only=fwd)
        compare_hyper(S, h, case['mode'])
        return h
    h = match(triggers(case['tm'], not fwd), compare, ctx)
    if len(h.combos) > 1:
        check_hpd(S, h, case)
    ctx.label(case['mode'], '{} values'.format(len(h.combos)), *kinds(case['tm']))
    if any(p for _, _, p in h.hyp):
        ctx.label('hyper-prior')
    ctx.nontrivial(len(h.combos) > 1)


@st.composite
def s_mixture(draw, shape=None, **kw):
    om = draw(dsl.oms(kinds=OMS, max_n1=6, max_n2=3))
    c = draw(dsl.cases(om=st.just(om), multi='more', priors=True, max_values=3, min_len=2, max_len=5, shape=shape, **kw))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd', 'evi']))
    names = [n for n, _, _ in ref.flat_hypers(c['tm'])]
    c['order'] = draw(st.permutations(names)) if names else []
    return c


# ------------------------------------------------------------------------- differential: single fits of the same library

def body_singles(case, ctx):
    """The average equals the weighted sum of single fits with each combination of values."""
    if combos(case['tm']) > 12 or combos(case['tm']) < 2 or not hyper_ok(case['tm']):
        raise Reject()
    hyp = ref.flat_hypers(case['tm'])
    vals = [v if isinstance(v, list) else [v] for _, v, _ in hyp]
    pv = [ref.hyper_prior_values(v, p) for v, (_, _, p) in zip(vals, hyp)]
    fit = {} if case['mode'] == 'full' else dict(forwardOnly=True)
    S = dsl.study(case, 'HyperStudy', fit=fit)
    singles, lw = [], []
    for idx in itertools.product(*[range(len(v)) for v in vals]):
        s = dsl.study(dict(case, tm=ref.with_values(case['tm'], [v[j] for v, j in zip(vals, idx)])), fit=fit)
        singles.append(s)
        lw.append(s.logEvidence + np.sum([np.log(p[0][j] * p[1]) for p, j in zip(pv, idx)]))
    lw = np.array(lw)
    if not np.isfinite(np.max(lw)):
        raise Reject()
    w = np.exp(lw - np.max(lw))
    check_log(S.logEvidence, np.max(lw) + np.log(np.sum(w)), 'log-evidence versus single fits')
    w /= w.sum()
    post = sum(a * np.array(s.posteriorSequence) for a, s in zip(w, singles) if a > 0)
    check_close(S.posteriorSequence, post, 'distributions versus weighted sum of single fits')
    check_close(S.posteriorMeanValues, sum(a * np.array(s.posteriorMeanValues) for a, s in zip(w, singles) if a > 0),
                'mean values versus weighted sum of single fits', 1e-6, 1e-7)
    check_close(S.hyperParameterDistribution * np.prod([p[1] for p in pv]), w, 'probability of each combination')
    ctx.label(*kinds(case['tm']))
    ctx.nontrivial(True)


def body_prior(case, ctx):
    """Hyper-priors: scale, container and form do not matter."""
    tm = case['tm']
    if combos(tm) < 2 or not hyper_ok(tm):
        raise Reject()
    res = []
    base = None
    import copy
    vals = tm['values'][0]
    w = np.array(case['w'][:len(vals)], dtype=float)
    forms = [np.array(case['w'][:len(vals)]), w, w / w.sum(), w * 0.01, w / w.sum() / 7.,
             lambda x: w[int(np.argmin(np.abs(np.array(vals) - x)))]]
    for f in forms:
        keep = f.copy() if isinstance(f, np.ndarray) else None
        b = dsl.bl()
        with dsl.hush():
            S = b.HyperStudy(silent=True)
            S.load(dsl.build_data(case), silent=True)
            T = dsl.build_tm(dict(tm, priors=None))
            if isinstance(T.prior, (list, tuple)):
                T.prior = [f] + list(T.prior)[1:]
            else:
                T.prior = f
            S.set(dsl.build_om(case['om']), T, silent=True)
            S.fit(silent=True)
        out = (S.logEvidence, np.array(S.posteriorSequence), np.array(S.hyperParameterDistribution))
        base = base or out
        check_log(out[0], base[0], 'log-evidence for equivalent hyper-priors')
        check_close(out[1], base[1], 'distributions for equivalent hyper-priors')
        check_close(out[2], base[2], 'hyper-parameter distribution for equivalent hyper-priors')
        if keep is not None:
            check(np.array_equal(keep, f) and keep.dtype == f.dtype, 'hyper-prior array of the user is modified')
    ctx.label(tm['tm'])
    ctx.nontrivial(np.ptp(w) > 0)


@st.composite
def s_prior(draw):
    om = draw(dsl.oms(kinds=OMS, max_n1=6, max_n2=3))
    d = draw(dsl.datasets(om, min_len=3, max_len=5))
    tm = draw(dsl.leaf_tms(om, dsl.seg_ts(om, len(d), None), dsl.Namer(draw), multi='more',
                           kinds=('GRW', 'CP', 'Regime', 'Alpha', 'Det')))
    if not isinstance(tm['values'][0], list):
        tm['values'] = [[tm['values'][0]]] + tm['values'][1:]
    return {'om': om, 'data': d, 'tm': tm, 'w': draw(st.lists(st.integers(1, 9), min_size=3, max_size=3))}


@st.composite
def s_extreme(draw):
    """Values of hyper-parameters whose evidence differs by up to hundreds of orders of magnitude."""
    n = draw(st.integers(2, 4))
    best = [0, n - 1] + draw(st.lists(st.integers(0, n - 1), max_size=1))  # most probable parameter value for each kind of data
    e = st.sampled_from([180, 120, 60, 30, 10])
    a = st.integers(1, 9)
    om = {'om': 'NumPyTable', 'names': ['x'], 'grids': [draw(dsl.grids(-2., 2., min_n=n, max_n=n))], 'prior': None,
          'table': [[draw(a) * (1. if i == b else 10. ** -draw(e)) for i in range(n)] for b in best]}
    block = draw(st.lists(st.integers(0, len(best) - 1), min_size=2, max_size=5).filter(lambda v: len(set(v)) > 1))
    data = (block * 6)[:draw(st.integers(5, 14))]
    c = {'om': om, 'data': data}
    if draw(st.booleans()):
        dx = ref.lattice(ref.grid_values(om['grids'][0]))
        v = draw(st.lists(st.integers(1, 9), min_size=1, max_size=3, unique=True))
        c['tm'] = {'tm': 'GRW', 'names': ['s'], 'values': [[0.] + [i * 0.2 * dx for i in sorted(v)]], 'target': 'x'}
        p = dsl.hpriors(draw, c['tm']['values'][0], True)
        if p is not None:
            c['tm']['priors'] = [p]
    else:
        c['tm'] = draw(dsl.tms(om, list(range(len(data))), kinds=('GRW', 'CP', 'Static', 'Regime'), multi='more', priors=True))
    c['mode'] = draw(st.sampled_from(['full', 'fwd', 'evi']))
    return c


def body_extreme(case, ctx):
    body_mixture(case, ctx)
    if ctx.is_nontrivial:
        h = ref.HyperRef(case['om'], case['tm'], case['data'], None, (), forward_only=True)
        d = np.ptp(h.logE)
        ctx.label('ratio > 1e{}'.format(int(d / np.log(10)) // 100 * 100))
        ctx.is_nontrivial = bool(d > 50)


@st.composite
def s_many(draw):
    """Many hyper-parameter values, or long time series."""
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'Bernoulli', 'WhiteNoise', 'AR1'), max_n1=6, max_n2=3, large=False))
    d = draw(dsl.datasets(om, min_len=4, max_len=7))
    if draw(st.integers(0, 2)) == 0:
        d = dsl.stretched(d, draw(st.sampled_from([20, 33, 50])), draw(st.integers(0, 30)))
    ts = draw(dsl.timestamps(len(d)))
    tm = draw(dsl.many_tms(om, dsl.seg_ts(om, len(d), ts), most=100 if len(d) < 10 else 30))
    c = {'om': om, 'tm': tm, 'data': d, 'many': True, 'mode': draw(st.sampled_from(['full', 'fwd', 'evi']))}
    if ts is not None:
        c['ts'] = ts
    return c


@st.composite
def s_impossible(draw):
    """Data that is impossible for some parameter values, and for some (or many) hyper-parameter values."""
    om = draw(dsl.oms(kinds=('NumPyTable',), max_n1=5, max_n2=3, large=False))
    size = len(om['table'][0])
    om['table'] = []
    for _ in range(draw(st.integers(2, 4))):
        row = draw(dsl.tiled(st.sampled_from([0., 0., 0., 0.5, 1.]), size))
        row[draw(st.integers(0, size - 1))] = 1.
        if len(om['table']) == 1 and draw(st.integers(0, 3)):  # the first two kinds of data exclude each other
            row = [0. if v else w for v, w in zip(om['table'][0], row)]
        om['table'].append(row)
    d = draw(st.lists(st.sampled_from(list(range(len(om['table']))) * 3 + [None]), min_size=3, max_size=7))
    if draw(st.booleans()):  # e.g. a change between two kinds of data
        a, b = draw(st.integers(1, 6)), draw(st.integers(1, 6))
        d = [0] * a + [1] * b
    ts = dsl.seg_ts(om, len(d), None)
    if draw(st.booleans()) and len(ts) > 3:
        tm = {'tm': 'CP', 'names': ['t'], 'values': [list(draw(st.permutations(ts[:-1])))], 'box': 'list'}
        p = dsl.hpriors(draw, tm['values'][0], True)
        if p is not None:
            tm['priors'] = [p]
    else:
        tm = draw(dsl.tms(om, ts, kinds=('CP', 'CP', 'GRW', 'GRW', 'Static', 'Regime'), multi='more', priors=True))
    return {'om': om, 'data': d, 'tm': tm, 'mode': draw(st.sampled_from(['full', 'full', 'fwd', 'evi']))}


def body_impossible(case, ctx):
    body_mixture(case, ctx)
    if ctx.is_nontrivial:
        h = ref.HyperRef(case['om'], case['tm'], case['data'], None, (), forward_only=True)
        n = int(np.sum(~np.isfinite(h.logE)))
        ctx.label('{} values are ruled out'.format('more than 5' if n > 5 else 'some' if n else 'no'))
        ctx.is_nontrivial = bool(n)


TESTS = [
    Test('impossible', s_impossible, body_impossible, 1500, 10000, 'at least one combination of hyper-parameter values is ruled out'),
    Test('mixture', s_mixture, body_mixture, 5000, 20000, 'at least two combinations of hyper-parameter values'),
    Test('many', s_many, body_mixture, 160, 2000, 'at least two combinations of hyper-parameter values'),
    Test('singles', s_mixture, body_singles, 1500, 6000, 'at least two combinations of hyper-parameter values'),
    Test('extreme', s_extreme, body_extreme, 1200, 8000, 'evidence of two values differs by more than 50 nats'),
    Test('prior', s_prior, body_prior, 700, 3000, 'hyper-prior is not uniform'),
]
from vf.checks import c02  # noqa: E402
KNOWN = c02.KNOWN
