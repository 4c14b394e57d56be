"""C16: simulated observations follow the posterior predictive distribution."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c10, c11, c13
from vf.checks.c12 import expect_error
from vf.common import check, check_close, hyper_ok, kinds, make_ref
from vf.core import Test, Reject, Violation

OMS = ('Bernoulli', 'Poisson', 'WhiteNoise', 'Gaussian', 'Laplace', 'SciPyPoisson', 'SciPyGamma', 'SciPyNorm', 'NumPyTable', 'NumPyGauss',
       'GaussianMean')


def observations(om):
    k = om['om']
    if k == 'Bernoulli':
        return st.integers(0, 1)
    if k in ('Poisson', 'SciPyPoisson'):
        return st.integers(0, 15)
    if k == 'NumPyTable':
        return st.integers(0, len(om['table']) - 1)
    if k in ('SciPyGamma', 'SymPyExp'):
        return dsl.num(0.1, 8.)
    if k in ('GaussianMean', 'NumPyGauss'):
        return st.tuples(dsl.num(-4., 4.), dsl.num(0.3, 2.)).map(list)
    return dsl.num(-4., 4.)


def xs(om):
    """Observation values; now and then a lot of them."""
    few = st.lists(observations(om), min_size=1, max_size=5)
    return st.one_of(few, few, few, st.builds(dsl.stretched, few, st.sampled_from([20, 33, 64, 100, 150]), st.integers(0, 9)))


def predictive(om, grid, xs, post):
    out = []
    for x in xs:
        with np.errstate(all='ignore'):
            out.append(np.sum(np.asarray(ref.pdf1(om, grid, [x])) * np.ones(grid[0].shape) * post))
    return np.array(out)


def compare(S, om, posts, stamps, case, ctx, name=''):
    grid = np.meshgrid(*[ref.grid_values(g) for g in om['grids']], indexing='ij')
    xs = case['x']
    form = case['form']
    arg = list(xs) if form == 'list' else np.array(xs, dtype=float if form == 'float' else None)
    if form == 'float':
        xs = [float(v) if not isinstance(v, list) else [float(u) for u in v] for v in xs]
    keep = np.array(arg, copy=True)
    before = np.array(S.posteriorSequence, copy=True)
    todo = [(None, np.mean(posts, axis=0))] + [(stamps[i % len(stamps)], posts[i % len(stamps)]) for i in case['times']]
    for t, post in todo:
        exp = predictive(om, grid, xs, post)
        what = '{}simulation at {}'.format(name, 'all times' if t is None else t)
        kw = {} if t is None else {'t': t}
        with dsl.hush():
            check_close(S.simulate(arg, density=True, **kw), exp, what + ' (density)')
            if np.sum(exp) > 1e-200:
                p = S.simulate(arg, **kw)
                check_close(p, exp / np.sum(exp), what + ' (probabilities)')
                check_close(np.sum(p), 1., what + ' (sum)')
                check_close(S.simulate(arg, density=False, **kw), exp / np.sum(exp), what + ' (probabilities)')
    check(np.array_equal(keep, np.array(arg)), 'observation values are modified')
    check_close(S.posteriorSequence, before, 'posterior after simulation')
    for t in case['bad']:
        if t not in list(stamps):
            expect_error(lambda: S.simulate(arg, t=t), 'simulation at unknown time {}'.format(t))
    return todo


def body_fit(case, ctx):
    cls, om, tm = case['cls'], case['om'], case['tm']
    if cls == 'Study':
        tm = dsl.scalar_tm(tm)
    else:
        if not hyper_ok(tm) or not ref.flat_hypers(tm):
            raise Reject()
        n = 1
        for _, v, _ in ref.flat_hypers(tm):
            n *= len(v) if isinstance(v, list) else 1
        if n > 12:
            raise Reject()
    fit = {'forwardOnly': True} if case['fwd'] else {}
    S = dsl.study(dict(case, tm=tm), cls, fit=fit)
    if not np.isfinite(S.logEvidence):
        raise Reject()
    seg = ref.SEGMENT.get(om['om'], 1)
    if seg > 1:
        expect_error(lambda: S.simulate(np.array([0., 1.])), 'simulation with segment length {}'.format(seg))
        raise Reject()
    stamps = case.get('ts') or list(range(len(case['data'])))
    compare(S, om, np.array(S.posteriorSequence), stamps, case, ctx)
    ctx.label(cls, om['om'], *kinds(tm))
    ctx.nontrivial(len(stamps) > 1 and len(case['x']) > 1)


@st.composite
def s_fit(draw):
    om = draw(dsl.oms(kinds=OMS + ('AR1',), max_n1=7, max_n2=4))
    c = draw(dsl.cases(om=st.just(om), multi=True, priors=True, max_values=2, max_len=5))
    c['cls'] = draw(st.sampled_from(['Study', 'HyperStudy']))
    c['fwd'] = draw(st.booleans())
    c['x'] = draw(xs(om))
    c['form'] = draw(st.sampled_from(['array', 'float', 'list']))
    c['times'] = draw(st.lists(st.integers(0, 6), max_size=3))
    c['bad'] = [draw(st.sampled_from([-100, 5000, 0.1, 2.1])), 3001]
    if c['cls'] == 'Study':
        c13.unsorted(draw, c)
    return c


def body_reference(case, ctx):
    """Posterior from the reference implementation: constant parameters, any observation model."""
    om = case['om']
    c = dict(case, tm={'tm': 'Static'})
    r = make_ref(c, backward=True)
    if not np.isfinite(r.logE):
        raise Reject()
    S = dsl.study(c, case['cls'], fit={})
    stamps = case.get('ts') or list(range(len(case['data'])))
    compare(S, om, np.array(r.smoothed), stamps, case, ctx)
    ctx.label(om['om'])
    ctx.nontrivial(len(case['x']) > 1)


@st.composite
def s_reference(draw, kinds=OMS):
    om = draw(dsl.oms(kinds=kinds, max_n1=7, max_n2=4))
    d = draw(dsl.datasets(om, max_len=5))
    c = {'om': om, 'data': d, 'cls': draw(st.sampled_from(['Study', 'HyperStudy']))}
    ts = draw(dsl.timestamps(len(d)))
    if ts:
        c['ts'] = ts
    c['x'] = draw(st.lists(observations(om), min_size=1, max_size=6))
    c['form'] = draw(st.sampled_from(['array', 'float', 'list']))
    c['times'] = draw(st.lists(st.integers(0, 6), max_size=2))
    c['bad'] = [9999]
    c13.unsorted(draw, c)
    return c


def body_online(case, ctx):
    c11.usable(case, 20)
    S, names = c11.start(case, True)
    pts = dsl.data_points(case)
    posts = []
    for x in pts:
        dsl.step(S, x)
        posts.append(np.array(S.marginalizedPosterior))
        if len(posts) in case['at'] or len(posts) == len(pts):
            compare(S, case['om'], np.array(posts), list(range(len(posts))), case, ctx, 'on-line ')
    ctx.label('on-line', case['om']['om'])
    ctx.nontrivial(len(pts) > 1 and len(case['x']) > 1)


@st.composite
def s_online(draw):
    c = draw(c11.s_batch(max_len=4))
    if c['om']['om'] in ref.SEGMENT:
        c['om'] = draw(dsl.oms(kinds=('Poisson', 'WhiteNoise', 'Bernoulli'), max_n1=6))
        c['data'] = draw(dsl.datasets(c['om'], max_len=4))
        c['tms'] = [{'tm': 'GRW', 'names': ['s{}'.format(i)], 'values': [[0.2, 0.5]], 'target': c['om']['names'][0]} for i, _ in enumerate(c['tms'])]
    c['x'] = draw(st.lists(observations(c['om']), min_size=1, max_size=4))
    c['form'] = draw(st.sampled_from(['array', 'float', 'list']))
    c['times'] = draw(st.lists(st.integers(0, 4), max_size=2))
    c['bad'] = [50, -3]
    c['at'] = draw(st.lists(st.integers(1, 4), max_size=2))
    return c


TESTS = [
    Test('fit', s_fit, body_fit, 900, 12000, 'more than one time step and observation value'),
    Test('reference', s_reference, body_reference, 700, 10000, 'more than one observation value'),
    Test('online', s_online, body_online, 250, 3000, 'more than one time step and observation value'),
    Test('symbolic', lambda: s_reference(kinds=dsl.SLOW), body_reference, 24, 200, 'more than one observation value'),
]
KNOWN = {}
