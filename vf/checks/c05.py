"""C05: parameter priors mean the same in every form and place."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, make_ref, check_smooth, check_forward, kinds, check, check_close, check_log
from vf.core import Test, Reject, Violation
from vf.dsl import num

RESETS = ('CP', 'Indep')


@st.composite
def sympy_priors(draw, om):
    """Random variables that fit to the parameter ranges."""
    out = []
    for g in om['grids']:
        v = ref.grid_values(g)
        kinds_ = [['Normal', draw(num(-1., 2.)), draw(num(0.5, 3.))], ['Cauchy', draw(num(-1., 1.)), draw(num(0.5, 3.))],
                  ['Laplace', draw(num(-1., 1.)), draw(num(0.5, 3.))],
                  ['Uniform', float(np.floor(np.min(v))) - 1., float(np.ceil(np.max(v))) + draw(st.integers(0, 2))]]
        if np.all(v > 0):
            kinds_ += [['Exponential', draw(num(0.2, 2.))], ['Gamma', draw(num(0.5, 3.)), draw(num(0.5, 3.))],
                       ['LogNormal', draw(num(-1., 1.)), draw(num(0.3, 1.5))]]
            if np.all(v < 1):
                kinds_ += [['Beta', draw(num(0.5, 3.)), draw(num(0.5, 3.))]] * 2
        out.append(draw(st.sampled_from(kinds_)))
    return {'sympy': out, 'aslist': draw(st.booleans()), 'rv': draw(st.sampled_from(sorted(dsl.RV_NAMES)))}


@st.composite
def prior_oms(draw, forms=('default', None, 'array', 'func', 'sympy', 'sympy2'), kinds=None, zeros=False):
    om = draw(dsl.oms(units=False, kinds=kinds, priors=[f for f in forms if f != 'sympy2'] or ('default',)))
    if 'sympy2' in forms and draw(st.integers(0, 3)) == 0:
        om['prior'] = draw(sympy_priors(om))
    if isinstance(om['prior'], dict) and 'array' in om['prior'] and zeros and draw(st.booleans()):
        w = list(om['prior']['array'])
        for i in draw(st.lists(st.integers(0, len(w) - 1), max_size=len(w) - 1)):
            w[i] = 0 * w[i]
        if sum(w) > 0:
            om['prior'] = {'array': w}
    return om


def form(p):
    return p if isinstance(p, str) else 'none' if p is None else 'sympy' if 'sympy' in p else sorted(p)[0]


def blank(om, n):
    k = ref.SEGMENT.get(om['om'], 1) - 1 + n
    return [[None, None] if om['om'] in ('GaussianMean', 'NumPyGauss') else None for _ in range(k)]


def body_posterior(case, ctx):
    """Without information, the posterior is the prior (all kinds of studies)."""
    om = case['om']
    c = {'om': om, 'tm': case['tm'], 'data': blank(om, 1)}
    r = ref.Ref(om, {'tm': 'Static'}, c['data'])
    p = r.prior / np.sum(r.prior)
    logE = np.log(np.sum(r.prior) * r.D)
    for cls in ('Study', 'HyperStudy', 'ChangepointStudy'):
        if cls == 'ChangepointStudy' and not (case['tm']['tm'] in ('CP', 'Serial')):
            continue
        for fit in (dict(forwardOnly=True), {}):
            S = dsl.study(c, cls, fit=fit)
            check_close(S.posteriorSequence[0], p, cls + ': posterior of a missing data point versus prior')
            check_log(S.logEvidence, logE, cls + ': log-evidence of a missing data point')
            for i, n in enumerate(om['names']):
                x, d = S.getPD(S.formattedTimestamps[0], n)
                ax = tuple(j for j in range(len(om['names'])) if j != i)
                check_close(d, np.sum(p, axis=ax) / r.dx[i], cls + ': density of the prior of parameter ' + n)
    O = dsl.online(om, [('M', case['tm'])])
    for x in dsl.data_points(c):
        dsl.step(O, x)
    check_close(O.marginalizedPosterior, p, 'OnlineStudy: posterior of a missing data point versus prior')
    ctx.label(om['om'], form(om['prior']), case['tm']['tm'])
    ctx.nontrivial(np.ptp(p) > 0)


@st.composite
def s_posterior(draw):
    om = draw(prior_oms(zeros=True))
    return {'om': om, 'tm': draw(dsl.tms(om, [0, 1, 2], nested=False))}


def snapshot(S):
    return dict(logE=float(S.logEvidence), post=np.array(S.posteriorSequence), means=np.array(S.posteriorMeanValues),
                local=np.array(S.localEvidence))


def same(a, b, what):
    check_log(a['logE'], b['logE'], what + ': log-evidence')
    check_close(a['post'], b['post'], what + ': distributions')
    check_close(a['means'], b['means'], what + ': mean values', 1e-6, 1e-7)
    check_close(a['local'], b['local'], what + ': local evidence', 1e-6, 1e-12)


def body_equivalent(case, ctx):
    """Equivalent priors (other scale, data type, form) yield the same results for any transition model."""
    b = dsl.bl()
    om = case['om']
    r = make_ref(case)
    if not np.isfinite(r.logE):
        raise Reject()
    w = r.prior / np.sum(r.prior)
    fit = dict(forwardOnly=True) if case['fwd'] else {}

    def run(prior):
        with dsl.hush():
            S = b.Study(silent=True)
            ts = case.get('ts')
            S.load(dsl.build_data(case), timestamps=None if ts is None else np.array(ts), silent=True)
            o = dsl.build_om(om)
            o.prior = prior
            S.set(o, dsl.build_tm(case['tm']), silent=True)
            S.fit(silent=True, **fit)
        return snapshot(S)
    base = snapshot(dsl.study(case, fit=fit))
    sym = isinstance(om['prior'], dict) and 'sympy' in om['prior']
    shift = np.log(np.sum(r.prior) * r.D) if sym else 0.  # SymPy priors are not cut off at the boundaries of the grid
    for what, prior in (('array', w.copy()), ('scaled array', w * case['c']), ('density array', w / r.D),
                        ('function', lambda *g: w), ('scaled function', lambda *g: case['c'] * w)):
        keep = prior.copy() if isinstance(prior, np.ndarray) else None
        out = run(prior)
        if sym:
            out['logE'] += shift
            base_l, out_l = base['local'].copy(), out['local']
            if case['fwd']:
                out_l[0] *= np.exp(shift)
        same(out, base, 'prior given as {} instead of {}'.format(what, form(om['prior'])))
        if keep is not None:
            check(np.array_equal(keep, prior), 'prior array supplied by the user is modified')
    ctx.label(form(om['prior']), *kinds(case['tm']))
    ctx.nontrivial(np.ptp(w) > 0)


@st.composite
def s_equivalent(draw):
    om = draw(prior_oms(zeros=True))
    c = draw(dsl.cases(om=st.just(om), kinds=('Static', 'GRW', 'CP', 'CP', 'Indep', 'Indep', 'Regime'), max_len=5))
    if any(m['tm'] == 'Regime' for m in ref.leaves(c['tm'])) and 'sympy' in (om['prior'] or ()):
        c['tm'] = {'tm': 'Indep'}
    c['c'] = draw(st.sampled_from([0.001, 0.5, 3., 1e5]))
    c['fwd'] = draw(st.booleans())
    return c


def body_integer(case, ctx):
    """Integer weights are as good as floating point weights."""
    om = case['om']
    A = dsl.study(dict(case, om=dict(om, prior={'array': [int(v) for v in om['prior']['array']]})), fit={})
    B = dsl.study(dict(case, om=dict(om, prior={'array': [float(v) for v in om['prior']['array']]})), fit={})
    same(snapshot(A), snapshot(B), 'prior of integers')
    ctx.label(*kinds(case['tm']))
    ctx.nontrivial(len(set(om['prior']['array'])) > 1)


@st.composite
def s_integer(draw):
    om = draw(dsl.oms(units=False, priors=(None,)))
    n = int(np.prod([len(ref.grid_values(g)) for g in om['grids']]))
    om['prior'] = {'array': draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))}
    return draw(dsl.cases(om=st.just(om), kinds=('Static', 'GRW', 'CP', 'Indep'), max_len=4))


def body_reset(case, ctx):
    """After each reset of the parameters (without further information), the distribution is the prior."""
    om = case['om']
    seg = ref.SEGMENT.get(om['om'], 1)
    n = len(case['data']) - seg + 1
    t = case['t'] % max(1, n - 1)
    if n < 2:
        raise Reject()
    T = t + seg - 1  # time stamp of the last data point before the reset
    data = list(case['data'])
    for i in range(T + 1, T + 1 + seg):
        if i < len(data):
            data[i] = blank(om, 1)[0]
    if seg == 2:
        data[T + 1] = None
    tm = {'CP': {'tm': 'CP', 'names': ['t'], 'values': [T]}, 'Indep': {'tm': 'Indep'},
          'Serial': {'tm': 'Serial', 'parts': [{'tm': 'Static'}, {'tm': 'CP', 'names': ['t'], 'values': [T]}, {'tm': 'Static'}]},
          'CombCP': {'tm': 'Comb', 'models': [{'tm': 'GRW', 'names': ['s'], 'values': [0.3], 'target': om['names'][0]},
                                              {'tm': 'CP', 'names': ['t'], 'values': [T]}]}}[case['tm']]
    c = {'om': om, 'tm': tm, 'data': data}
    r = ref.Ref(om, tm, data)
    p = r.prior / np.sum(r.prior)
    S = dsl.study(c, fit=dict(forwardOnly=True))
    check_close(S.posteriorSequence[t + 1], p, case['tm'] + ': distribution after the reset versus prior')
    H = dsl.study(c, 'HyperStudy', fit=dict(forwardOnly=True))
    check_close(H.posteriorSequence[t + 1], p, case['tm'] + ', HyperStudy: distribution after the reset versus prior')
    O = dsl.online(om, [('M', tm)])
    for x in dsl.data_points(c):
        dsl.step(O, x)
    check_close(O.posteriorSequence[t + 1], p, case['tm'] + ', OnlineStudy: distribution after the reset versus prior')
    # before the reset, nothing of the later data points is known, and vice versa
    F = dsl.study(c, fit={})
    D = dsl.study(dict(c, tm={'tm': 'Static'} if case['tm'] != 'Indep' else tm, data=data[T + 1:]), fit={}) \
        if len(data[T + 1:]) >= seg and seg == 1 and case['tm'] != 'CombCP' else None
    if D is not None:
        check_close(F.posteriorSequence[t + 1:], D.posteriorSequence, case['tm'] + ': distributions after the reset versus '
                    'separate analysis of the data points after the reset')
    ctx.label(case['tm'], om['om'], form(om['prior']))
    ctx.nontrivial(np.ptp(p) > 0)


@st.composite
def s_reset(draw):
    om = draw(prior_oms())
    d = draw(dsl.datasets(om, min_len=3, max_len=6, missing=False, multi=False))
    return {'om': om, 'data': d, 't': draw(st.integers(0, 5)), 'tm': draw(st.sampled_from(['CP', 'Indep', 'Serial', 'CombCP']))}


def body_shared(case, ctx):
    """One model instance (and one prior array) may be used for several studies with the same results."""
    b = dsl.bl()
    with dsl.hush():
        om = dsl.build_om(case['om'])
        keep = np.array(om.prior) if isinstance(om.prior, np.ndarray) else None
        out = []
        for i in range(3):
            S = b.Study(silent=True) if i != 1 else b.HyperStudy(silent=True)
            S.load(dsl.build_data(case), silent=True)
            S.set(om, dsl.build_tm(case['tm']), silent=True)
            S.fit(**dsl.loud(i))
            out.append(snapshot(S))
    same(out[1], out[0], 'second use of the same observation model')
    same(out[2], out[0], 'third use of the same observation model')
    if keep is not None:
        check(np.array_equal(keep, om.prior), 'prior array supplied by the user is modified')
    ctx.label(form(case['om']['prior']))
    ctx.nontrivial(True)


@st.composite
def s_shared(draw):
    om = draw(prior_oms(zeros=True))
    return draw(dsl.cases(om=st.just(om), kinds=('Static', 'GRW', 'CP', 'Indep'), nested=False, max_len=4, stamps=False))


TESTS = [
    Test('posterior', s_posterior, body_posterior, 400, 8000, 'prior is not uniform'),
    Test('equivalent', s_equivalent, body_equivalent, 400, 8000, 'prior is not uniform'),
    Test('integer', s_integer, body_integer, 200, 4000, 'different weights'),
    Test('reset', s_reset, body_reset, 500, 8000, 'prior is not uniform'),
    Test('shared', s_shared, body_shared, 200, 4000, 'always'),
]
KNOWN = {}
