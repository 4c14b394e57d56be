"""C19: results do not depend on arbitrary conventions."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks.c13 import om3
from vf.common import check, check_close, check_log, hyper_ok, kinds, triggers
from vf.core import Test, Reject, Violation


def walk(tm, f):
    """Copy of a transition model with f applied to all (leaf) models."""
    tm = copy.deepcopy(tm)
    for k in ('models', 'parts'):
        if k in tm:
            tm[k] = [walk(m, f) for m in tm[k]]
    return f(tm) or tm


def small(tm, most=10):
    n = 1
    for _, v, _ in ref.flat_hypers(tm):
        n *= len(v) if isinstance(v, list) else 1
    return n <= most


def fit(case, mode='full'):
    cls = case.get('cls', 'Study')
    return dsl.study(case, cls, fit={'forwardOnly': True} if mode == 'fwd' else {})


def prepare(case):
    if case.get('cls', 'Study') == 'Study':
        case['tm'] = dsl.scalar_tm(case['tm'])
    elif not hyper_ok(case['tm']) or not small(case['tm']):
        raise Reject()
    if ref.noisy(case['tm']):  # no magnified rounding errors
        hyp = [v if isinstance(v, list) else [v] for _, v, _ in ref.flat_hypers(case['tm'])]
        for v in itertools.product(*hyp):
            tm = ref.with_values(case['tm'], v)
            flags = [()] + ([triggers(tm, True)] if case.get('mode') != 'fwd' else [])
            for f in flags:
                r = ref.Ref(case['om'], tm, case['data'], case.get('ts'), f).filter()
                if np.isfinite(r.logE) and case.get('mode') != 'fwd':
                    r.smooth(exact=False)
                ref.well_conditioned(r)


def hyper(S, case, rename=lambda n: n):
    out = {}
    for n, v, _ in ref.flat_hypers(case['tm']):
        try:
            with dsl.hush():
                x, p = S.getHPD(n)
        except Exception as e:
            if type(e).__name__ != 'PostProcessingError':
                raise
            out[rename(n)] = None
            continue
        out[rename(n)] = dict(zip([float(u) for u in np.ravel(x)], [float(u) for u in np.ravel(p)]))
    return out


def compare_hyper(a, b, what, mapx=lambda x: x):
    check(set(a) == set(b), what + ': names of hyper-parameters')
    for n in a:
        if a[n] is None or b[n] is None:
            check(a[n] is None and b[n] is None, what + ': distribution of {}'.format(n))
            continue
        want = sorted((mapx(k), v) for k, v in a[n].items())
        got = sorted(b[n].items())
        u, w = [np.array([k for k, _ in z]) for z in (want, got)]
        check(len(u) == len(w) and np.all(np.abs(u - w) <= 1e-9 * np.max(np.abs(u))), '{}: values of {}: {} versus {}'.format(what, n, u, w))
        for (k, v), (_, g) in zip(want, got):
            check_close(g, v, '{}: probability of {} = {}'.format(what, n, k))


def finite(*S):
    for s in S:
        if not np.isfinite(s.logEvidence) or np.isnan(s.posteriorSequence).any():
            raise Reject()


def same(S, T, what, shift=0., post=lambda p: p, local=True, seq=True, tol=1e-7, factor=1.):
    check_log(T.logEvidence, S.logEvidence + shift, what + ': log-evidence', tol)
    if seq:
        check_close(np.array(T.posteriorSequence), np.array([post(p) for p in S.posteriorSequence]), what + ': distributions', 1e-6, 1e-9)
    if local:
        check_close(T.localEvidence, np.array(S.localEvidence) * factor, what + ': local evidence', 1e-6, 1e-12)


# --------------------------------------------------------------------------------------------------------------- names

def body_names(case, ctx):
    prepare(case)
    S = fit(case, case['mode'])
    finite(S)
    om = dict(case['om'])
    new = dict(zip(om['names'], case['new']))
    if om['om'].startswith('SciPy'):
        new = {n: n for n in new}  # given by SciPy
    om['names'] = [new[n] for n in om['names']]
    hn = {}

    def f(m):
        if 'target' in m:
            m['target'] = new[m['target']]
        if 'names' in m and m['tm'] not in ('Serial', 'Comb'):
            for n in m['names']:
                hn[n] = case['hnew'][len(hn)]
            m['names'] = [hn[n] for n in m['names']]
    tm = walk(case['tm'], f)
    T = fit(dict(case, om=om, tm=tm), case['mode'])
    same(S, T, 'other names')
    check_close(T.posteriorMeanValues, S.posteriorMeanValues, 'other names: mean values')
    for n in new:
        check_close(T.getPDs(new[n])[1], S.getPDs(n)[1], 'other names: marginal distributions')
    if case.get('cls') == 'HyperStudy':
        compare_hyper(hyper(S, case, lambda n: hn[n]), hyper(T, dict(case, tm=tm)), 'other names')
    ctx.label(om['om'], *kinds(tm))
    ctx.nontrivial(len(hn) >= 1 and len(case['data']) > 1)


NAMES = ['zz', 'b1', 'alpha', 'x_2', 'q', 'Mean', 'std1', 'k9', 'a0', 'W', 'm1', 'n2', 'beta', 's3', 'v4', 'u5', 'o6', 'P7', 'r8', 'f9', 'g10', 'h11',
         'i12', 'j13', 'l14', 't15']


@st.composite
def s_names(draw):
    om = draw(dsl.oms(max_n1=6, max_n2=4, offset=True))
    c = draw(dsl.cases(om=st.just(om), multi=True, priors=True, max_values=2, max_len=5, min_len=2))
    p = draw(st.permutations(NAMES))
    c['new'], c['hnew'] = p[:3], p[3:]
    c['cls'] = draw(st.sampled_from(['Study', 'HyperStudy']))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# --------------------------------------------------------------------------------------------- order of the parameters

def transpose(om, perm):
    shape = [len(ref.grid_values(g)) for g in om['grids']]
    o = copy.deepcopy(om)
    o['names'] = [om['names'][i] for i in perm]
    o['grids'] = [om['grids'][i] for i in perm]
    tr = lambda v: np.array(v).reshape(shape).transpose(perm).ravel().tolist()
    o['table'] = [tr(t) for t in om['table']]
    if isinstance(om['prior'], dict):
        if 'array' in om['prior']:
            o['prior'] = {'array': tr(om['prior']['array'])}
        elif 'func' in om['prior']:
            raise Reject()
        else:
            o['prior'] = {'sympy': [om['prior']['sympy'][i] for i in perm]}
    return o


def body_order(case, ctx):
    prepare(case)
    om, perm = case['om'], case['perm'][:len(case['om']['names'])]
    if sorted(perm) != list(range(len(om['names']))) or perm == sorted(perm):
        perm = list(range(len(om['names'])))[::-1]
    if len(om['names']) < 2:
        raise Reject()
    if len(om['names']) == 3 and any(m['tm'] == 'Alpha' for m in ref.leaves(case['tm'])):
        raise Reject()  # not available for three parameters
    S = fit(case, case['mode'])
    finite(S)

    def f(m):
        if m['tm'] == 'Biv':
            m['values'] = [m['values'][1], m['values'][0], m['values'][2]]
            m['names'] = [m['names'][1], m['names'][0], m['names'][2]]
            if m.get('priors'):
                m['priors'] = [m['priors'][1], m['priors'][0], m['priors'][2]]
    tm = walk(case['tm'], f)
    T = fit(dict(case, om=transpose(om, perm), tm=tm), case['mode'])
    same(S, T, 'order of parameters', post=lambda p: np.transpose(p, perm))
    check_close(T.posteriorMeanValues, np.array(S.posteriorMeanValues)[perm], 'order of parameters: mean values')
    for n in om['names']:
        check_close(T.getPDs(n)[1], S.getPDs(n)[1], 'order of parameters: marginal distributions')
    if case.get('cls') == 'HyperStudy':
        compare_hyper(hyper(S, case), hyper(T, dict(case, tm=tm)), 'order of parameters')
    ctx.label('{} parameters'.format(len(om['names'])), *kinds(tm))
    ctx.nontrivial(len(case['data']) > 1 and any(m['tm'] != 'Static' for m in ref.leaves(tm)))


@st.composite
def s_order(draw):
    if draw(st.integers(0, 3)) == 2:
        om = draw(om3())
        leaves = tuple(k for k in dsl.LEAVES if k not in ('Alpha', 'Biv'))
    else:
        om = draw(dsl.oms(kinds=('NumPyTable',), priors=('default', None, 'array', 'sympy'), max_n2=5).filter(lambda o: len(o['names']) == 2))
        leaves = dsl.LEAVES
    c = draw(dsl.cases(om=st.just(om), kinds=leaves, multi=True, priors=True, max_values=2, max_len=5, min_len=2))
    c['perm'] = draw(st.permutations(range(len(om['names']))))
    c['cls'] = draw(st.sampled_from(['Study', 'Study', 'HyperStudy']))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# ------------------------------------------------------------------------------------------------ direction of the grid

SYMMETRIC = ('Static', 'GRW', 'Alpha', 'CP', 'Indep', 'Regime', 'NotEqual')


def body_reverse(case, ctx):
    prepare(case)
    om, a = case['om'], case['axis'] % len(case['om']['names'])
    shape = [len(ref.grid_values(g)) for g in om['grids']]
    o = copy.deepcopy(om)
    o['grids'][a] = {'vals': ref.grid_values(om['grids'][a])[::-1].tolist()}
    o['grids'] = [o['grids'][i] if i == a else g for i, g in enumerate(om['grids'])]
    flip = lambda v: np.flip(np.array(v).reshape(shape), a).ravel().tolist()
    if 'table' in om:
        o['table'] = [flip(t) for t in om['table']]
    if isinstance(om['prior'], dict) and 'array' in om['prior']:
        o['prior'] = {'array': flip(om['prior']['array'])}
    S = fit(case, case['mode'])
    finite(S)
    T = fit(dict(case, om=o), case['mode'])
    same(S, T, 'reversed grid', post=lambda p: np.flip(p, a))
    check_close(T.posteriorMeanValues, S.posteriorMeanValues, 'reversed grid: mean values', 1e-6, 1e-7)
    ctx.label(om['om'], *kinds(case['tm']))
    ctx.nontrivial(len(case['data']) > 1 and any(m['tm'] != 'Static' for m in ref.leaves(case['tm'])))


@st.composite
def s_reverse(draw):
    om = draw(dsl.oms(max_n1=7, max_n2=4, offset=True))
    c = draw(dsl.cases(om=st.just(om), kinds=SYMMETRIC, max_len=5, min_len=2))
    c['axis'] = draw(st.integers(0, 2))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# ---------------------------------------------------------------------------------------------------- origin of the time

def body_time(case, ctx):
    prepare(case)
    d = case['shift']
    if any(m['tm'] == 'Det' and m['fn'] != 'lin' for m in ref.leaves(case['tm'])):
        raise Reject()
    S = fit(case, case['mode'])
    finite(S)
    ts = case.get('ts') or list(range(len(case['data'])))

    def f(m):
        if m['tm'] in ('CP', 'Break'):
            v = m['values'][0]
            m['values'] = [[x + d for x in v] if isinstance(v, list) else v + d]
    tm = walk(case['tm'], f)
    T = fit(dict(case, tm=tm, ts=[t + d for t in ts]), case['mode'])
    same(S, T, 'other origin of time')
    check_close(T.posteriorMeanValues, S.posteriorMeanValues, 'other origin of time: mean values')
    if case.get('cls') == 'HyperStudy':
        points = [n for m in ref.leaves(tm) if m['tm'] in ('CP', 'Break') for n in m['names']]
        h, g = hyper(S, case), hyper(T, dict(case, tm=tm))
        for n in h:
            if h[n] is None or g[n] is None:
                check(h[n] is None and g[n] is None, 'other origin of time')
            else:
                compare_hyper({n: h[n]}, {n: g[n]}, 'other origin of time', (lambda x: x + d) if n in points else (lambda x: x))
    ctx.label(*kinds(tm))
    ctx.nontrivial(len(case['data']) > 1 and d != 0 and any(m['tm'] in ('CP', 'Break', 'Det') for m in ref.leaves(tm)))


@st.composite
def s_time(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'NumPyTable', 'AR1', 'Bernoulli'), priors=('default', None, 'array', 'func'), max_n1=6, max_n2=4))
    c = draw(dsl.cases(om=st.just(om), kinds=('CP', 'CP', 'Static', 'GRW', 'Det', 'Det', 'Regime', 'Indep'), multi=True, max_values=3, max_len=6, min_len=2))
    c['shift'] = draw(st.sampled_from([1, -1, 7, -30, 1852, 0.5]))
    c['cls'] = draw(st.sampled_from(['Study', 'HyperStudy']))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# -------------------------------------------------------------------------------------------------------- physical units

SCALED = {'WhiteNoise': [1], 'Gaussian': [1, 1], 'Laplace': [1, 1], 'SciPyNorm': [1, 1], 'AR1': [0, 1], 'ScaledAR1': [0, 1], 'GaussianMean': [1],
          'NumPyGauss': [1]}


def body_units(case, ctx):
    prepare(case)
    c, om = case['factor'], case['om']
    which = SCALED[om['om']]
    fac = dict(zip(om['names'], [c ** w for w in which]))
    total = float(np.prod(list(fac.values())))
    if any(m['tm'] in ('CP',) for m in ref.leaves(case['tm'])):
        raise Reject()  # see known finding K1 (other checks)
    mode = case['mode']
    if any(m['tm'] == 'Regime' for m in ref.leaves(case['tm'])):
        mode = 'fwd'  # see known finding K7
    S = fit(case, mode)
    finite(S)
    o = copy.deepcopy(om)
    o['grids'] = [{'vals': (ref.grid_values(g) * fac[n]).tolist()} for g, n in zip(om['grids'], om['names'])]
    shift = 0.
    for g, n, w in zip(om['grids'], om['names'], which):
        # categorical parameters have no unit of length
        if 'vals' in g and not is_regular(ref.grid_values(g)) and w:
            total /= fac[n]

    def f(m):
        if m['tm'] in ('GRW', 'Det') or m['tm'] == 'Alpha':
            k = fac[m['target']]
            if m['tm'] == 'Det' and m['fn'] == 'poly':
                m['values'] = [scale(v, k) for v in m['values']]
            else:
                m['values'] = [scale(m['values'][0], k)] + m['values'][1:]
        elif m['tm'] == 'Biv':
            m['values'] = [scale(m['values'][0], fac[om['names'][0]]), scale(m['values'][1], fac[om['names'][1]]), m['values'][2]]
        elif m['tm'] in ('Regime', 'NotEqual'):
            m['values'] = [shifted(m['values'][0], -np.log10(total))]
    for g, n in zip(om['grids'], om['names']):
        if not is_regular(ref.grid_values(g)):
            # random walks need a unit of length
            if any(m.get('target') == n or m['tm'] == 'Biv' for m in ref.leaves(case['tm'])):
                raise Reject()
    tm = walk(case['tm'], f)
    data = [scale_row(r, c) for r in case['data']]
    T = fit(dict(case, om=o, tm=tm, data=data, float=True), mode)
    # densities of the data have the inverse unit of the data
    seg = ref.SEGMENT.get(om['om'], 1)
    n = valid(case['data'], om['om'], seg)
    same(S, T, 'other unit of data', -np.log(c) * n, local=False)
    check_close(np.array(T.posteriorMeanValues) / np.array([fac[x] for x in om['names']])[:, None], S.posteriorMeanValues,
                'other unit of data: mean values', 1e-6, 1e-7)
    ctx.label(om['om'], *kinds(tm))
    ctx.nontrivial(len(case['data']) > 1 and any(m['tm'] != 'Static' for m in ref.leaves(tm)))


def is_regular(v):
    d = np.diff(v)
    return bool(np.all(np.abs(d - d[0]) < 1e-9 * np.max(np.abs(v) + np.abs(d[0]))))


def scale(v, k):
    return [x * k for x in v] if isinstance(v, list) else v * k


def shifted(v, k):
    return [x + k for x in v] if isinstance(v, list) else v + k


def scale_row(r, c):
    if isinstance(r, list):
        return [None if x is None else x * c for x in r]
    return None if r is None else r * c


def valid(data, kind, seg):
    """Number of measurements that enter the evidence."""
    if kind in ref.VECTOR:
        return sum(1 for r in data if all(x is not None for x in r))
    cols = list(zip(*[r if isinstance(r, list) else [r] for r in data]))
    return sum(1 for col in cols for i in range(len(col) - seg + 1) if all(x is not None for x in col[i:i + seg]))


@st.composite
def s_units(draw):
    om = draw(dsl.oms(kinds=tuple(sorted(SCALED)), priors=('default', None, 'array'), max_n1=7, max_n2=4))
    c = draw(dsl.cases(om=st.just(om), kinds=tuple(k for k in dsl.LEAVES if k != 'CP'), multi=True, max_values=2, max_len=5, min_len=2))
    c['factor'] = 2. ** draw(st.sampled_from([1, -1, 3, 10, -10, 20, -20, 33, -33]))
    c['cls'] = 'Study'
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# -------------------------------------------------------------------------------------------------------- order of data

def body_data(case, ctx):
    """Constant parameters: order of data, missing data and measurements that share a time step do not matter."""
    om = case['om']
    c = dict(case, tm={'tm': 'Static'})
    S = fit(c)
    finite(S)
    p = [i for i in case['perm'] if i < len(case['data'])]
    data = [case['data'][i] for i in p]
    T = fit(dict(c, data=data))
    same(S, T, 'permuted data', local=False)
    # missing data in between
    gap = [None] * len(data[0]) if isinstance(data[0], list) else None
    for i in case['gaps']:
        data.insert(i % (len(data) + 1), gap)
    ts = None if not case.get('ts') else [case['ts'][0] + 3 * i for i in range(len(data))]
    T = fit(dict({k: v for k, v in c.items() if k != 'ts'}, data=data, **({'ts': ts} if ts else {})))
    check_log(T.logEvidence, S.logEvidence, 'missing data: log-evidence')
    for q in np.array(T.posteriorSequence):
        check_close(q, S.posteriorSequence[0], 'missing data: distributions')
    # several measurements per time step instead of several time steps
    if om['om'] not in ref.VECTOR:
        flat = [x for r in case['data'] for x in (r if isinstance(r, list) else [r])]
        w = case['width']
        one = fit(dict({k: v for k, v in c.items() if k != 'ts'}, data=flat))
        rows = [flat[i:i + w] + [None] * (w - len(flat[i:i + w])) for i in range(0, len(flat), w)]
        two = fit(dict({k: v for k, v in c.items() if k != 'ts'}, data=rows))
        for U, what in ((one, 'single measurements'), (two, '{} measurements per time step'.format(w))):
            check_log(U.logEvidence, S.logEvidence, what + ': log-evidence')
            check_close(U.posteriorSequence[-1], S.posteriorSequence[-1], what + ': distribution')
    ctx.label(om['om'])
    ctx.nontrivial(len(case['data']) > 2 and p != sorted(p))


@st.composite
def s_data(draw):
    om = draw(dsl.oms(kinds=tuple(k for k in dsl.OM1 + dsl.OM2 if k not in ref.SEGMENT), max_n1=7, max_n2=4))
    d = draw(dsl.datasets(om, min_len=2, max_len=6))
    c = {'om': om, 'data': d, 'perm': draw(st.permutations(range(len(d)))), 'gaps': draw(st.lists(st.integers(0, 6), max_size=3)),
         'width': draw(st.integers(1, 4))}
    ts = draw(dsl.timestamps(len(d)))
    if ts:
        c['ts'] = ts
    return c


def body_columns(case, ctx):
    """Any transition model: the order of several measurements at a time step does not matter."""
    prepare(case)
    om = case['om']
    w = len(case['cols'])
    data = []
    for i, r in enumerate(case['data']):
        r = r if isinstance(r, list) else [r]
        data.append([case['data'][(i + j) % len(case['data'])] if not isinstance(case['data'][0], list) else r[j % len(r)] for j in range(w)])
    S = fit(dict(case, data=data), case['mode'])
    finite(S)
    T = fit(dict(case, data=[[r[j] for j in case['cols']] for r in data]), case['mode'])
    same(S, T, 'order of measurements')
    # a column without values
    T = fit(dict(case, data=[r + [None] for r in data]), case['mode'])
    same(S, T, 'additional column without values')
    ctx.label(om['om'], *kinds(case['tm']))
    ctx.nontrivial(case['cols'] != sorted(case['cols']) and len(data) > 1)


@st.composite
def s_columns(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Bernoulli', 'Gaussian', 'Laplace', 'WhiteNoise', 'AR1', 'ScaledAR1', 'SciPyNorm', 'SciPyPoisson'), max_n1=6, max_n2=4))
    c = draw(dsl.cases(om=st.just(om), max_len=5, min_len=2))
    c['cols'] = draw(st.permutations(range(draw(st.integers(2, 3)))))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# ------------------------------------------------------------------------------------------------ equivalent structures

def body_structure(case, ctx):
    """Wrapping a transition model, adding a static model, or splitting it at a break-point without any change."""
    prepare(case)
    tm = case['tm']
    S = fit(case, case['mode'])
    finite(S)
    ts = dsl.seg_ts(case['om'], len(case['data']), case.get('ts'))
    copyof = walk(tm, lambda m: m.update(names=[n + 'z' for n in m['names']]) if 'names' in m else None)
    forms = {'combined with itself only': {'tm': 'Comb', 'models': [tm]},
             'static model first': {'tm': 'Comb', 'models': [{'tm': 'Static'}, tm]},
             'static model last': {'tm': 'Comb', 'models': [tm, {'tm': 'Static'}]},
             'nested': {'tm': 'Comb', 'models': [{'tm': 'Comb', 'models': [tm]}, {'tm': 'Static'}]}}
    if len(ts) > 2 and case.get('cls') == 'Study':
        b = ts[case['at'] % (len(ts) - 1)]
        forms['split at break-point'] = {'tm': 'Serial', 'parts': [tm, {'tm': 'Break', 'names': ['tb'], 'values': [b]}, copyof]}
    for what in sorted(forms):
        if what == 'split at break-point' and any(m['tm'] in ('CP', 'Det') for m in ref.leaves(tm)):
            continue
        T = fit(dict(case, tm=forms[what]), case['mode'])
        same(S, T, what)
        check_close(T.posteriorMeanValues, S.posteriorMeanValues, what + ': mean values')
        if case.get('cls') == 'HyperStudy':
            compare_hyper(hyper(S, case), hyper(T, dict(case, tm=forms[what])), what)
    ctx.label(case['om']['om'], *kinds(tm))
    ctx.nontrivial(len(ts) > 2 and tm['tm'] != 'Static')


@st.composite
def s_structure(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'NumPyTable', 'AR1', 'Bernoulli'), max_n1=6, max_n2=4))
    c = draw(dsl.cases(om=st.just(om), nested=False, multi=True, priors=True, max_values=2, max_len=5, min_len=2))
    c['at'] = draw(st.integers(0, 5))
    c['cls'] = draw(st.sampled_from(['Study', 'Study', 'HyperStudy']))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# ----------------------------------------------------------------------------------------------- order of hyper-parameters

def body_hyper(case, ctx):
    """The order of hyper-parameter values is arbitrary."""
    case['cls'] = 'HyperStudy'
    prepare(case)
    S = fit(case, case['mode'])
    finite(S)
    turn = case['turn']
    k = [0]

    def f(m):
        if 'names' in m and m['tm'] not in ('Serial', 'Comb'):
            vals, pri = list(m['values']), list(m.get('priors') or [None] * len(m['values']))
            for i, v in enumerate(vals):
                if isinstance(v, list) and len(v) > 1 and m['tm'] not in ('Break',):
                    p = sorted(range(len(v)), key=lambda j: (j * 7 + turn[(k[0] + j) % len(turn)]) % 11)
                    k[0] += 1
                    vals[i] = [v[j] for j in p]
                    if pri[i] and 'array' in pri[i]:
                        pri[i] = {'array': [pri[i]['array'][j] for j in p]}
                    elif pri[i] and 'sympy' in pri[i]:
                        raise Reject()  # densities refer to the spacing of the values
            m['values'] = vals
            if m.get('priors'):
                m['priors'] = pri
    tm = {'tm': 'Comb', 'models': [case['tm']]} if False else walk(case['tm'], f)
    if serial(tm):
        raise Reject()
    T = fit(dict(case, tm=tm), case['mode'])
    check_log(T.logEvidence, S.logEvidence, 'order of hyper-parameter values: log-evidence')
    check_close(T.posteriorSequence, S.posteriorSequence, 'order of hyper-parameter values: distributions')
    compare_hyper(hyper(S, case), hyper(T, dict(case, tm=tm)), 'order of hyper-parameter values')
    ctx.label(*kinds(tm))
    ctx.nontrivial(tm != case['tm'])


def serial(tm):
    return any(m['tm'] == 'Break' for m in ref.leaves(tm)) or tm['tm'] == 'Serial' or any(serial(m) for m in tm.get('models', []))


@st.composite
def s_hyper(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian', 'NumPyTable', 'WhiteNoise'), max_n1=6, max_n2=4))
    c = draw(dsl.cases(om=st.just(om), multi='more', priors=True, max_values=4, max_len=5, min_len=2, shape=draw(st.sampled_from(['leaf', 'leaf', 'comb']))))
    c['turn'] = draw(st.lists(st.integers(0, 10), min_size=3, max_size=6))
    c['mode'] = draw(st.sampled_from(['full', 'full', 'fwd']))
    return c


# -------------------------------------------------------------------------------------------------- direction of the time

def body_backwards(case, ctx):
    """Flat prior and symmetric random walk: time has no direction."""
    om = dict(case['om'], prior=None)
    c = dict({k: v for k, v in case.items() if k != 'ts'}, om=om)
    S = fit(c)
    finite(S)
    T = fit(dict(c, data=case['data'][::-1]))
    check_log(T.logEvidence, S.logEvidence, 'reversed time: log-evidence')
    check_close(np.array(T.posteriorSequence)[::-1], S.posteriorSequence, 'reversed time: distributions', 1e-6, 1e-9)
    ctx.label(om['om'], *kinds(case['tm']))
    ctx.nontrivial(len(case['data']) > 1 and case['tm']['tm'] != 'Static')


@st.composite
def s_backwards(draw):
    om = draw(dsl.oms(kinds=tuple(k for k in dsl.OM1 + dsl.OM2 if k not in ref.SEGMENT), priors=(None,), max_n1=9, max_n2=5))
    c = draw(dsl.cases(om=st.just(om), kinds=('GRW', 'Static', 'Indep'), nested=False, max_len=6, min_len=2))
    return c


R = 'more than one time step and a transition model that is not static'
TESTS = [
    Test('names', s_names, body_names, 350, 5000, 'more than one time step and at least one hyper-parameter'),
    Test('order', s_order, body_order, 350, 5000, R),
    Test('reverse', s_reverse, body_reverse, 350, 5000, R),
    Test('time', s_time, body_time, 350, 5000, 'change-/break-point or deterministic model, shifted'),
    Test('units', s_units, body_units, 350, 5000, R),
    Test('data', s_data, body_data, 250, 4000, 'more than two time steps and another order'),
    Test('columns', s_columns, body_columns, 250, 4000, 'more than one time step and another order'),
    Test('structure', s_structure, body_structure, 250, 4000, 'more than two time steps and a transition model that is not static'),
    Test('hyper', s_hyper, body_hyper, 250, 4000, 'another order of hyper-parameter values'),
    Test('backwards', s_backwards, body_backwards, 250, 4000, R),
]
KNOWN = {}
