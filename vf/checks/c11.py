"""C11: on-line analysis equals batch filtering of the same data."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, kinds, check, check_close, check_log, hyper_ok
from vf.core import Test, Reject

OMS = ('Poisson', 'Bernoulli', 'Gaussian', 'WhiteNoise', 'GaussianMean', 'NumPyTable', 'AR1', 'ScaledAR1', 'Laplace',
       'SciPyNorm')


def logsum(a):
    m = np.max(a)
    return m + np.log(np.sum(np.exp(a - m))) if m > -np.inf else -np.inf


class OnlineRef(object):
    """Reference for an on-line study: one filter for each combination of hyper-parameter values of each model.

    Flags: K4 (the lattice constants of hyper-parameter grids are missing in evidence values), K8 (the probabilities of
    transition models, but not the local ones, ignore the prior of the transition models)."""

    def __init__(self, om, tms, data, prior=None, flags=(), zeros=False):
        self.flags = frozenset(flags)
        self.h = [ref.HyperRef(om, tm, data, None, self.flags, forward_only=True) for tm in tms]
        self.base = self.h[0].base
        self.n = len(self.base.L)
        # combinations that are ruled out by impossible data from some time step on
        self.out = sum(not np.isfinite(r.logE) for h in self.h for r in h.refs)
        if self.out:
            if not zeros:
                raise Reject()
            for h in self.h:
                for r in h.refs:
                    k = self.n - len(r.local)
                    r.local = list(r.local) + [0.] * k
                    r.filt = list(r.filt) + [np.zeros(r.shape)] * k
        p = np.ones(len(tms)) if prior is None else np.array(prior, dtype=float)
        self.prior = p / np.sum(p)
        with np.errstate(divide='ignore'):
            self.cum = [np.array([np.cumsum(np.log(r.local)) for r in h.refs]) for h in self.h]  # [tm][combination, time]
            self.lw = [np.log(h.raw_weights) for h in self.h]

    def state(self, i):
        """Everything after time step i."""
        hyper, evid, tmpost, before = [], [], [], []
        for h, c, lw in zip(self.h, self.cum, self.lw):
            a = lw + c[:, i]
            e = logsum(a)
            w = np.exp(a - e) if e > -np.inf else np.zeros(len(a))
            hyper.append(w)
            k = -np.log(np.prod(h.consts)) if 'K4' in self.flags and len(h.consts) else 0.
            evid.append(e + k)
            if i == 0:
                before.append(0.)
            else:
                b = lw + c[:, i - 1]
                before.append(logsum(b) + k)
            tmpost.append(sum(x * r.filt[i] for x, r in zip(w, h.refs)))
        evid, before = np.array(evid), np.array(before)
        with np.errstate(divide='ignore'):
            lp = np.log(self.prior)
        def norm(x):
            return np.exp(x - logsum(x)) if np.max(x) > -np.inf else np.zeros(len(x))
        tmd = norm(evid) if 'K8' in self.flags else norm(evid + lp)
        with np.errstate(invalid='ignore'):
            local = norm(np.where(evid > -np.inf, evid - before + lp, -np.inf))
        logE = logsum(evid + lp)
        post = sum(a * b for a, b in zip(tmd, tmpost))
        return dict(hyper=hyper, evid=evid, tmpost=tmpost, tmd=tmd, local=local, logE=logE, post=post,
                    filt=[[r.filt[i] for r in h.refs] for h in self.h],
                    cum=[c[:, i] for c in self.cum])


def flags_of(tms, prior):
    out = []
    for tm in tms:
        out += triggers(tm, False)
        for _, v, _ in ref.flat_hypers(tm):
            if isinstance(v, list) and len(v) > 1 and ref.lattice(np.array(v, dtype=float)) != 1.:
                out.append('K4')
    if prior is not None and len(set(prior)) > 1:
        out.append('K8')
    return sorted(set(out))


def compare_step(S, R, i, names, onames):
    s = R.state(i)
    for k, h in enumerate(R.h):
        check_close(S.parameterPosterior[k], np.array(s['filt'][k]), 'step {}: distributions for each combination, {}'
                    .format(i, names[k]))
        check_close(S.logEvidenceList[k], s['cum'][k], 'step {}: log-evidence for each combination, {}'.format(i, names[k]))
        check_close(np.array(S.hyperParameterDistribution[k]) * np.prod(h.consts), s['hyper'][k],
                    'step {}: hyper-parameter distribution, {}'.format(i, names[k]))
        for j, (n, _, _) in enumerate(h.hyp):
            x, p = S.getCHPD(n)
            check_close(x, h.values[j], 'values of ' + n)
            check_close(p, [np.sum([w for w, c in zip(s['hyper'][k], h.idx) if c[j] == a]) for a in range(len(h.values[j]))],
                        'step {}: distribution of hyper-parameter {}'.format(i, n))
    check_close(S.transitionModelPosterior, np.array(s['tmpost']), 'step {}: distributions for each model'.format(i))
    check_close(S.transitionModelDistribution, s['tmd'], 'step {}: probabilities of transition models'.format(i))
    check_close(S.localTransitionModelDistribution, s['local'], 'step {}: local probabilities of transition models'.format(i))
    check_close(S.marginalizedPosterior, s['post'], 'step {}: average parameter distribution'.format(i))
    check_log(S.logEvidence, s['logE'], 'step {}: log-evidence'.format(i))
    check_log(S.log10Evidence, s['logE'] / np.log(10.), 'step {}: log10-evidence'.format(i))
    for local in (False, True):
        nn, p = S.getCTMD(local=local)
        check(list(nn) == list(names), 'names of transition models')
        check_close(p, s['local' if local else 'tmd'], 'step {}: getCTMD'.format(i))
        for k, n in enumerate(names):
            check_close(S.getCTMP(n, local=local), s['local' if local else 'tmd'][k], 'step {}: getCTMP'.format(i))
    for a, n in enumerate(onames):
        axes = tuple(b for b in range(len(onames)) if b != a)
        m = np.sum(s['post'], axis=axes)
        x, p = S.getCPD(n, density=False)
        check_close(x, R.base.margs[a], 'values of parameter ' + n)
        check_close(p, m, 'step {}: distribution of parameter {}'.format(i, n))
        x, p = S.getCPD(n)
        check_close(p, m / R.base.dx[a], 'step {}: density of parameter {}'.format(i, n))
        check_close(S.getCurrentParameterMeanValue(n), np.sum(m * R.base.margs[a]), 'step {}: mean of {}'.format(i, n), 1e-6, 1e-7)
    return s


def start(case, history):
    # names of transition models may resemble each other
    names = [['m{}'.format(i) for i in range(len(case['tms']))], ['walk2', 'walk', 'Walk', 'walk 1', '2', 'walk21', 'alk'],
             ['T2', 'T', 'TT', 't', 'tt', 'T21', '0'], ['normal', 'chaotic', 'norm', 'Normal', 'n', 'normal2', 'r']][dsl.crc(case) % 4]
    names = (names + ['m{}'.format(i) for i in range(len(case['tms']))])[:len(case['tms'])]
    if case.get('set'):  # a single transition model may also be set instead of added
        b = dsl.bl()
        with dsl.hush():
            S = b.OnlineStudy(storeHistory=history, silent=True)
            S.set(dsl.build_om(case['om']), dsl.build_tm(case['tms'][0]), silent=True)
        return S, ['transition model']
    return dsl.online(case['om'], list(zip(names, case['tms'])), history, case.get('prior')), names


def usable(case, most=40):
    n = 0
    for tm in case['tms']:
        if not hyper_ok(tm):
            raise Reject()
        c = 1
        for _, v, _ in ref.flat_hypers(tm):
            c *= len(v) if isinstance(v, list) else 1
        n += c
    if n > most:
        raise Reject()
    return n


def body_batch(case, ctx):
    n = usable(case)
    flags = flags_of(case['tms'], case.get('prior'))
    seg = ref.SEGMENT.get(case['om']['om'], 1)
    points = dsl.data_points(case)
    if len(points) < seg:
        raise Reject()
    S, names = start(case, case['history'])
    refs = {}
    for k, x in enumerate(points):
        dsl.step(S, x)
        if k >= seg - 1:
            def compare(f):
                if f not in refs:
                    refs[f] = OnlineRef(case['om'], case['tms'], case['data'], case.get('prior'), f, zeros=True)
                compare_step(S, refs[f], k - seg + 1, names, case['om']['names'])
            match(flags, compare, ctx)
            if case['history']:
                check(len(S.posteriorSequence) == k - seg + 2, 'length of the stored history')
    ctx.label('{} models'.format(len(names)), case['om']['om'], *sorted(set(sum([kinds(t) for t in case['tms']], []))))
    R = list(refs.values())[-1]
    if R.out:
        ctx.label('ruled out: all' if R.out == n else 'ruled out: some')
    ctx.nontrivial(len(points) - seg + 1 >= 2 and n >= 2)
    return R


@st.composite
def s_batch(draw, max_len=6, min_len=1, long=None):
    om = draw(dsl.oms(kinds=OMS, max_n1=6, max_n2=3))
    d = draw(dsl.datasets(om, min_len=min_len, max_len=max_len))
    if long:
        d = dsl.stretched(d, draw(st.sampled_from(long)), draw(st.integers(0, 30)))
    namer = dsl.Namer(draw)
    m = draw(st.sampled_from([1, 2, 3, 2, 4, 5]))
    ts = dsl.seg_ts(om, len(d), None)
    tms = [draw(dsl.tms(om, ts, multi='more', priors=True, max_values=3, namer=namer)) for _ in range(m)]
    if long and draw(st.booleans()):
        tms[0] = draw(dsl.many_tms(om, ts, namer, most=20))
    c = {'om': om, 'data': d, 'tms': tms, 'history': draw(st.booleans())}
    if draw(st.booleans()):
        c['float'] = True
    if m == 1 and draw(st.booleans()):
        c['set'] = True
    elif m > 1 and draw(st.booleans()):
        c['prior'] = draw(st.lists(st.integers(1, 5), min_size=m, max_size=m))
        scale = draw(st.sampled_from([None, 1. / np.sum(c['prior']), 1. / 32]))  # re-normalised, if necessary
        if scale is not None:
            c['prior'] = (np.array(c['prior']) * scale).tolist()
    return c


# -------------------------------------------------------------------------------- differential: batch fits of the library

def body_differential(case, ctx):
    """One model: equals forward-only fits of Study/HyperStudy for each prefix of the data."""
    n = usable(case, 20)
    tm = case['tms'][0]
    flags = flags_of([tm], None)
    seg = ref.SEGMENT.get(case['om']['om'], 1)
    points = dsl.data_points(case)
    if len(points) < seg:
        raise Reject()
    S, names = start(case, True)
    for x in points:
        dsl.step(S, x)
    # averages weight earlier distributions with later evidence in a batch hyper-study, so compare each prefix
    ks = sorted(set([seg, len(points), case['k'] % (len(points) - seg + 1) + seg]))
    for k in ks:
        cc = dict(case, tm=tm if n > 1 else dsl.scalar_tm(tm), data=case['data'][:k])
        H = dsl.study(cc, 'HyperStudy' if n > 1 else 'Study', fit=dict(forwardOnly=True))
        if not np.isfinite(H.logEvidence):
            raise Reject()
        i = k - seg
        check_close(S.posteriorSequence[i], H.posteriorSequence[-1], 'distribution at step {} versus batch fit'.format(i))
        check_close(S.posteriorMeanValues[i], np.array(H.posteriorMeanValues)[:, -1], 'mean values versus batch fit', 1e-6, 1e-7)
        if n > 1:
            check_close(S.hyperParameterSequence[i][0], H.hyperParameterDistribution, 'hyper-parameters versus batch fit')
        if k == len(points):
            if n > 1:
                check_close(S.logEvidenceList[0], H.logEvidenceList, 'log-evidence of each combination versus batch fit')
            if not flags or flags == ['K1']:
                check_log(S.logEvidence, H.logEvidence, 'log-evidence versus batch fit')
    ctx.label(case['om']['om'], *kinds(tm))
    ctx.nontrivial(len(points) > seg)


@st.composite
def s_differential(draw):
    om = draw(dsl.oms(kinds=OMS, max_n1=30, max_n2=8, offset=True))
    d = draw(dsl.datasets(om, min_len=3, max_len=14))
    tm = draw(dsl.tms(om, dsl.seg_ts(om, len(d), None), multi='more', max_values=3, kinds=tuple(k for k in dsl.LEAVES if k not in ('NotEqual',))))
    # single values with a SymPy hyper-prior are treated differently in single fits
    return {'om': om, 'data': d, 'tms': [tm], 'k': draw(st.integers(0, 30))}


# ------------------------------------------------------------------------------------------ history flag, order of models

def body_order(case, ctx):
    """The stored history and the order in which models are added make no difference."""
    usable(case, 30)
    m = len(case['tms'])
    if m < 2:
        raise Reject()
    perm = case['perm']
    prior = case.get('prior')
    A, na = start(case, True)
    B = dsl.online(case['om'], [(na[j], case['tms'][j]) for j in perm], False,
                   None if prior is None else [prior[j] for j in perm])
    seg = ref.SEGMENT.get(case['om']['om'], 1)
    for k, x in enumerate(dsl.data_points(case)):
        dsl.step(A, x)
        dsl.step(B, x)
        if k < seg - 1:
            continue
        if not np.isfinite(A.logEvidence):
            raise Reject()
        check_close(A.marginalizedPosterior, B.marginalizedPosterior, 'distributions for another order of models')
        check_log(A.logEvidence, B.logEvidence, 'log-evidence for another order of models')
        for j, name in enumerate(na):
            check_close(A.getCTMP(name), B.getCTMP(name), 'probability of model for another order')
            check_close(A.getCTMP(name, local=True), B.getCTMP(name, local=True), 'local probability for another order')
            for n, _, _ in ref.flat_hypers(case['tms'][j]):
                check_close(A.getCHPD(n)[1], B.getCHPD(n)[1], 'hyper-parameter distribution for another order')
        check(len(B.posteriorSequence) == 0, 'history is stored without request')
    ctx.label('{} models'.format(m))
    ctx.nontrivial(list(perm) != sorted(perm) and k >= seg)


@st.composite
def s_order(draw):
    c = draw(s_batch(min_len=2))
    c['perm'] = draw(st.permutations(range(len(c['tms']))))
    return c


@st.composite
def s_extreme(draw):
    """Models and hyper-parameter values whose evidence differs by up to hundreds of orders of magnitude."""
    from vf.checks import c08
    e = draw(c08.s_extreme())
    tms = [e['tm'], {'tm': 'Static'}]
    if draw(st.booleans()):
        tms = tms[::-1]
    if draw(st.booleans()):
        tms.append({'tm': 'Regime', 'names': ['extra'], 'values': [draw(st.sampled_from([-3., -1., [-3., -2.]]))]})
    c = {'om': e['om'], 'data': e['data'], 'tms': tms, 'history': draw(st.booleans())}
    if draw(st.booleans()):
        c['prior'] = draw(st.lists(st.integers(1, 5), min_size=len(tms), max_size=len(tms)))
    return c


def body_extreme(case, ctx):
    body_batch(case, ctx)
    R = OnlineRef(case['om'], case['tms'], case['data'], case.get('prior'))
    lo = min(np.min(c[:, -1]) for c in R.cum)
    hi = max(np.max(c[:, -1]) for c in R.cum)
    ctx.label('ratio > 1e{}'.format(int((hi - lo) / np.log(10)) // 100 * 100))
    ctx.is_nontrivial = bool(hi - lo > 50)


@st.composite
def s_impossible(draw):
    """Data that is impossible for some parameter values, and therefore impossible for some of the transition models."""
    om = draw(dsl.oms(kinds=('NumPyTable',), max_n1=5, max_n2=3, large=False))
    size = len(om['table'][0])
    om['table'] = []
    for _ in range(draw(st.integers(2, 4))):
        row = draw(dsl.tiled(st.sampled_from([0., 0., 0., 0.5, 1.]), size))
        row[draw(st.integers(0, size - 1))] = 1.
        om['table'].append(row)
    d = draw(st.lists(st.sampled_from(list(range(len(om['table']))) * 3 + [None]), min_size=3, max_size=7))
    namer = dsl.Namer(draw)
    m = draw(st.integers(1, 4))
    ts = dsl.seg_ts(om, len(d), None)
    ks = ('Static', 'Static', 'CP', 'CP', 'GRW', 'GRW', 'GRW', 'Regime', 'Indep')
    tms = [draw(dsl.tms(om, ts, kinds=ks, multi='more', priors=True, max_values=3, namer=namer)) for _ in range(m)]
    c = {'om': om, 'data': d, 'tms': tms, 'history': draw(st.booleans())}
    if m > 1 and draw(st.booleans()):
        c['prior'] = draw(st.lists(st.integers(1, 5), min_size=m, max_size=m))
    return c


def body_impossible(case, ctx):
    R = body_batch(case, ctx)
    ctx.is_nontrivial = bool(R.out)


TESTS = [
    Test('impossible', s_impossible, body_impossible, 700, 6000, 'at least one model or hyper-parameter value is ruled out'),
    Test('batch', s_batch, body_batch, 2000, 16000, 'at least two time steps and two models or hyper-parameter values'),
    Test('long', lambda: s_batch(min_len=3, long=[12, 20, 33, 40]), body_batch, 80, 1000, 'at least two models or hyper-parameter values'),
    Test('extreme', s_extreme, body_extreme, 500, 5000, 'evidence of two models or values differs by more than 50 nats'),
    Test('differential', s_differential, body_differential, 500, 5000, 'more data points than one segment'),
    Test('order', s_order, body_order, 400, 5000, 'another order of at least two models, at least two steps'),
]


def _online_probe(prior, flag):
    om = {'om': 'Poisson', 'names': ['x'], 'grids': [{'kind': 'oint', 'a': 0., 'b': 6., 'n': 11}], 'prior': None}
    tms = [{'tm': 'GRW', 'names': ['s'], 'values': [[0.1, 0.3, 0.5]], 'target': 'x'}, {'tm': 'Static'}]
    data = [1, 2, 4, 5]
    S = dsl.online(om, [('a', tms[0]), ('b', tms[1])], True, prior)
    for x in data:
        dsl.step(S, x)
    s = OnlineRef(om, tms, data, prior, flag).state(3)
    return bool(np.max(np.abs(np.array(S.transitionModelDistribution) - s['tmd'])) > 1e-6)


def probe_k4():
    return _online_probe(None, ())


def probe_k8():
    return _online_probe([0.3, 0.7], ('K4',))


from vf.checks import c01  # noqa: E402
KNOWN = {'K1': c01.probe_k1, 'K4': probe_k4, 'K8': probe_k8}
