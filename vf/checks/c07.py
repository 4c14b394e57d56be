"""C07: composed transition models act in order and at the right time."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, make_ref, check_forward, check_smooth, kinds, check, check_close, check_log
from vf.core import Test, Reject
from vf.checks.c06 import table_om

SMALL = ('Poisson', 'Gaussian', 'Bernoulli', 'NumPyTable', 'AR1', 'GaussianMean')


@st.composite
def s_compose(draw):
    return draw(dsl.cases(om=dsl.oms(kinds=SMALL, max_n1=7, max_n2=4), shape=draw(st.sampled_from(['comb', 'serial', 'serial'])),
                          min_len=2, max_len=8))


def body_compose(case, ctx):
    A = dsl.study(case, fit=dict(forwardOnly=True))
    match(triggers(case['tm'], False), lambda f: check_forward(A, make_ref(case, f)), ctx)
    B = dsl.study(case, fit={})
    match(triggers(case['tm'], True), lambda f: check_smooth(B, make_ref(case, f, backward=True)), ctx)
    ctx.label(*kinds(case['tm']))
    if case.get('ts'):
        ctx.label('custom time stamps')
    ctx.nontrivial(len([m for m in ref.leaves(case['tm']) if m['tm'] not in ('Static', 'Break')]) > 0)


# ----------------------------------------------------------------------------- step by step, with elementary models only

def elementary(om, tm, p, t):
    """One transition of a single (elementary) model that starts at time t with distribution p.

    The starting distribution is set by the likelihood, so the prior is divided out."""
    r = ref.Ref(om, {'tm': 'Static'}, [None])
    o = dict(om, table=[(p / (r.prior / np.sum(r.prior))).ravel().tolist()])
    S = dsl.study({'om': o, 'tm': tm, 'data': [0, None], 'ts': [t, t + 1]}, fit=dict(forwardOnly=True))
    return np.array(S.posteriorSequence[1])


def walk(om, tm, p, t, off=0):
    if tm['tm'] == 'Comb':
        for m in tm['models']:
            p = walk(om, m, p, t, off)
        return p
    if tm['tm'] == 'Serial':
        models = [m for m in tm['parts'] if m['tm'] not in ('Break', 'CP')]
        breaks = [m for m in tm['parts'] if m['tm'] in ('Break', 'CP')]
        i = len([b for b in breaks if b['values'][0] <= t])
        p = walk(om, models[i], p, t, breaks[i - 1]['values'][0] if i else 0)
        if any(b['tm'] == 'CP' and b['values'][0] == t for b in breaks):
            p = elementary(om, {'tm': 'CP', 'names': ['t'], 'values': [t]}, p, t)
        return p
    return elementary(om, tm, p, t if tm['tm'] == 'CP' else t - off)


@st.composite
def s_manual(draw):
    om = draw(table_om(max1=8, max2=(4, 4), zeros=False, prior=(None, 'array')))
    n = draw(st.integers(2, 5))
    ts = draw(dsl.timestamps(n))
    # (for flat distributions, the not-equal model amplifies rounding errors)
    tm = draw(dsl.tms(om, ts or list(range(n)), kinds=tuple(k for k in dsl.LEAVES if k != 'NotEqual'),
                      shape=draw(st.sampled_from(['comb', 'serial']))))
    c = {'om': om, 'tm': tm, 'data': [0] + [None] * (n - 1)}
    if ts is not None:
        c['ts'] = ts
    return c


def body_manual(case, ctx):
    k = {m['tm'] for m in ref.leaves(case['tm'])}
    if 'CP' in k and 'Regime' in k:
        raise Reject()  # the minimal density refers to the scale of the distribution after the reset (finding K1)
    ref.well_conditioned(ref.Ref(case['om'], case['tm'], case['data'], case.get('ts')).filter())
    S = dsl.study(case, fit=dict(forwardOnly=True))
    ts = case.get('ts') or list(range(len(case['data'])))
    p = np.array(S.posteriorSequence[0])
    for i, t in enumerate(ts[:-1]):
        p = walk(case['om'], case['tm'], p, t)
        check_close(S.posteriorSequence[i + 1], p, 'distribution at time step {} versus composed elementary transitions'.format(i + 1),
                    1e-6, 1e-8)
    ctx.label(*kinds(case['tm']))
    ctx.nontrivial(len([m for m in ref.leaves(case['tm']) if m['tm'] not in ('Static', 'Break')]) > 0)


# ----------------------------------------------------------------------------------------------- equivalent compositions

def rename(tm, s):
    tm = dict(tm)
    if tm.get('names') and tm['tm'] != 'Det':
        tm['names'] = [n + s for n in tm['names']]
    if tm['tm'] == 'Det':
        tm['names'] = [n + s for n in tm['names']]
    return tm


@st.composite
def s_equiv(draw):
    om = draw(dsl.oms(kinds=SMALL, max_n1=7, max_n2=4))
    d = draw(dsl.datasets(om, min_len=3, max_len=7))
    ts = draw(dsl.timestamps(len(d)))
    seg = dsl.seg_ts(om, len(d), ts)
    namer = dsl.Namer(draw)
    kinds_ = ('Static', 'GRW', 'Alpha', 'Biv', 'Regime', 'Indep')
    a = draw(dsl.leaf_tms(om, seg, namer, kinds=kinds_))
    b = draw(dsl.leaf_tms(om, seg, namer, kinds=kinds_ + ('Det',)))
    c3 = draw(dsl.leaf_tms(om, seg, namer, kinds=kinds_))
    c = {'om': om, 'data': d, 'a': a, 'b': b, 'c': c3, 'i': draw(st.integers(0, 6)), 'j': draw(st.integers(0, 6)),
         'which': draw(st.sampled_from(['split', 'single', 'identity', 'assoc', 'cp', 'early', 'late', 'order', 'nested', 'halves']))}
    if ts is not None:
        c['ts'] = ts
    return c


def body_equiv(case, ctx):
    om, a, b, c3 = case['om'], case['a'], case['b'], case['c']
    seg = dsl.seg_ts(om, len(case['data']), case.get('ts'))
    if len(seg) < 2:
        raise Reject()
    t = seg[case['i'] % (len(seg) - 1)]
    u = seg[case['j'] % (len(seg) - 1)]
    br = lambda x, k='Break', n='tb': {'tm': k, 'names': [n], 'values': [x]}
    ser = lambda *p: {'tm': 'Serial', 'parts': list(p)}
    com = lambda *p: {'tm': 'Comb', 'models': list(p)}
    static = {'tm': 'Static'}
    w = case['which']
    fwd = False
    if w == 'split':       # the same model before and after a break
        pair = ser(a, br(t), rename(a, 'z')), a
    elif w == 'single':
        pair = com(a), a
    elif w == 'identity':
        pair = (com(static, a, static), a) if case['i'] % 2 else (com(a, static), a)
    elif w == 'assoc':
        pair = com(com(a, b), c3), com(a, b, c3)
    elif w == 'cp':        # serial change-point between constant parameters
        pair = ser(static, br(t, 'CP'), static), {'tm': 'CP', 'names': ['tb'], 'values': [t]}
        fwd = True
    elif w == 'early':     # break before the first time step
        if b['tm'] == 'Det':
            raise Reject()
        pair = ser(a, br(seg[0] - 1 - case['i']), b), b
    elif w == 'late':      # break (or change) after the last transition
        pair = ser(b, br(seg[-1] + case['i'], 'CP' if case['j'] % 2 else 'Break'), a), b
    elif w == 'order':     # models and breaks may be passed in any order
        pair = ser(br(t), a, b), ser(a, br(t), b)
    elif w == 'nested':    # serial in combined = combined in serial
        if b['tm'] == 'Det':
            raise Reject()
        pair = com(ser(a, br(t), b), c3), ser(com(a, c3), br(t), com(b, rename(c3, 'z')))
    else:                  # two breaks at different times versus three models of which two are the same
        if t == u:
            raise Reject()
        t, u = min(t, u), max(t, u)
        pair = ser(a, br(t, n='t1'), b, br(u, n='t2'), c3), ser(a, br(t, n='t1'), b, br(u, n='t2'), com(c3))
    rs = [ref.Ref(om, p, case['data'], case.get('ts')).filter() for p in pair]
    for r in rs:
        ref.well_conditioned(r)
    for fit in ([dict(forwardOnly=True)] if fwd else [dict(forwardOnly=True), {}]):
        A, B = [dsl.study(dict(case, tm=p), fit=fit) for p in pair]
        name = w + (' (forward)' if fit else ' (full)')
        check_log(A.logEvidence, B.logEvidence, name + ': log-evidence of equivalent models')
        check_close(A.posteriorSequence, B.posteriorSequence, name + ': distributions of equivalent models', 1e-6, 1e-8)
    ctx.label(w, a['tm'], b['tm'])
    ctx.nontrivial(a['tm'] != 'Static' or w == 'cp')


TESTS = [
    Test('compose', s_compose, body_compose, 1600, 40000, 'at least one sub-model moves probability'),
    Test('manual', s_manual, body_manual, 500, 10000, 'at least one sub-model moves probability'),
    Test('equivalent', s_equiv, body_equiv, 1200, 24000, 'first sub-model is not static'),
]
from vf.checks import c02  # noqa: E402
KNOWN = c02.KNOWN
