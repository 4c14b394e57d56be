"""C04: missing data points carry no information."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, make_ref, check_smooth, check_forward, kinds, check, check_close, check_log, hyper_ok
from vf.core import Test, Reject

KEEP_FLAT = ('Static', 'GRW', 'Indep', 'Regime', 'NotEqual', 'Det')  # a flat backward message stays flat


@st.composite
def punch(draw, d, most=True):
    """Replaces data points (or single measurements) by missing values."""
    d = list(d)
    for i in range(len(d)):
        if draw(st.integers(0, 1 if most else 3)) == 0:
            if isinstance(d[i], list):
                d[i] = list(d[i])
                for j in draw(st.lists(st.integers(0, len(d[i]) - 1), min_size=1, max_size=len(d[i]))):
                    d[i][j] = None
            else:
                d[i] = None
    return d


@st.composite
def s_ref(draw, **kw):
    c = draw(dsl.cases(missing=False, **kw))
    c['data'] = draw(punch(c['data']))
    return c


def nmissing(d):
    return sum(1 for r in d for v in (r if isinstance(r, list) else [r]) if v is None)


def body_reference(case, ctx):
    A = dsl.study(case, fit=dict(forwardOnly=True))

    def fwd(flags):
        r = make_ref(case, flags)
        check_forward(A, r)
    match(triggers(case['tm'], False), fwd, ctx)
    B = dsl.study(case, fit={})

    def full(flags):
        r = make_ref(case, flags, backward=True)
        check_smooth(B, r)
    match(triggers(case['tm'], True), full, ctx)
    ctx.label(case['om']['om'], *kinds(case['tm']))
    ctx.nontrivial(0 < nmissing(case['data']))


@st.composite
def s_one(draw):
    om = draw(dsl.oms(kinds=('NumPyTable',)))
    size = len(om['table'][0])
    om['table'].append([1.] * size)
    hyper = draw(st.booleans())
    c = draw(dsl.cases(om=st.just(om), missing=False, multi=hyper, max_values=2))
    c['hyper'] = hyper
    c['data'] = [v for v in c['data']]
    c['float'] = draw(st.booleans())
    return c


def body_one(case, ctx):
    """A missing value is the same as a likelihood of one, in all kinds of studies."""
    k = len(case['om']['table']) - 1
    flat = lambda d: [r[0] if isinstance(r, list) else r for r in d]
    full = flat(case['data'])
    holes = [None if v == k else v for v in full]
    cls = 'HyperStudy' if case['hyper'] else 'Study'
    if case['hyper'] and not hyper_ok(case['tm']):
        raise Reject()
    out = []
    for d in (full, holes):
        c = dict(case, data=d)
        res = []
        for fit in ({}, dict(forwardOnly=True)):
            S = dsl.study(c, cls, fit=fit)
            res.append((S.logEvidence, np.array(S.posteriorSequence), np.array(S.posteriorMeanValues),
                        np.array(S.localEvidence), np.array(getattr(S, 'hyperParameterDistribution', 0.))))
        O = dsl.online(case['om'], [('M', case['tm'])])
        for x in dsl.data_points(c):
            dsl.step(O, x)
        res.append((O.logEvidence, np.array(O.posteriorSequence), np.array(O.posteriorMeanValues), 0.,
                    O.hyperParameterDistribution[0]))
        out.append(res)
    for mode, a, b in zip(('full fit', 'forward fit', 'on-line'), *out):
        for what, x, y in zip(('log-evidence', 'distributions', 'mean values', 'local evidence', 'hyper-parameters'), a, b):
            check_close(y, x, '{}: {} with missing value versus likelihood of one'.format(mode, what), 1e-7, 1e-10)
    ctx.label(cls, *kinds(case['tm']))
    ctx.nontrivial(k in full)


def body_append(case, ctx):
    """Missing values at the end change neither the evidence nor the distributions of earlier time steps."""
    d = case['data']
    ref.well_conditioned(ref.Ref(case['om'], case['tm'], d).filter())
    blank = [None] * len(d[0]) if isinstance(d[0], list) else None
    more = dict(case, data=d + [blank] * case['n'])
    for name, fit in (('full fit', {}), ('forward fit', dict(forwardOnly=True))):
        A = dsl.study(case, fit=fit)
        B = dsl.study(more, fit=fit)
        n = len(A.posteriorSequence)
        check_log(B.logEvidence, A.logEvidence, name + ': log-evidence with missing values at the end')
        check_close(B.posteriorSequence[:n], A.posteriorSequence, name + ': distributions with missing values at the end')
        check_close(B.localEvidence[:n], A.localEvidence, name + ': local evidence with missing values at the end')
        check(len(B.posteriorSequence) == n + case['n'], 'number of time steps')
        if fit:
            check_close(B.localEvidence[n:], np.ones(case['n']), name + ': local evidence of missing values')
    ctx.label(case['om']['om'], *kinds(case['tm']))
    ctx.nontrivial(len(d) > 1)


@st.composite
def s_append(draw):
    om = draw(dsl.oms(offset=True))
    c = draw(dsl.cases(om=st.just(om), kinds=KEEP_FLAT, nested=False, stamps=False, max_len=6))
    c['n'] = draw(st.integers(1, 3))
    return c


def body_remove(case, ctx):
    """Constant parameters: missing values may as well be removed."""
    d = case['data']
    seg = ref.SEGMENT.get(case['om']['om'], 1)
    keep = [r for r in d if not (r is None or (isinstance(r, list) and all(v is None for v in r)))]
    if not keep:
        raise Reject()
    c = dict(case, tm={'tm': 'Static'})
    A = dsl.study(c, fit={})
    B = dsl.study(dict(c, data=keep), fit={})
    if seg == 1:
        check_log(A.logEvidence, B.logEvidence, 'log-evidence without the missing values')
        check_close(A.posteriorSequence[0], B.posteriorSequence[-1], 'posterior without the missing values')
    ctx.label(case['om']['om'])
    ctx.nontrivial(len(keep) < len(d))


@st.composite
def s_remove(draw):
    om = draw(dsl.oms(kinds=tuple(k for k in dsl.OM1 + dsl.OM2 if k not in ref.SEGMENT)))
    d = draw(dsl.datasets(om, missing=False))
    pos = draw(st.lists(st.integers(0, len(d)), min_size=1, max_size=4))
    for p in sorted(pos, reverse=True):
        d = d[:p] + [[None] * len(d[0]) if isinstance(d[0], list) else None] + d[p:]
    return {'om': om, 'data': d}


def body_columns(case, ctx):
    """A further, always missing measurement makes no difference; nor does the position of a missing measurement."""
    d = case['data']
    wide = []
    for r in d:
        r = list(r) if isinstance(r, list) else [r]
        wide.append(r[:case['at'] % (len(r) + 1)] + [None] + r[case['at'] % (len(r) + 1):])
    for name, fit in (('full fit', {}), ('forward fit', dict(forwardOnly=True))):
        A = dsl.study(case, fit=fit)
        B = dsl.study(dict(case, data=wide), fit=fit)
        check_log(B.logEvidence, A.logEvidence, name + ': log-evidence with a missing measurement in each time step')
        check_close(B.posteriorSequence, A.posteriorSequence, name + ': distributions with a missing measurement')
        check_close(B.localEvidence, A.localEvidence, name + ': local evidence with a missing measurement')
    ctx.label(case['om']['om'])
    ctx.nontrivial(len(d) > 1)


@st.composite
def s_columns(draw):
    om = draw(dsl.oms(kinds=tuple(k for k in dsl.OM1 + dsl.OM2 if k not in ref.VECTOR)))
    c = draw(dsl.cases(om=st.just(om), kinds=('Static', 'GRW', 'CP', 'Indep', 'Regime'), max_len=5))
    c['at'] = draw(st.integers(0, 3))
    return c


TESTS = [
    Test('reference', s_ref, body_reference, 1200, 24000, 'at least one missing value'),
    Test('one', s_one, body_one, 400, 8000, 'at least one missing value; batch, hyper- and on-line studies compared'),
    Test('append', s_append, body_append, 700, 14000, 'at least two data points before the missing ones'),
    Test('remove', s_remove, body_remove, 500, 10000, 'a missing value was removed'),
    Test('columns', s_columns, body_columns, 400, 8000, 'at least two time steps'),
]

from vf.checks import c02  # noqa: E402
KNOWN = c02.KNOWN
