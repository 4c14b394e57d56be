"""C01: filtering distributions and model evidence are exact on the parameter grid."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, make_ref, check_forward, check_smooth, kinds, check, check_close, check_log
from vf.core import Test, Reject


def interesting(case):
    n = len(case['data']) - ref.SEGMENT.get(case['om']['om'], 1) + 1
    return n >= 2 and case['tm']['tm'] != 'Static'


def body_filter(case, ctx):
    S = dsl.study(case, fit=dict(forwardOnly=True))

    def compare(flags):
        r = make_ref(case, flags)
        check_forward(S, r)
        return r
    r = match(triggers(case['tm'], False), compare, ctx)
    check(list(S.formattedTimestamps) == list(r.ts), 'time stamps of the fit')
    ctx.label(case['om']['om'], *kinds(case['tm']))
    ctx.nontrivial(interesting(case))


def body_modes(case, ctx):
    """All modes of the fit yield the same evidence, in any order, on the same study instance."""
    S = dsl.study(case)

    def compare(flags):
        # approximations of the backward pass of deterministic models may exclude all parameter values (no evidence in this case)
        r = make_ref(case, flags, backward='full' in case['modes'] and 'Det' in kinds(case['tm']))
        for mode in case['modes']:
            dsl.run_fit(S, **{'full': {}, 'fwd': dict(forwardOnly=True), 'evi': dict(evidenceOnly=True),
                              'both': dict(forwardOnly=True, evidenceOnly=True)}[mode])
            check_log(S.logEvidence, r.logE, mode + ': log-evidence')
            if np.isfinite(r.logE) and mode in ('fwd', 'evi', 'both'):
                check_close(S.localEvidence, r.local, mode + ': local evidence')
                check_log(np.sum(np.log(S.localEvidence)), S.logEvidence, mode + ': product of the local evidence values')
            if mode == 'fwd':
                check_forward(S, r)
        return r
    r = match(triggers(case['tm'], False), compare, ctx)
    if not np.isfinite(r.logE):
        ctx.label('impossible data')
    ctx.label(*kinds(case['tm']))
    ctx.nontrivial(len(set(case['modes'])) > 1)


@st.composite
def s_modes(draw):
    c = draw(dsl.cases(om=dsl.oms(table_zeros=True)))
    c['modes'] = draw(st.lists(st.sampled_from(['full', 'fwd', 'evi', 'both']), min_size=2, max_size=4))
    return c


def body_zero(case, ctx):
    """Likelihoods with zeros: impossible data has zero evidence, everything else is exact."""
    S = dsl.study(case, fit=dict(forwardOnly=True))

    def compare(flags):
        r = make_ref(case, flags)
        check_forward(S, r)
        return r
    r = match(triggers(case['tm'], False), compare, ctx)
    zeros = any(np.any(L == 0) for L in r.L)
    ctx.label('impossible' if not np.isfinite(r.logE) else 'possible')
    ctx.nontrivial(zeros)


def body_prefix(case, ctx):
    """Causality and chain rule: filtering results of a prefix of the data are the prefix of the filtering results."""
    n = len(case['data'])
    k = 1 + case['cut'] % n
    if k < ref.SEGMENT.get(case['om']['om'], 1):
        raise Reject()
    short = dict(case, data=case['data'][:k])
    if 'ts' in case:
        short['ts'] = case['ts'][:k]
    ref.well_conditioned(ref.Ref(case['om'], case['tm'], case['data'], case.get('ts')).filter())
    A = dsl.study(case, fit=dict(forwardOnly=True))
    B = dsl.study(short, fit=dict(forwardOnly=True))
    m = len(B.posteriorSequence)
    check_close(A.posteriorSequence[:m], B.posteriorSequence, 'filtering distributions of a prefix')
    check_close(A.localEvidence[:m], B.localEvidence, 'local evidence of a prefix')
    check_log(A.logEvidence, B.logEvidence + np.sum(np.log(A.localEvidence[m:])), 'chain rule of the evidence')
    ctx.label(*kinds(case['tm']))
    ctx.nontrivial(k < n and case['tm']['tm'] != 'Static')


@st.composite
def s_prefix(draw):
    c = draw(dsl.cases(min_len=2, max_len=9))
    c['cut'] = draw(st.integers(0, 8))
    return c


def zero_oms():
    return dsl.oms(kinds=('NumPyTable',), table_zeros=True)


def body_scales(case, ctx):
    """Data points that are extremely (im)probable for all parameter values."""
    S = dsl.study(case, fit=dict(forwardOnly=True))

    def compare(flags):
        r = make_ref(case, flags)
        check_forward(S, r)
        return r
    r = match(triggers(case['tm'], False), compare, ctx)
    F = dsl.study(case, fit={})
    if 'NotEqual' not in kinds(case['tm']) and 'Regime' not in kinds(case['tm']):
        check_log(F.logEvidence, r.logE, 'log-evidence of the full fit')
    if not triggers(case['tm'], True) and ref.Ref.is_linear(r):
        r = make_ref(case, backward=True)
        check_smooth(F, r)
    L = [np.max(l) for l in r.L]
    ctx.label('{} orders of magnitude'.format('> 100' if max(L) / min(L) > 1e100 else '< 100'), *kinds(case['tm']))
    ctx.nontrivial(min(L) < 1e-10 or max(L) > 1e10)


TESTS = [
    Test('filter', lambda: dsl.cases(max_len=9), body_filter, 2400, 60000,
         'at least two time steps and a transition model that moves probability'),
    Test('long', lambda: dsl.cases(min_len=3, max_len=6, long='always'), body_filter, 100, 2000,
         'at least two time steps, transition model that moves probability'),
    Test('symbolic', lambda: dsl.cases(om=dsl.oms(kinds=dsl.SLOW), max_len=5), body_filter, 120, 3000,
         'as filter, with a SymPy observation model'),
    Test('modes', s_modes, body_modes, 800, 20000, 'at least two different modes of the fit on one study'),
    Test('zero', lambda: dsl.cases(om=zero_oms()), body_zero, 800, 20000, 'at least one parameter value is impossible'),
    Test('scales', lambda: dsl.cases(om=dsl.oms(kinds=('NumPyTable',), table_scales=True)), body_scales, 600, 12000,
         'at least one data point with a likelihood below 1e-10 or above 1e10'),
    Test('prefix', s_prefix, body_prefix, 800, 20000, 'proper prefix, transition model that moves probability'),
]


def probe_k1():
    case = {'om': {'om': 'Poisson', 'names': ['x'], 'grids': [{'kind': 'oint', 'a': 0., 'b': 6., 'n': 11}], 'prior': None},
            'tm': {'tm': 'CP', 'names': ['t'], 'values': [1]}, 'data': [1, 2, 4, 5]}
    S = dsl.study(case, fit=dict(evidenceOnly=True))
    r = make_ref(case)
    return abs(S.logEvidence - r.logE) > 1e-6


KNOWN = {'K1': probe_k1}
