"""C09: parallel hyper-study fits equal serial fits."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import kinds, check, check_close, check_log, hyper_ok
from vf.core import Test, Reject
from vf.checks.c08 import combos, OMS, MODES


def state(S, mode, names):
    out = dict(logE=float(S.logEvidence), local=np.array(S.localEvidence),
               le=np.array(S.logEvidenceList), hyper=np.array(S.hyperParameterDistribution),
               grid=np.array(S.hyperGridValues, dtype=float), prior=np.array(S.flatHyperPriorValues))
    if mode != 'evi':
        out['post'] = np.array(S.posteriorSequence)
        out['means'] = np.array(S.posteriorMeanValues)
    for n in names:
        x, p = S.getHPD(n)
        out['x_' + n], out['p_' + n] = np.array(x, dtype=float), np.array(p)
    return out


def shutdown():
    """Ends the processes that pathos keeps for the next fit."""
    try:
        from pathos.multiprocessing import ProcessPool
        import pathos.helpers
        pathos.helpers.shutdown()
    except Exception:
        pass


def same(a, b, what):
    for k in sorted(a):
        if k == 'logE':
            check_log(b[k], a[k], what + ': log-evidence', 1e-9)
        else:
            check_close(b[k], a[k], '{}: {}'.format(what, k), 1e-8, 1e-11)


def body_jobs(case, ctx):
    cls = case['cls']
    if cls == 'HyperStudy' and (not hyper_ok(case['tm']) or not 2 <= combos(case['tm']) <= (18 if not case.get('many') else 60)):
        raise Reject()
    names = [n for n, _, _ in ref.flat_hypers(case['tm'])]
    A = dsl.study(case, cls)
    B = dsl.study(case, cls)
    try:
        for mode, n in zip(case['modes'], case['jobs']):
            fit = MODES[mode]
            dsl.run_fit(A, **fit)
            if len(A.hyperGridValues) < 2 or not np.isfinite(A.logEvidence):
                raise Reject()
            dsl.run_fit(B, nJobs=n, **fit)
            same(state(A, mode, names), state(B, mode, names), '{} with {} processes and {} analyses ({})'.format(
                cls, n, len(A.hyperGridValues), mode))
            for h in names:
                check(repr(A.getHyperParameterValue(h)) == repr(B.getHyperParameterValue(h)), 'hyper-parameter values after the fit')
    finally:
        shutdown()
    ctx.label(cls, *['{} jobs'.format(n) for n in case['jobs']])
    if max(case['jobs']) > len(A.hyperGridValues):
        ctx.label('more processes than analyses')
    ctx.nontrivial(max(case['jobs']) > 1)


@st.composite
def s_jobs(draw):
    cls = draw(st.sampled_from(['HyperStudy', 'HyperStudy', 'ChangepointStudy']))
    om = draw(dsl.oms(kinds=OMS, max_n1=6, max_n2=3, units=cls == 'HyperStudy'))  # the change-point studies use a fixed width
    if cls == 'HyperStudy':
        d = draw(dsl.datasets(om, min_len=3, max_len=5))
        ts = draw(dsl.timestamps(len(d)))
        many = draw(st.integers(0, 7)) == 7
        if many:
            tm = draw(dsl.many_tms(om, dsl.seg_ts(om, len(d), ts), most=50))
        else:
            tm = draw(dsl.tms(om, dsl.seg_ts(om, len(d), ts), multi='more', priors=True, max_values=4,
                              kinds=('GRW', 'GRW', 'Regime', 'Alpha', 'CP', 'Det')))
    else:
        d = draw(dsl.datasets(om, min_len=4, max_len=6))
        ts = draw(dsl.timestamps(len(d)))
        target = om['names'][0]
        parts = [{'tm': 'Static'}]
        for i in range(draw(st.integers(1, 2))):
            parts.append({'tm': draw(st.sampled_from(['CP', 'Break'])), 'names': ['t{}'.format(i)], 'values': ['all']})
            parts.append(draw(st.sampled_from([{'tm': 'Static'}, {'tm': 'GRW', 'names': ['s{}'.format(i)], 'target': target,
                                                                  'values': [0.3]}])))
        tm = {'tm': 'Serial', 'parts': parts}
    c = {'om': om, 'tm': tm, 'data': d, 'cls': cls}
    if cls == 'HyperStudy' and many:
        c['many'] = True
    if ts is not None:
        c['ts'] = ts
    k = draw(st.integers(1, 2))
    c['jobs'] = draw(st.lists(st.integers(2, 7), min_size=k, max_size=k))
    c['modes'] = draw(st.lists(st.sampled_from(sorted(MODES)), min_size=k, max_size=k))
    return c


TESTS = [Test('jobs', s_jobs, body_jobs, 480, 3000, 'at least two processes and two combinations of hyper-parameter values')]
KNOWN = {}
