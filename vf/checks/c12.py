"""C12: on-line queries are consistent and do not disturb the analysis."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c11
from vf.common import Spelled, check, check_close, check_log
from vf.core import Test, Reject, Violation


def plt():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as p
    return p


class Model(object):
    """What an on-line study has reported right after each step."""

    def __init__(self, S, case, names):
        self.case, self.names = case, names
        self.ts, self.snap = [], []
        self.margs = [ref.grid_values(g) for g in case['om']['grids']]
        self.dx = [ref.lattice(m) for m in self.margs]
        self.hyp = []  # (name, index of model, index of hyper-parameter, values)
        self.grids = []
        import itertools
        for k, tm in enumerate(case['tms']):
            fl = ref.flat_hypers(tm)
            vals = [v if isinstance(v, list) else [v] for _, v, _ in fl]
            self.grids.append(list(itertools.product(*[range(len(v)) for v in vals])))
            for j, (n, _, _) in enumerate(fl):
                self.hyp.append((n, k, j, vals[j]))

    def record(self, S, t):
        self.ts.append(t)
        self.snap.append(dict(post=np.array(S.marginalizedPosterior).copy(),
                              tmd=np.array(S.transitionModelDistribution).copy(),
                              local=np.array(S.localTransitionModelDistribution).copy(),
                              hyper=[np.array(h) / np.sum(h) for h in S.hyperParameterDistribution],
                              logE=float(S.logEvidence)))

    def marg(self, i, a):
        axes = tuple(b for b in range(len(self.margs)) if b != a)
        return np.sum(self.snap[i]['post'], axis=axes)

    def hmarg(self, i, h):
        n, k, j, vals = h
        w = self.snap[i]['hyper'][k]
        return np.array([np.sum([x for x, c in zip(w, self.grids[k]) if c[j] == a]) for a in range(len(vals))])


def errors():
    import bayesloop.exceptions as e
    return (e.PostProcessingError, e.ConfigurationError, NotImplementedError)


def expect_error(f, what):
    try:
        with dsl.hush():
            f()
    except errors():
        return
    raise Violation('{} is not rejected'.format(what))


def query(S, m, op, case, ctx):
    kind = op[0]
    S = Spelled(S, op[1] + op[2] + op[3])
    n = len(m.ts)
    hist = case['history']
    names = case['om']['names']
    a = op[1] % len(names)
    pname = names[a]
    i = op[2] % n
    t = m.ts[i]
    h = m.hyp[op[1] % len(m.hyp)] if m.hyp else None
    k = op[1] % len(m.names)
    flag = bool(op[3])
    key = 'local' if flag else 'tmd'
    scribble = []

    def out(pair):
        scribble.append(pair[1])
        return pair

    past = kind in ('pd', 'pdavg', 'pds', 'mean', 'means', 'hpd', 'hpdavg', 'hpds', 'hmean', 'hmeans', 'tmps', 'tmds')
    if past and not hist:
        f = {'pd': lambda: S.getPD(t, pname), 'pdavg': lambda: S.getPD('avg', pname), 'pds': lambda: S.getPDs(pname),
             'mean': lambda: S.getParameterMeanValue(t, pname), 'means': lambda: S.getParameterMeanValues(pname),
             'tmps': lambda: S.getTMPs(m.names[k], local=flag), 'tmds': lambda: S.getTransitionModelDistributions(local=flag)}
        hf = {'hpd': lambda: S.getHPD(t, h[0]), 'hpdavg': lambda: S.getHPD('avg', h[0]), 'hpds': lambda: S.getHPDs(h[0]),
              'hmean': lambda: S.getHyperParameterMeanValue(t, h[0]), 'hmeans': lambda: S.getHyperParameterMeanValues(h[0])}
        if kind in hf and h is None:
            return
        expect_error(f.get(kind) or hf.get(kind), 'query of the past without stored history')
        return
    if kind in ('hpd', 'hpdavg', 'hpds', 'hmean', 'hmeans', 'chpd') and h is None:
        return
    if kind == 'pd':
        x, p = out(S.getPD(t, pname, density=flag))
        check_close(x, m.margs[a], 'getPD: values')
        check_close(p, m.marg(i, a) / (m.dx[a] if flag else 1.), 'getPD at a past step')
    elif kind == 'pdavg':
        x, p = out(S.getPD('avg', pname, density=flag))
        check_close(p, np.mean([m.marg(j, a) for j in range(n)], axis=0) / (m.dx[a] if flag else 1.), 'getPD, time average')
    elif kind == 'pds':
        x, p = out(S.getPDs(pname, density=flag))
        check_close(x, m.margs[a], 'getPDs: values')
        check_close(p, np.array([m.marg(j, a) for j in range(n)]) / (m.dx[a] if flag else 1.), 'getPDs')
    elif kind == 'cpd':
        x, p = out(S.getCPD(pname, density=flag))
        check_close(p, m.marg(n - 1, a) / (m.dx[a] if flag else 1.), 'getCPD')
    elif kind == 'mean':
        check_close(S.getParameterMeanValue(t, pname), np.sum(m.marg(i, a) * m.margs[a]), 'getParameterMeanValue', 1e-6, 1e-7)
    elif kind == 'means':
        check_close(S.getParameterMeanValues(pname), [np.sum(m.marg(j, a) * m.margs[a]) for j in range(n)],
                    'getParameterMeanValues', 1e-6, 1e-7)
    elif kind == 'cmean':
        check_close(S.getCurrentParameterMeanValue(pname), np.sum(m.marg(n - 1, a) * m.margs[a]), 'current mean', 1e-6, 1e-7)
    elif kind == 'hpd':
        x, p = out(S.getHPD(t, h[0]))
        check_close(x, h[3], 'getHPD: values')
        check_close(p, m.hmarg(i, h), 'getHPD at a past step')
    elif kind == 'hpdavg':
        x, p = out(S.getHPD('avg', h[0]))
        check_close(p, np.mean([m.hmarg(j, h) for j in range(n)], axis=0), 'getHPD, time average')
    elif kind == 'hpds':
        x, p = out(S.getHPDs(h[0]))
        o = np.argsort(x)  # values may be reported in another order
        q = np.argsort(h[3])
        check_close(np.asarray(x)[o], np.asarray(h[3])[q], 'getHPDs: values')
        check_close(np.asarray(p)[:, o], np.array([m.hmarg(j, h) for j in range(n)])[:, q], 'getHPDs')
    elif kind == 'chpd':
        x, p = out(S.getCHPD(h[0]))
        check_close(x, h[3], 'getCHPD: values')
        check_close(p, m.hmarg(n - 1, h), 'getCHPD')
    elif kind == 'hmean':
        check_close(S.getHyperParameterMeanValue(t, h[0]), np.sum(m.hmarg(i, h) * np.array(h[3])),
                    'getHyperParameterMeanValue', 1e-6, 1e-7)
    elif kind == 'hmeans':
        check_close(S.getHyperParameterMeanValues(h[0]), [np.sum(m.hmarg(j, h) * np.array(h[3])) for j in range(n)],
                    'getHyperParameterMeanValues', 1e-6, 1e-7)
    elif kind == 'tmps':
        check_close(S.getTMPs(m.names[k], local=flag), [s[key][k] for s in m.snap], 'getTMPs')
    elif kind == 'tmds':
        x, p = out(S.getTransitionModelDistributions(local=flag))
        check(list(x) == m.names, 'names of transition models')
        check_close(p, np.array([s[key] for s in m.snap]), 'getTransitionModelDistributions')
    elif kind == 'ctmd':
        x, p = out(S.getCTMD(local=flag))
        check(list(x) == m.names, 'names of transition models')
        check_close(p, m.snap[-1][key], 'getCTMD')
    elif kind == 'ctmp':
        check_close(S.getCTMP(m.names[k], local=flag), m.snap[-1][key][k], 'getCTMP')
    elif kind == 'eval':
        x = m.margs[a][i % len(m.margs[a])]
        th = float(x) - 0.5 * float(np.min(np.abs(np.diff(m.margs[a]))))
        q = '{}{} > {!r}'.format(pname, '@{}'.format(t) if hist else '', round(th, 9))
        with dsl.hush():
            p = S.eval(q, silent=True)
        j = i if hist else n - 1
        check_close(p, np.sum(m.marg(j, a)[m.margs[a] > round(th, 9)]), 'query ' + q)
    elif kind == 'fail':
        what = op[2] % 13
        if what == 0:
            expect_error(lambda: S.getPD(t, 'nosuch') if hist else S.getCPD('nosuch'), 'unknown parameter')
        elif what == 1:
            expect_error(lambda: S.getPD(t + 1000, pname), 'unknown time step')
        elif what == 2:
            expect_error(lambda: S.getCHPD('nosuch'), 'unknown hyper-parameter')
        elif what == 3:
            expect_error(lambda: S.getHPD(t + 1000, h[0] if h else 'nosuch'), 'unknown time step')
        elif what == 4:
            expect_error(lambda: S.fit(), 'fit of an on-line study')
        elif what == 5:
            expect_error(lambda: S.getPDs('nosuch'), 'unknown parameter')
        elif what < 12:
            wrong = h[0] if h and op[3] == 1 else 'nosuch'  # names of hyper-parameters are not those of parameters
            hwrong = pname if op[3] == 1 else 'nosuch'
            what, f = [('current mean value of an unknown parameter', lambda: S.getCurrentParameterMeanValue(wrong)),
                       ('mean values of an unknown parameter', lambda: S.getParameterMeanValues(wrong)),
                       ('mean value of an unknown parameter', lambda: S.getParameterMeanValue(t, wrong)),
                       ('mean value at an unknown time', lambda: S.getParameterMeanValue(t + 1000, pname)),
                       ('mean values of an unknown hyper-parameter', lambda: S.getHyperParameterMeanValues(hwrong)),
                       ('mean value of an unknown hyper-parameter', lambda: S.getHyperParameterMeanValue(t, hwrong))][what - 6]
            expect_error(f, what)
        else:
            expect_error(lambda: S.plot('nosuch'), 'plot of unknown parameter')
    elif kind == 'plot':
        P = plt()
        try:
            with dsl.hush():
                what = op[2] % 3
                kw = dict(t=t) if flag and hist and what != 2 else {}
                if what == 0:
                    S.plot(pname, **kw)
                elif what == 1 and h is not None:
                    S.plot(h[0], **kw)
                elif hist:
                    S.plot(m.names[k], **(dict(local=True) if flag else {}))
        finally:
            P.close('all')
    if op[3] > 1 and scribble:  # whatever the user does with returned probabilities
        try:
            for p in scribble:
                np.asarray(p)[...] = -7.
        except ValueError:
            pass  # read-only results are fine


def body_history(case, ctx):
    c11.usable(case, 30)
    seg = ref.SEGMENT.get(case['om']['om'], 1)
    points = dsl.data_points(case)
    S, names = c11.start(case, case['history'])
    T, _ = c11.start(case, not case['history'])  # never queried
    m = Model(S, case, names)
    nsteps = nq = after = 0
    for op in case['ops']:
        if op[0] == 'step':
            if nsteps >= len(points):
                continue
            dsl.step(S, points[nsteps])
            dsl.step(T, points[nsteps])
            nsteps += 1
            if nsteps < seg:
                continue
            if not np.isfinite(S.logEvidence):
                raise Reject()
            m.record(S, nsteps - 1)
            a, b = dsl.online_moments(S), dsl.online_moments(T)
            for key in ('post', 'tmd', 'local', 'tmpost'):
                check_close(a[key], b[key], '{} with and without queries'.format(key), 1e-12, 0)
            check_log(a['logE'], b['logE'], 'log-evidence with and without queries', 1e-12)
            for x, y in zip(a['hyper'], b['hyper']):
                check_close(x, y, 'hyper-parameters with and without queries', 1e-12, 0)
            after += nq > 0
        elif m.ts:
            query(S, m, op, case, ctx)
            ctx.label(op[0])
            nq += 1
    if not m.ts:
        raise Reject()
    # everything once more at the end
    for kind in ('pds', 'means', 'tmds', 'pdavg'):
        for a in range(len(case['om']['names'])):
            query(S, m, [kind, a, 0, 0], case, ctx)
    for j in range(len(m.hyp)):
        for kind in ('hpds', 'hmeans', 'hpdavg'):
            query(S, m, [kind, j, 0, 0], case, ctx)
    for i in range(len(m.ts)):
        for j in range(max(len(m.hyp), len(case['om']['names']))):
            for kind in ('pd', 'mean', 'hpd', 'hmean'):
                query(S, m, [kind, j, i, 0], case, ctx)
    ctx.label('history' if case['history'] else 'no history')
    ctx.nontrivial(after > 0 and len(m.ts) >= 2)


KINDS = ['pd', 'pdavg', 'pds', 'cpd', 'mean', 'means', 'cmean', 'hpd', 'hpdavg', 'hpds', 'chpd', 'hmean',
         'hmeans', 'tmps', 'tmds', 'ctmd', 'ctmp', 'fail']


@st.composite
def s_history(draw, extra=(), long=None):
    c = draw(c11.s_batch(min_len=2, max_len=6, long=long))
    c['history'] = draw(st.sampled_from([True, True, True, False]))
    op = st.tuples(st.sampled_from(KINDS + list(extra)), st.integers(0, 7), st.integers(0, 20), st.integers(0, 2)).map(list)
    c['ops'] = []
    for i in range(len(c['data'])):
        c['ops'].append(['step', 0, 0, 0])
        c['ops'] += draw(st.lists(op, min_size=1 if i < 3 else 0, max_size=4 if not long else 2))
    return c


def s_slow():
    return s_history(extra=['plot', 'plot', 'plot', 'plot', 'eval', 'eval', 'eval'])


TESTS = [
    Test('history', s_history, body_history, 1300, 20000, 'at least two steps, and queries before the last step'),
    Test('long', lambda: s_history(long=[12, 20, 33]), body_history, 60, 800, 'queries before the last step'),
    Test('plots', s_slow, body_history, 220, 4000, 'at least two steps, and queries (or plots) before the last step'),
]
KNOWN = {}
