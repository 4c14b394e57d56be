"""C13: parameter distributions and mean values are marginals of the posterior."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c10
from vf.checks.c12 import expect_error, plt
from vf.common import Spelled, triggers, match, make_ref, check, check_close, check_log, hyper_ok
from vf.core import Test, Reject, Violation


@st.composite
def om3(draw):
    """Custom likelihood with three parameters."""
    names = draw(st.permutations(['u', 'v', 'w']))
    gs = [draw(dsl.grids(-2., 2., max_n=n)) for n in draw(st.permutations([4, 3, 3]))]
    size = int(np.prod([len(ref.grid_values(g)) for g in gs]))
    # a few random numbers are enough to make all entries different
    a = draw(st.lists(st.integers(1, 97), min_size=2, max_size=2))
    table = [[((i * (2 * x + 1)) % 101 + 1) / 50. for i in range(size)] for x in a]
    prior = draw(st.sampled_from(['default', None, {'func': [0.5, 1., 0., 0.5]}, {'array': [1 + (i * 7) % 5 for i in range(size)]}]))
    return {'om': 'NumPyTable', 'names': list(names), 'grids': gs, 'table': table, 'prior': prior}


def posterior(case, S, ctx):
    """Reference posterior sequence; compared with the study."""
    tm, cls = case['tm'], case['cls']
    full = case['mode'] == 'full'

    def compare(flags):
        if cls == 'Study':
            r = make_ref(case, flags, backward=full)
            if not np.isfinite(r.logE):
                raise Reject()
            seq = np.array(r.smoothed if full else r.filt)
            base = r
        else:
            valid = None
            if cls == 'ChangepointStudy':
                valid = c10.make_valid(c10.points(tm))
            h = ref.HyperRef(case['om'], tm, case['data'], case.get('ts'), flags, valid=valid, forward_only=not full)
            if not np.isfinite(h.total):
                raise Reject()
            seq, base = h.mixture('smoothed' if full else 'filt'), h.base
        check_close(S.posteriorSequence, seq, 'posterior sequence')
        return seq, base
    return match(triggers(tm, full), compare, ctx)


def simple_points(tm):
    """Change-points in a single transition model, or break-points of a single serial transition model."""
    if tm['tm'] == 'Serial':
        return all(m['tm'] not in ('Comb', 'Serial') for m in tm['parts'])
    ms = tm['models'] if tm['tm'] == 'Comb' else [tm]
    return all(m['tm'] not in ('Comb', 'Serial') for m in ms) and any(m['tm'] == 'CP' for m in ms)


def body_marginals(case, ctx):
    from bayesloop.exceptions import ConfigurationError
    cls = case['cls']
    if cls != 'Study' and (not hyper_ok(case['tm']) or not ref.flat_hypers(case['tm'])):
        cls = case['cls'] = 'HyperStudy'
        if not hyper_ok(case['tm']):
            raise Reject()
    if cls == 'ChangepointStudy' and not simple_points(case['tm']):
        cls = case['cls'] = 'HyperStudy'
    if cls == 'Study':
        case['tm'] = dsl.scalar_tm(case['tm'])
    n = 1
    for _, v, _ in ref.flat_hypers(case['tm']):
        n *= len(v) if isinstance(v, list) else 1
    if n > 10:
        raise Reject()
    S = Spelled(dsl.study(case, cls), case['w'])
    names = case['om']['names']
    expect_error(lambda: S.getPD(0, names[0]), 'parameter distribution before fit')
    expect_error(lambda: S.getPDs(names[0]), 'parameter distributions before fit')
    try:
        dsl.run_fit(S, **({} if case['mode'] == 'full' else dict(forwardOnly=True)))
    except ConfigurationError:
        if cls == 'ChangepointStudy':  # rejects the case if there is no ordered combination of change-points
            ref.HyperRef(case['om'], case['tm'], case['data'], case.get('ts'), valid=c10.make_valid(c10.points(case['tm'])))
        raise
    seq, base = posterior(case, S, ctx)
    ts = base.ts
    N = len(ts)
    check_close(S.formattedTimestamps, np.array(ts, dtype=float), 'time stamps')
    for rnd in range(2):
        for a in (range(len(names)) if rnd == 0 else reversed(range(len(names)))):
            axes = tuple(b for b in range(len(names)) if b != a)
            m = [np.sum(q, axis=axes) for q in seq]
            d = base.dx[a]
            for i in range(N):
                t = ts[i]
                for key in ((t, float(t), np.float64(t)) if rnd == 0 else (np.array(ts)[i],)):
                    x, p = S.getPD(key, names[a], density=True)
                    check_close(x, base.margs[a], 'values of ' + names[a])
                    check_close(p, m[i] / d, 'density of {} at time {}'.format(names[a], t))
                    check_close(np.sum(p) * d, 1., 'density integrates to one')
                x, p = S.getPD(t, names[a], density=False)
                check_close(p, m[i], 'distribution of {} at time {}'.format(names[a], t))
                if case['scribble']:
                    p[...] = -3.
            x, p = S.getPD('avg', names[a], density=False)
            check_close(p, np.mean(m, axis=0), 'time average of the distribution of ' + names[a])
            x, p = S.getPD('avg', names[a], density=True)
            check_close(p, np.mean(m, axis=0) / d, 'time average of the density of ' + names[a])
            x, p = S.getPDs(names[a], density=True)
            check_close(x, base.margs[a], 'values of ' + names[a])
            check_close(p, np.array(m) / d, 'sequence of densities of ' + names[a])
            x, p = S.getPDs(names[a], density=False)
            check_close(p, np.array(m), 'sequence of distributions of ' + names[a])
            if case['scribble']:
                p[...] = -3.
            check_close(S.getParameterMeanValues(names[a]), [np.sum(q * base.margs[a]) for q in m], 'mean values of ' + names[a],
                        1e-6, 1e-7)
    wrong = [t for t in list(range(N + 2)) + [ts[0] - 1, ts[-1] + 1, ts[0] + 0.125] if t not in ts]
    expect_error(lambda: S.getPD(wrong[case['w'] % len(wrong)], names[0]), 'unknown time stamp')
    for bad in ('nosuch', '', names[0] + ' '):
        expect_error(lambda: S.getPD(ts[0], bad), 'unknown parameter name (getPD)')
        expect_error(lambda: S.getPDs(bad), 'unknown parameter name (getPDs)')
        expect_error(lambda: S.getParameterMeanValues(bad), 'unknown parameter name (getParameterMeanValues)')
    check_close(S.posteriorSequence, seq, 'posterior sequence after queries')
    ctx.label(cls, case['om']['om'], '{} parameter(s)'.format(len(names)))
    ctx.nontrivial(N >= 2)


@st.composite
def s_marginals(draw, three=False, long=False):
    om = draw(om3() if three else dsl.oms(max_n1=7, max_n2=5, offset=True))
    kinds = ('Static', 'GRW', 'CP', 'Regime', 'Indep')
    c = draw(dsl.cases(om=st.just(om), kinds=kinds, multi=True, max_values=2, min_len=3 if long else 1, max_len=5, long='always' if long else None))
    c['cls'] = draw(st.sampled_from(['Study', 'Study', 'HyperStudy', 'ChangepointStudy']))
    c['mode'] = draw(st.sampled_from(['full', 'fwd']))
    c['scribble'] = draw(st.booleans())
    c['w'] = draw(st.integers(0, 50))
    if c['cls'] == 'Study':
        unsorted(draw, c)
    return c


def unsorted(draw, c):
    """Time stamps in any order (for transition models that do not depend on their order)."""
    if draw(st.integers(0, 5)) == 0 and not any(k in str(c.get('tm')) for k in ('Serial', 'Det', 'CP')):
        c['ts'] = list(draw(st.permutations(c.get('ts') or list(range(len(c['data']))))))


# ------------------------------------------------------------------------------------------------------------ plots

def body_plot(case, ctx):
    """What is plotted is what is returned, and plotting changes nothing."""
    case['tm'] = dsl.scalar_tm(case['tm'])
    S = dsl.study(case, fit={} if case['mode'] == 'full' else dict(forwardOnly=True))
    if not np.isfinite(S.logEvidence):
        raise Reject()
    names = case['om']['names']
    a = case['w'] % len(names)
    before = [np.array(S.posteriorSequence).copy(), np.array(S.posteriorMeanValues).copy()]
    t = S.formattedTimestamps[case['w'] % len(S.formattedTimestamps)]
    P = plt()
    try:
        with dsl.hush():
            x, p = S.getPD(t, names[a])
            y, q = S.getPD(t, names[a], plot=True)
            check_close(p, q, 'getPD with plot')
            path = P.gca().collections[-1].get_paths()[0].vertices
            hi = [np.max(path[np.isclose(path[:, 0], v, rtol=1e-9, atol=1e-9), 1]) for v in x]
            check_close(np.maximum(hi, 0.), p, 'plotted density', 1e-6, 1e-9)
            P.figure()
            S.plot(names[a], t=t, density=False)
            path = P.gca().collections[-1].get_paths()[0].vertices
            hi = [np.max(path[np.isclose(path[:, 0], v, rtol=1e-9, atol=1e-9), 1]) for v in x]
            check_close(np.maximum(hi, 0.), S.getPD(t, names[a], density=False)[1], 'plotted distribution', 1e-6, 1e-9)
            P.figure()
            S.plot(names[a], color='r', gamma=0.3)
            line = P.gca().lines[-1]
            check_close(line.get_ydata(), S.getParameterMeanValues(names[a]), 'plotted mean values', 1e-9)
            check_close(np.array(line.get_xdata(), dtype=float), np.array(S.formattedTimestamps, dtype=float), 'plotted times')
            P.figure()
            x, p = S.getPDs(names[a], plot=True)
            check_close(np.array(P.gca().images[-1].get_array()).T, p, 'plotted sequence of densities')
    finally:
        P.close('all')
    check_close(S.posteriorSequence, before[0], 'posterior sequence after plotting', 0, 0)
    check_close(S.posteriorMeanValues, before[1], 'mean values after plotting', 0, 0)
    ctx.label(case['om']['om'])
    ctx.nontrivial(len(S.formattedTimestamps) > 1)


TESTS = [
    Test('marginals', s_marginals, body_marginals, 900, 12000, 'at least two time steps'),
    Test('three', lambda: s_marginals(three=True), body_marginals, 500, 6000, 'at least two time steps, three parameters'),
    Test('long', lambda: s_marginals(long=True), body_marginals, 30, 400, 'at least two time steps'),
    Test('plot', s_marginals, body_plot, 90, 1500, 'at least two time steps'),
]
from vf.checks import c02  # noqa: E402
KNOWN = c02.KNOWN
