"""C10: change-point studies average over all ordered change-point times."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import Spelled, triggers, match, kinds, check, check_close, check_log
from vf.core import Test, Reject
from vf.checks.c08 import compare_hyper, check_hpd, MODES

OMS = ('Poisson', 'Bernoulli', 'Gaussian', 'WhiteNoise', 'GaussianMean', 'NumPyTable', 'AR1')


def points(tm):
    """Names of change-/break-points in order."""
    if tm['tm'] == 'Comb':
        return [n for m in tm['models'] for n in points(m)]
    if tm['tm'] == 'Serial':
        return [m['names'][0] for m in tm['parts'] if m['tm'] in ('CP', 'Break')]
    return list(tm['names']) if tm['tm'] == 'CP' else []


def make_valid(pts):
    def valid(names, x):
        t = [x[names.index(p)] for p in pts]
        return all(a < b for a, b in zip(t, t[1:]))
    return valid


@st.composite
def s_points(draw, max_points=3, extra=True, min_points=1, long=False):
    om = draw(dsl.oms(kinds=OMS, max_n1=5, max_n2=3))
    k = draw(st.integers(min_points, max_points))
    d = draw(dsl.datasets(om, min_len=k + 2, max_len=7 if k < 3 else max(6, k + 3)))
    if long:
        d = (d * 5)[:draw(st.integers(9, 24))]
    ts = draw(dsl.timestamps(len(d)))
    seg = dsl.seg_ts(om, len(d), ts)[:-1]
    if len(seg) < 2:
        return {'skip': True}
    namer = dsl.Namer(draw)

    def point(kind, i):
        v = draw(st.sampled_from(['all', 'all', 'list', 'scalar'] if k > 1 or extra else ['all', 'list']))
        if v == 'list':
            v = sorted(draw(st.lists(st.sampled_from(seg), min_size=1, max_size=4, unique=True)))
        elif v == 'scalar':
            v = seg[min(i, len(seg) - 1)]
        p = {'tm': kind, 'names': [namer()], 'values': [v]}
        n = len(seg) if v == 'all' else len(v) if isinstance(v, list) else 0
        if n and draw(st.integers(0, 3)) == 0:
            if draw(st.booleans()):
                p['priors'] = [{'array': draw(st.lists(st.integers(1, 5), min_size=n, max_size=n))}]
            else:
                p['priors'] = [dsl.hpriors(draw, [float(x) for x in (seg if v == 'all' else v)], True)]
        return p

    def other():
        kinds_ = ('Static', 'Static', 'GRW', 'Regime', 'Det')
        return draw(dsl.leaf_tms(om, dsl.seg_ts(om, len(d), ts), namer, kinds=kinds_, multi=draw(st.integers(0, 3)) == 0,
                                 max_values=2))
    if draw(st.booleans()):
        ms = [point('CP', i) for i in range(k)]
        if extra and draw(st.integers(0, 2)) == 0:
            ms.insert(draw(st.integers(0, len(ms))), other())
        tm = ms[0] if len(ms) == 1 and draw(st.booleans()) else {'tm': 'Comb', 'models': ms}
    else:
        parts = [other()]
        for i in range(k):
            parts += [point(draw(st.sampled_from(['CP', 'Break'])), i), other()]
        tm = {'tm': 'Serial', 'parts': parts}
        if draw(st.integers(0, 5)) == 0:
            tm = {'tm': 'Comb', 'models': [other(), tm][::draw(st.sampled_from([1, -1]))]}
    c = {'om': om, 'tm': tm, 'data': d, 'mode': draw(st.sampled_from(['full', 'full', 'fwd', 'evi']))}
    if ts is not None:
        c['ts'] = ts
    if long:
        c['long'] = True
    return c


def first_values(tm):
    """Serial models need increasing first values of their breaks."""
    for m in ([tm] + tm.get('models', [])):
        if m['tm'] == 'Serial':
            v = [p['values'][0] for p in m['parts'] if p['tm'] in ('CP', 'Break')]
            v = [None if x == 'all' else (x[0] if isinstance(x, list) else x) for x in v]
            if any(a is not None and b is not None and not a < b for a, b in zip(v, v[1:])):
                return False
    return True


def size(case):
    n = 1
    for _, v, _ in ref.flat_hypers(case['tm']):
        n *= (len(case['data']) if v == 'all' else len(v) if isinstance(v, list) else 1)
    return n


def body_points(case, ctx):
    if case.get('skip') or size(case) > (250 if 'long' not in case and len(points(case['tm'])) < 4 else 5000) or not first_values(case['tm']):
        raise Reject()
    pts = points(case['tm'])
    fwd = case['mode'] != 'full'

    def reference(flags):
        return ref.HyperRef(case['om'], case['tm'], case['data'], case.get('ts'), flags, valid=make_valid(pts), forward_only=fwd)
    if len(reference(()).combos) > (60 if 'long' not in case else 300):
        raise Reject()
    S = dsl.study(case, 'ChangepointStudy', fit=MODES[case['mode']])

    def compare(flags):
        h = reference(flags)
        compare_hyper(S, h, case['mode'])
        return h
    h = match(triggers(case['tm'], not fwd), compare, ctx)
    names = [n for n, _, _ in h.hyp]
    S = Spelled(S, len(case['data']))
    if len(h.combos) > 1:
        check_hpd(S, h, case)
        for a, b in itertools.permutations(pts, 2):
            if names.index(a) > names.index(b) and case['mode'] == 'evi':
                continue
            x, p = S.getDD([a, b])
            i, k = sorted([names.index(a), names.index(b)])
            tol = 1e-12 * max(abs(float(v)) for c in h.combos for v in (c[i], c[k]))  # equal durations, up to rounding
            want = []
            for w, u in sorted([(w, c[k] - c[i]) for w, c in zip(h.post, h.combos)], key=lambda v: v[1]):
                if want and abs(u - want[-1][0]) <= tol:
                    want[-1][1] += w
                else:
                    want.append([u, w])
            check(np.all(np.diff(x) > tol), 'durations between {} and {} are not distinct or not in order: {}'.format(a, b, list(x)))
            left = dict((float(u), float(v)) for u, v in zip(x, p))
            for u, w in want:
                near = [y for y in left if abs(y - u) <= 2 * tol]
                check_close(sum(left.pop(y) for y in near), w, 'probability of duration {} between {} and {}'.format(u, a, b))
            for y, v in left.items():
                check_close(v, 0., 'probability of duration {} between {} and {}'.format(y, a, b))
    ctx.label(case['mode'], '{} points'.format(len(pts)), *kinds(case['tm']))
    ctx.nontrivial(len(h.combos) > 1)


def body_uniform(case, ctx):
    """Without information, all ordered combinations are equally likely, and there are no others."""
    if case.get('skip') or size(case) > (400 if len(points(case['tm'])) < 4 else 5000) or not first_values(case['tm']):
        raise Reject()

    def strip(tm):
        tm = {k: v for k, v in tm.items() if k != 'priors'}
        for key in ('models', 'parts'):
            if key in tm:
                tm[key] = [strip(m) for m in tm[key]]
        return tm
    tm = strip(case['tm'])
    blank = [[None] * len(r) if isinstance(r, list) else None for r in case['data']]
    pts = points(tm)
    om = dict(case['om'], prior=None)
    S = dsl.study(dict(case, om=om, tm=tm, data=blank), 'ChangepointStudy')
    r = ref.Ref(om, {'tm': 'Static'}, blank, case.get('ts'))
    hyp = ref.flat_hypers(tm)
    vals = [list(r.ts[:-1]) if v == 'all' else v if isinstance(v, list) else [v] for _, v, _ in hyp]
    names = [n for n, _, _ in hyp]
    ok = [x for x in itertools.product(*vals) if make_valid(pts)(names, x)]
    if len(ok) < 2:
        raise Reject()
    if r.D != 1. and any(m['tm'] == 'CP' for m in ref.leaves(tm)):
        # evidence values differ by the number of resets within the data (finding K1): all points lie within the data here
        pass
    dsl.run_fit(S, evidenceOnly=True)
    for i, n in enumerate(names):
        x, p = S.getHPD(n)
        w = np.array([sum(1. for c in ok if c[i] == v) for v in vals[i]]) / len(ok)
        check_close(x, vals[i], 'values of ' + n)
        check_close(p, w, 'distribution of {} without information'.format(n))
    for a, b in itertools.combinations(pts, 2):
        i, k = names.index(a), names.index(b)
        x, y, p = S.getJHPD([a, b])
        w = np.array([[sum(1. for c in ok if c[i] == u and c[k] == v) for v in vals[k]] for u in vals[i]]) / len(ok)
        check_close(p, w, 'joint distribution of {} and {} without information'.format(a, b))
    ctx.label('{} points'.format(len(pts)), tm['tm'])
    ctx.nontrivial(len(pts) > 1)


TESTS = [
    Test('points', s_points, body_points, 3000, 15000, 'at least two valid combinations of change-point times'),
    Test('many', lambda: s_points(max_points=5, min_points=4, extra=False), body_points, 500, 5000,
         'at least two valid combinations of four or more change-point times'),
    Test('long', lambda: s_points(max_points=2, extra=False, long=True), body_points, 120, 1500,
         'at least two valid combinations of change-point times'),
    Test('uniform', lambda: s_points(extra=False, min_points=2, max_points=4), body_uniform, 800, 8000, 'at least two points'),
]
from vf.checks import c02  # noqa: E402
KNOWN = c02.KNOWN
