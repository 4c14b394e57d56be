"""C06: transition models move probability as documented."""
import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import triggers, match, make_ref, check_forward, kinds, check, check_close, check_log
from vf.core import Test, Reject
from vf.dsl import num


@st.composite
def table_om(draw, max1=15, max2=(6, 5), categorical=True, two=None, zeros=True, prior=(None, 'func', 'array')):
    two = draw(st.booleans()) if two is None else two
    names = draw(st.sampled_from([['x', 'y'], ['b', 'a']]))[:2 if two else 1]
    sizes = max2 if two else (max1,)
    scale = draw(st.sampled_from([1., 1., 1., 0.01, 100.]))
    gs = []
    for m in sizes:
        g = draw(dsl.grids(-2., 2., max_n=m, categorical=categorical))
        g = dict(g, vals=[v * scale for v in g['vals']]) if 'vals' in g else dict(g, a=g['a'] * scale, b=g['b'] * scale)
        gs.append(g)
    size = int(np.prod([len(ref.grid_values(g)) for g in gs]))
    kind = draw(st.sampled_from(['any', 'any', 'delta', 'zeros'] if zeros else ['any']))
    if kind == 'delta':
        row = [0.] * size
        row[draw(st.integers(0, size - 1))] = 1.
    else:
        row = draw(st.lists(st.integers(0 if kind == 'zeros' else 1, 20).map(lambda i: i / 10.), min_size=size, max_size=size))
    if not sum(row) > 0:
        row[0] = 1.
    om = {'om': 'NumPyTable', 'names': names, 'grids': gs, 'table': [row], 'prior': None}
    p = draw(st.sampled_from(prior))
    if p == 'func':
        om['prior'] = {'func': [0.3, 0.5]}
    elif p == 'array':
        om['prior'] = {'array': draw(st.lists(st.integers(1, 9), min_size=size, max_size=size))}
    return om


@st.composite
def s_kernel(draw):
    om = draw(table_om())
    n = draw(st.integers(2, 4))
    ts = draw(dsl.timestamps(n))
    tm = draw(dsl.leaf_tms(om, ts or list(range(n)), dsl.Namer(draw)))
    c = {'om': om, 'tm': tm, 'data': [0] + [None] * (n - 1)}
    if ts is not None:
        c['ts'] = ts
    return c


def body_kernel(case, ctx):
    """The distribution after a data point, and after further missing ones, is the one the model documents."""
    S = dsl.study(case, fit=dict(forwardOnly=True))
    flags = triggers(case['tm'], False)

    def compare(f):
        r = make_ref(case, f)
        check_forward(S, r, case['tm']['tm'])
        return r
    r = match(flags, compare, ctx)
    P = np.array(S.posteriorSequence)
    check(np.all(P >= 0), case['tm']['tm'] + ': probabilities are not negative')
    check_close(P.reshape(len(P), -1).sum(axis=1), np.ones(len(P)), case['tm']['tm'] + ': normalisation')
    if case['tm']['tm'] == 'GRW' and len(case['om']['names']) == 2:
        ax = case['om']['names'].index(case['tm']['target'])
        check_close(P[1].sum(axis=ax), P[0].sum(axis=ax), 'marginal distribution of the other parameter')
    ctx.label(case['tm']['tm'], '{}D'.format(len(case['om']['names'])))
    ctx.nontrivial(np.max(np.abs(P[0] - P[1])) > 1e-9)


# ------------------------------------------------------------------ moments: independent of the reference operators

@st.composite
def s_moments(draw):
    two = draw(st.booleans())
    kind = draw(st.sampled_from(['GRW', 'Alpha2', 'Alpha1', 'Det'] + (['Biv'] * 3 if two else [])))
    scale = [draw(st.sampled_from([0.01, 0.1, 1., 20.])) for _ in range(2)]
    n = [draw(st.integers(50, 70)) if kind != 'Biv' else 41 for _ in range(2)]
    if two and kind != 'Biv':
        ax = draw(st.integers(0, 1))
        n[1 - ax] = draw(st.integers(2, 5))
    else:
        ax = 0
    return {'two': two, 'kind': kind, 'scale': scale, 'n': n, 'ax': ax, 'w': draw(num(1., 3.5)), 'w2': draw(num(1.1, 3.4)),
            'rho': draw(st.sampled_from([-0.7, -0.3, 0., 0.5, 0.8])), 'width': draw(num(0.5, 2.)), 'width2': draw(num(0.5, 2.)),
            'iv': draw(st.sampled_from(['oint', 'cint'])), 'names': draw(st.sampled_from([['x', 'y'], ['b', 'a']]))}


def body_moments(case, ctx):
    """Far from the boundaries, the model adds the documented mean and (co-)variance in units of the parameter."""
    two, ax, kind = case['two'], case['ax'], case['kind']
    d = 2 if two else 1
    if case['iv'] == 'oint':
        grids = [{'kind': 'oint', 'a': 0., 'b': (n + 1) * s, 'n': n} for n, s in zip(case['n'], case['scale'])][:d]
    else:
        grids = [{'kind': 'cint', 'a': 0., 'b': (n - 1) * s, 'n': n} for n, s in zip(case['n'], case['scale'])][:d]
    v = [ref.grid_values(g) for g in grids]
    dx = case['scale'][:d]
    G = np.meshgrid(*v, indexing='ij')
    c = [x[len(x) // 2] for x in v]
    p = np.ones(G[0].shape)
    for i in range(d):
        if len(v[i]) > 10:
            p = p * np.exp(-.5 * ((G[i] - c[i]) / (dx[i] * ([case['width'], case['width2']][i] + (1.5 if kind == 'Det' else 0.)))) ** 2)
        else:
            p = p * (1. + np.arange(len(v[i])).reshape([-1 if j == i else 1 for j in range(d)]))
    om = {'om': 'NumPyTable', 'names': case['names'][:d], 'grids': grids, 'table': [p.ravel().tolist()], 'prior': None}
    target = case['names'][ax]
    w = case['w'] * dx[ax]
    if kind == 'GRW':
        tm = {'tm': 'GRW', 'names': ['s'], 'values': [w], 'target': target}
    elif kind in ('Alpha2', 'Alpha1'):
        tm = {'tm': 'Alpha', 'names': ['c', 'al'], 'values': [w, float(kind[-1])], 'target': target}
    elif kind == 'Det':
        tm = {'tm': 'Det', 'fn': 'lin', 'names': ['q'], 'values': [w], 'target': target}
    else:
        tm = {'tm': 'Biv', 'names': ['s1', 's2', 'r'], 'values': [w, case['w2'] * dx[1], case['rho']]}
    S = dsl.study({'om': om, 'tm': tm, 'data': [0, None]}, fit=dict(forwardOnly=True))
    a, b = np.array(S.posteriorSequence)

    def mean(q, i):
        return np.sum(q * G[i])

    def cov(q, i, j):
        return np.sum(q * (G[i] - mean(q, i)) * (G[j] - mean(q, j)))
    check_close(b.sum(), 1., kind + ': normalisation')
    if kind == 'Alpha1':  # Cauchy distribution: compare shape of a narrow distribution after one step
        import scipy.stats as ss
        f = lambda z: ss.cauchy.cdf((z + .5) * dx[ax], scale=w) - ss.cauchy.cdf((z - .5) * dx[ax], scale=w)
        k = np.arange(len(v[ax]))
        m = f(k[:, None] - k[None, :])
        e = np.moveaxis(np.tensordot(m, a, axes=([1], [ax])), 0, ax)
        e /= e.sum()
        check(np.max(np.abs(e - b)) < 0.08 * np.max(e), 'Cauchy random walk: ' + str(np.max(np.abs(e - b)) / np.max(e)))
    else:
        shift = w if kind == 'Det' else 0.
        var = {'GRW': w ** 2, 'Alpha2': 2 * w ** 2, 'Det': 0., 'Biv': w ** 2}[kind]
        check(abs(mean(b, ax) - mean(a, ax) - shift) < 0.02 * dx[ax], kind + ': mean of the target parameter')
        grow = cov(b, ax, ax) - cov(a, ax, ax)
        check(abs(grow - var) < 0.08 * var + 0.03 * dx[ax] ** 2, '{}: variance grows by {} instead of {}'.format(kind, grow, var))
        if kind == 'Biv':
            v2 = (case['w2'] * dx[1]) ** 2
            g2 = cov(b, 1, 1) - cov(a, 1, 1)
            check(abs(g2 - v2) < 0.12 * v2, 'variance of second parameter grows by {} instead of {}'.format(g2, v2))
            cc = case['rho'] * np.sqrt(var * v2)
            gc = cov(b, 0, 1) - cov(a, 0, 1)
            check(abs(gc - cc) < 0.12 * np.sqrt(var * v2), 'covariance grows by {} instead of {}'.format(gc, cc))
        elif two:
            check(abs(mean(b, 1 - ax) - mean(a, 1 - ax)) < 1e-3 * dx[1 - ax], kind + ': other parameter moves')
    ctx.label(kind, '{}D'.format(d), 'axis {}'.format(ax))
    ctx.nontrivial(True)


# ------------------------------------------------------------------ one model instance, different settings

@st.composite
def s_reuse(draw):
    two = draw(st.booleans())
    oms = [draw(table_om(max1=8, max2=(4, 4), two=two, zeros=False)) for _ in range(draw(st.integers(1, 2)))]
    for o in oms:
        o['names'] = oms[0]['names']
    tm = draw(dsl.leaf_tms(oms[0], [0, 1, 2], dsl.Namer(draw), kinds=('GRW', 'Alpha', 'Alpha', 'Biv', 'Regime', 'NotEqual', 'Det', 'CP')))
    alt = []
    for i in range(draw(st.integers(1, 3))):
        m = draw(dsl.leaf_tms(oms[-1], [0, 1, 2], dsl.Namer(draw), kinds=(tm['tm'],)))
        if m['tm'] == tm['tm'] and len(m['names']) == len(tm['names']):
            alt.append(m['values'])
    ops = draw(st.lists(st.sampled_from(['values', 'grid', 'fit', 'full']), min_size=1, max_size=5))
    return {'oms': oms, 'tm': tm, 'alt': alt, 'ops': ops + ['fit'], 'two_studies': draw(st.booleans())}


def body_reuse(case, ctx):
    """Results depend on the current hyper-parameter values and the current grid only."""
    b = dsl.bl()
    T = dsl.build_tm(case['tm'])
    cur, om, k = case['tm'], 0, 0
    data = [0, None, 0]
    studies = []
    with dsl.hush():
        for _ in range(2 if case['two_studies'] else 1):
            S = b.Study(silent=True)
            S.load(np.array(ref.rows(data), dtype=float), silent=True)
            S.set(dsl.build_om(case['oms'][0]), T, silent=True)
            studies.append([S, 0])
    S = studies[0]
    nfit = 0
    for op in case['ops']:
        if op == 'values' and case['alt']:
            cur = dict(case['tm'], values=case['alt'][k % len(case['alt'])])
            k += 1
            with dsl.hush():
                fresh = dsl.build_tm(cur)
                T.hyperParameterValues = list(fresh.hyperParameterValues)
        elif op == 'grid':
            S = studies[nfit % len(studies)]
            S[1] = (S[1] + 1) % len(case['oms'])
            with dsl.hush():
                S[0].set(dsl.build_om(case['oms'][S[1]]), silent=True)
                S[0].set(T, silent=True)
        elif op in ('fit', 'full'):
            S = studies[nfit % len(studies)]
            with dsl.hush():
                S[0].set(T, silent=True)
            dsl.run_fit(S[0], **({} if op == 'full' else dict(forwardOnly=True)))
            nfit += 1
            if op == 'fit':
                c = {'om': case['oms'][S[1]], 'tm': cur, 'data': data}
                match(triggers(cur, False), lambda f: check_forward(S[0], make_ref(c, f), 'after ' + ' '.join(case['ops'])), ctx)
    ctx.label(case['tm']['tm'], *sorted(set(case['ops'])))
    ctx.nontrivial(('values' in case['ops'] and bool(case['alt'])) or 'grid' in case['ops'])


@st.composite
def s_integers(draw):
    om = draw(table_om(max1=8, max2=(4, 4), zeros=False, categorical=False))
    om['grids'] = [{'kind': 'cint', 'a': 0, 'b': 3 * (len(ref.grid_values(g)) - 1), 'n': len(ref.grid_values(g))} for g in om['grids']]
    k = draw(st.sampled_from(['GRW', 'Alpha', 'Regime', 'NotEqual', 'Det'] + (['Biv'] if len(om['names']) == 2 else [])))
    t = om['names'][draw(st.integers(0, len(om['names']) - 1))]
    v = lambda *a: draw(st.lists(st.sampled_from(a), min_size=1, max_size=2, unique=True).map(sorted))
    tm = {'GRW': lambda: {'tm': 'GRW', 'names': ['s'], 'values': [v(0, 1, 2, 4)], 'target': t},
          'Alpha': lambda: {'tm': 'Alpha', 'names': ['c', 'a'], 'values': [v(0, 1, 2), v(1, 2)], 'target': t},
          'Regime': lambda: {'tm': 'Regime', 'names': ['q'], 'values': [v(-4, -2, -1)]},
          'NotEqual': lambda: {'tm': 'NotEqual', 'names': ['q'], 'values': [v(-4, -2, -1)]},
          'Det': lambda: {'tm': 'Det', 'fn': 'lin', 'names': ['q'], 'values': [v(-4, -2, 0, 1, 3)], 'target': t},
          'Biv': lambda: {'tm': 'Biv', 'names': ['s1', 's2', 'r'], 'values': [v(1, 2, 4), v(1, 2, 4), [0]]}}[k]()
    return {'om': om, 'tm': tm, 'data': [0, None, 0], 'how': draw(st.sampled_from(['study', 'study', 'hyper', 'online'])),
            'box': draw(st.sampled_from(['array', 'list']))}


def body_integers(case, ctx):
    """Integer hyper-parameter values are as good as floating point ones."""
    res = []
    for conv in (int, float):
        vals = [[conv(x) for x in v] for v in case['tm']['values']]
        if case['how'] == 'study':
            vals = [v[0] for v in vals]
        c = dict(case, tm=dict(case['tm'], values=vals, box=case['box']))
        if case['how'] == 'online':
            S = dsl.online(case['om'], [('M', c['tm'])])
            for x in dsl.data_points(c):
                dsl.step(S, x)
        else:
            S = dsl.study(c, {'study': 'Study', 'hyper': 'HyperStudy'}[case['how']], fit=dict(forwardOnly=True))
        res.append((S.logEvidence, np.array(S.posteriorSequence)))
    check_log(res[0][0], res[1][0], 'log-evidence with integer hyper-parameter values')
    check_close(res[0][1], res[1][1], 'distributions with integer hyper-parameter values')
    ctx.label(case['tm']['tm'], case['how'])
    ctx.nontrivial(True)


TESTS = [
    Test('kernel', s_kernel, body_kernel, 3000, 60000, 'the transition changes the distribution'),
    Test('moments', s_moments, body_moments, 600, 8000, 'always (large grids, moments known analytically)'),
    Test('reuse', s_reuse, body_reuse, 800, 16000, 'hyper-parameter values or grid changed between fits'),
    Test('integers', s_integers, body_integers, 300, 5000, 'always'),
]
from vf.checks import c01  # noqa: E402
KNOWN = c01.KNOWN
