"""C14: queries on derived quantities equal direct summation over the grid."""
import itertools
import math

import numpy as np
import scipy.special as sp
from hypothesis import strategies as st

from vf import dsl, ref
from vf.common import match, check, check_close
from vf.core import Test, Reject, Violation

FUNCS = {'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log, 'abs': np.abs, 'sin': np.sin, 'square': np.square, 'log10': np.log10,
         'floor': np.floor, 'expit': sp.expit, 'erf': sp.erf, 'tanh': np.tanh, 'log1p': np.log1p, 'gammaln': sp.gammaln,
         'negative': np.negative}
SAFE = ('exp', 'abs', 'sin', 'square', 'floor', 'expit', 'erf', 'tanh', 'negative')
EXACT = ('abs', 'square', 'floor', 'negative')

# Expressions: ['num', text], ['ref', name, time text or None, study, time key, kind], [op, a, b], ['neg', a], ['f', name, a]


def render(e, style, level=0):
    """Query text. Levels: 0 sum, 1 product, 2 sign, 3 power (left operand), 4 atom."""
    sp_ = ' ' if style & 1 else ''
    full = bool(style & 2)

    def par(s, own):
        return '(' + s + ')' if own < level or (full and own < 4) else s
    k = e[0]
    if k == 'num':
        return par(e[1], 2 if e[1][0] == '-' else 4)
    if k == 'ref':
        if e[2] is None:
            return e[1]
        return par(e[1] + sp_ + '@' + sp_ + e[2], 3 if e[2][0] == '-' else 4)  # x@-1^2 is not x@(-1)^2
    if k == 'neg':
        return par('-' + render(e[1], style, 2), 2)
    if k == 'f':
        return e[1] + '(' + render(e[2], style, 0) + ')'
    if k in '+-':
        return par(render(e[1], style, 0) + sp_ + k + sp_ + render(e[2], style, 1), 0)
    if k in '*/':
        return par(render(e[1], style, 1) + sp_ + k + sp_ + render(e[2], style, 2), 1)
    if k == '^':
        # right associative; the exponent is a power, an atom or a number
        right = render(e[2], style, 3) if e[2][0] != 'num' else e[2][1]
        return par(render(e[1], style, 4) + sp_ + '^' + sp_ + right, 3)
    raise ValueError(k)


def apply(op, a, b):
    if op == '/' and np.any(np.asarray(b) == 0.):
        raise Reject()  # depends on the sign of zero
    if op == '^' and (np.any((np.asarray(a) == 0.) & (np.asarray(b) < 0.)) or np.any(np.isneginf(a))):
        raise Reject()
    with np.errstate(all='ignore'):
        out = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.true_divide, '^': np.power}[op](
            np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    if np.ndim(a) == 0 and np.ndim(b) == 0 and not np.isfinite(out):
        raise Reject()  # undefined numbers
    return out


def refs(e):
    if e[0] == 'ref':
        return [e]
    return [r for x in e[1:] if isinstance(x, list) for r in refs(x)]


def key(r):
    """Quantities with the same key are evaluated jointly."""
    return (r[3], r[4], r[5])


def dyadic(v):
    v = np.asarray(v, dtype=float) * 1024.
    return bool(np.all(np.isfinite(v)) and np.all(v == np.round(v)) and np.all(np.abs(v) < 2.**24))


def atom(e, table):
    """A quantity or number, so that comparisons are exact."""
    if e[0] == 'neg':
        return atom(e[1], table)
    if e[0] not in ('num', 'ref'):
        return False
    v = np.asarray(float(e[1]) if e[0] == 'num' else table[key(e)][1][e[1]], dtype=float) * 2.**45
    return bool(np.all(v == np.round(v)))


def exact(e, table):
    """Are all steps of the evaluation exact in floating-point arithmetic?"""
    if e[0] == 'num':
        return dyadic(float(e[1]))
    if e[0] == 'ref':
        return dyadic(table[key(e)][1][e[1]])
    if e[0] == 'f':
        return e[1] in EXACT and exact(e[2], table)
    if e[0] == 'neg':
        return exact(e[1], table)
    return e[0] in '+-*' and exact(e[1], table) and exact(e[2], table)


def spec(e, table):
    """Values of e on the product of all groups; table: key -> (prob, {name: values}). Returns (groups, function)."""
    groups = []
    for r in refs(e):
        if key(r) not in groups:
            groups.append(key(r))

    def ev(x):
        if x[0] == 'num':
            return float(x[1])
        if x[0] == 'ref':
            i = groups.index(key(x))
            v = table[key(x)][1][x[1]]
            return v.reshape([-1 if j == i else 1 for j in range(len(groups))])
        if x[0] == 'neg':
            return -ev(x[1])
        if x[0] == 'f':
            with np.errstate(all='ignore'):
                return FUNCS[x[1]](ev(x[2]))
        return apply(x[0], ev(x[1]), ev(x[2]))
    p = 1.
    for i, g in enumerate(groups):
        p = p * (table[g][0] / np.sum(table[g][0])).reshape([-1 if j == i else 1 for j in range(len(groups))])
    return ev, p


def tree(e, table):
    """Evaluation by finding K6: a quantity that is used again after a compound quantity was formed is independent."""
    def ev(x):
        if x[0] == 'num':
            return float(x[1]), None, None
        if x[0] == 'ref':
            p, v = table[key(x)]
            return v[x[1]], p, key(x)
        if x[0] == 'neg':
            v, p, t = ev(x[1])
            return -v, p, t
        if x[0] == 'f':
            v, p, t = ev(x[2])
            with np.errstate(all='ignore'):
                return FUNCS[x[1]](v), p, t
        (v, p, s), (w, q, t) = ev(x[1]), ev(x[2])
        if p is None or q is None:
            return apply(x[0], v, w), (q if p is None else p), (t if p is None else s)
        if s == t and s != 'derived':
            return apply(x[0], v, w), p, s
        if len(v) * len(w) > 200000:
            raise Reject()
        u = apply(x[0], v[:, None], w[None, :]).ravel()
        r = (p[:, None] * q[None, :]).ravel()
        return u, r / np.sum(r), 'derived'
    return ev(e)


OPS = {'>': np.greater, '<': np.less, '>=': np.greater_equal, '<=': np.less_equal, '==': np.equal}


def reuse(e):
    ks = [key(r) for r in refs(e)]
    return len(set(ks)) > 1 and len(ks) > len(set(ks))


def probability(lhs, op, rhs, table, flags):
    whole = ['-', lhs, rhs]
    ks = set(key(r) for r in refs(whole))
    if not ks:
        raise Reject()
    if 'K6' in flags:
        d, p, _ = tree(['+', ['neg', rhs], lhs], table)
        scale = 1. + np.abs(d)
    else:
        if np.prod([len(table[k][0]) for k in ks]) > 200000:
            raise Reject()
        ev, p = spec(whole, table)
        a, b = ev(lhs), ev(rhs)
        d = apply('-', a, b)
        scale = 1. + np.abs(a) + np.abs(b)
    d, p, scale = np.broadcast_arrays(d, p, scale)
    if np.any(np.isnan(d)):
        raise Reject()
    plain = atom(lhs, table) and atom(rhs, table)
    near = np.abs(d) <= 1e-9 * (0. if plain else scale)
    near &= np.isfinite(d)
    if np.any(near):
        if not plain and not exact(whole, table):
            raise Reject()
        d = np.where(near, 0., d)
    return float(np.sum(p[OPS[op](d, 0.)]))


# --------------------------------------------------------------------------------------------------------------- studies

INT_GRIDS = [{'kind': 'cint', 'a': 1., 'b': 4., 'n': 4}, {'kind': 'cint', 'a': 0.5, 'b': 2.5, 'n': 5},
             {'kind': 'cint', 'a': 1., 'b': 3., 'n': 3}, {'vals': [0.5, 1., 2., 4.]}, {'kind': 'oint', 'a': 0., 'b': 4., 'n': 3},
             {'kind': 'cint', 'a': 0.3, 'b': 2.9, 'n': 6}]
NAMES = [['x', 'y'], ['rate', 'rate2'], ['logx', 'x'], ['a', 'ab'], ['mean', 'std'], ['gamma', 'beta'], ['x1', 'expx1'],
         ['accident rate', 'r'], ['absolute', 'ab']]
NAMES2 = [['u', 'v'], ['k', 'k2'], ['logu', 'u']]
HNAMES = [['h1', 'h2'], ['s', 'logs'], ['log10pMin', 'pMin'], ['sigma', 'sigma_2']]
HNAMES2 = [['q1', 'q2'], ['w', 'tanhw']]


WIDE_GRIDS = [{'kind': 'cint', 'a': 1., 'b': 8., 'n': 15}, {'kind': 'cint', 'a': -1., 'b': 2.5, 'n': 8}, {'kind': 'oint', 'a': 0., 'b': 3., 'n': 11},
              {'vals': [0.5, 0.75, 1.25, 2., 2.25, 2.5, 3.25, 4.]}, {'kind': 'cint', 'a': 0., 'b': 5., 'n': 11}]


@st.composite
def studies(draw, names, hnames, grids=INT_GRIDS):
    cls = draw(st.sampled_from(['Study', 'Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy', 'OnlineStudy']))
    names = list(draw(st.sampled_from(names)))
    two = draw(st.booleans())
    names = names if two else names[:draw(st.integers(1, 1))]
    hn = list(draw(st.sampled_from(hnames)))
    gs = [draw(st.sampled_from(grids)) for _ in names]
    if draw(st.integers(0, 7)) == 7:  # tiny values (irregular)
        gs[0] = {'vals': [v * 2.**-40 for v in (1, 2, 3, 5)]}
    size = int(np.prod([len(ref.grid_values(g)) for g in gs]))
    a = draw(st.lists(st.integers(1, 97), min_size=2, max_size=2))
    om = {'om': 'NumPyTable', 'names': names, 'grids': gs, 'prior': None,
          'table': [[((i * (2 * x + 1)) % 23 + 1) / 12. for i in range(size)] for x in a]}
    n = draw(st.sampled_from([2, 3, 4, 4, 1] if cls in ('OnlineStudy', 'Study') else [2, 3, 4, 6] if cls == 'ChangepointStudy' else [2, 3, 4]))
    d = [draw(st.integers(0, 1)) for _ in range(n)]
    ts = None
    if cls != 'OnlineStudy':
        ts = draw(st.sampled_from([None, None, [i + 10 for i in range(n)], [i * 0.5 - 1. for i in range(n)], [i - 1 for i in range(n)],
                                   [1800000 + i for i in range(n)], [1500000000 + 60 * i for i in range(n)], [i * 0.001 for i in range(n)]]))
        if cls == 'Study' and draw(st.integers(0, 5)) == 0:
            ts = draw(st.permutations(list(range(n)) if ts is None else ts))
    tt = list(range(n)) if ts is None else ts
    grw = {'tm': 'GRW', 'names': [hn[0]], 'values': [[0.5, 1., 2.]], 'target': names[0]}
    reg = {'tm': 'Regime', 'names': [hn[1]], 'values': [[-1., -2.]]}
    if cls == 'Study':
        tm = dsl.scalar_tm(grw)
    elif cls == 'HyperStudy':
        tm = {'tm': 'Comb', 'models': [grw, reg]} if draw(st.booleans()) else grw
    elif cls == 'ChangepointStudy':
        tm = {'tm': 'CP', 'names': [hn[0]], 'values': ['all']}
        if draw(st.booleans()) and n > 2:
            tm = {'tm': 'Comb', 'models': [tm, {'tm': 'CP', 'names': [hn[1]], 'values': ['all']}]}
    else:
        tm = [grw] if draw(st.booleans()) else [grw, reg]
    s = {'cls': cls, 'om': om, 'data': d, 'tm': tm, 'history': draw(st.sampled_from([True, False, True]))}
    if ts is not None:
        s['ts'] = ts
    s['times'] = tt
    return s


def make(s):
    if s['cls'] == 'OnlineStudy':
        S = dsl.online(s['om'], [('m{}'.format(i), t) for i, t in enumerate(s['tm'])], s['history'])
        for x in s['data']:
            dsl.step(S, x)
        return S
    return dsl.study(s, s['cls'], fit={})


def quantities(i, s, t=None):
    """What can be referred to: (name, time text, study, time key, kind)."""
    out = []
    on = s['cls'] == 'OnlineStudy'
    for n in s['om']['names']:
        if t is not None:
            out.append(['ref', n, None, i, t, 'p'])
        elif on and not s['history']:
            out.append(['ref', n, None, i, s['times'][-1], 'p'])
        else:
            out += [['ref', n, repr(x), i, x, 'p'] for x in s['times']]
    if s['cls'] in ('HyperStudy', 'ChangepointStudy'):
        out += [['ref', n, None, i, None, 'h'] for n, _, _ in ref.flat_hypers(s['tm'])]
    elif on:
        for j, tm in enumerate(s['tm']):
            for n, _, _ in ref.flat_hypers(tm):
                kind = 'h{}'.format(j)
                if t is not None:
                    out.append(['ref', n, None, i, t, kind])
                elif not s['history']:
                    out.append(['ref', n, None, i, s['times'][-1], kind])
                else:
                    out += [['ref', n, repr(x), i, x, kind] for x in s['times']]
    return out


def tables(S, i, s, t=None):
    """key -> (probabilities, {name: values}) from the results of the study."""
    out = {}
    names = s['om']['names']
    margs = [ref.grid_values(g) for g in s['om']['grids']]
    grid = np.meshgrid(*margs, indexing='ij')
    vals = {n: g.ravel() for n, g in zip(names, grid)}
    on = s['cls'] == 'OnlineStudy'
    if on and not s['history']:
        out[(i, s['times'][-1], 'p')] = (np.array(S.marginalizedPosterior).ravel(), vals)
    else:
        for x, post in zip(s['times'], S.posteriorSequence):
            out[(i, x, 'p')] = (np.array(post).ravel(), vals)
    if s['cls'] in ('HyperStudy', 'ChangepointStudy'):
        hyp = ref.flat_hypers(s['tm'])
        hv = [s['times'][:-1] if v == 'all' else v for _, v, _ in hyp]
        combos = list(itertools.product(*hv))
        p = np.array(S.hyperParameterDistribution).ravel()
        if len(p) != len(combos):
            raise Violation('size of the hyper-parameter distribution')
        out[(i, None, 'h')] = (p / np.sum(p), {n: np.array([c[j] for c in combos], dtype=float) for j, (n, _, _) in enumerate(hyp)})
    elif on:
        for j, tm in enumerate(s['tm']):
            hyp = ref.flat_hypers(tm)
            combos = list(itertools.product(*[v for _, v, _ in hyp]))
            hv = {n: np.array([c[b] for c in combos], dtype=float) for b, (n, _, _) in enumerate(hyp)}
            seq = [(x, h[j]) for x, h in zip(s['times'], S.hyperParameterSequence)] if s['history'] else \
                [(s['times'][-1], S.hyperParameterDistribution[j])]
            for x, p in seq:
                out[(i, x, 'h{}'.format(j))] = (np.array(p) / np.sum(p), hv)
    return out


def clash(e):
    """Hyper-parameters of different models of one on-line study are not combined."""
    ks = set(key(r) for r in refs(e))
    hs = [k for k in ks if k[2] not in ('p',)]
    return any(a[0] == b[0] and a[2] != b[2] for a in hs for b in hs)


NUMS = ['1.5e-12', '0', '1', '2', '3', '0.5', '1.25', '-1', '-2', '2.', '1e1', '5E-1', '+2', '0.75', '10']


@st.composite
def exprs(draw, q, depth):
    k = draw(st.integers(0, 9)) if depth > 0 else draw(st.sampled_from([0, 0, 1]))
    if k == 0:
        return list(draw(st.sampled_from(q)))
    if k == 1:
        return ['num', draw(st.sampled_from(NUMS))]
    if k == 2:
        return ['neg', draw(exprs(q, depth - 1))]
    if k == 3:
        return ['f', draw(st.sampled_from(sorted(FUNCS))), draw(exprs(q, depth - 1))]
    if k == 4:
        right = ['num', draw(st.sampled_from(['2', '3', '-1', '0.5', '1']))]
        if draw(st.integers(0, 3)) == 0:  # right associative
            right = ['^', draw(st.sampled_from([['num', '2'], ['num', '0.5']] + q)), right]
        return ['^', draw(exprs(q, depth - 1)), right]
    if k == 5:
        return [draw(st.sampled_from('*/')), draw(exprs(q, depth - 1)), draw(exprs(q, depth - 1))]
    return [draw(st.sampled_from('+-*/+-')), draw(exprs(q, depth - 1)), draw(exprs(q, depth - 1))]


@st.composite
def s_query(draw, two=False, relation=True, depth=3, uset=False):
    ss = [draw(studies(NAMES, HNAMES, INT_GRIDS if relation else INT_GRIDS + WIDE_GRIDS))]
    if two:
        ss.append(draw(studies(NAMES2, HNAMES2)))
        if draw(st.booleans()):  # the second study comes first
            ss = ss[::-1]
    if two and uset:  # overlapping time stamps, at different positions
        for s in ss:
            n = len(s['data'])
            if s['cls'] == 'OnlineStudy':
                s['history'] = True
            else:
                s['ts'] = s['times'] = draw(st.sampled_from([[i - 1 for i in range(n)], [i + 1 for i in range(n)], [i * 0.5 for i in range(n)],
                                                             list(range(n))]))
    t = None
    if uset and all(s['cls'] != 'OnlineStudy' or s['history'] for s in ss):
        common = [x for x in ss[0]['times'] if all(x in s['times'] for s in ss)]
        if common:
            t = draw(st.sampled_from(common))
    q = [x for i, s in enumerate(ss) for x in quantities(i, s, t)]
    # few quantities, so that they are re-used
    plan = draw(st.sampled_from(['any', 'times', 'hyper', 'hyper', 'mixed']))
    first = draw(st.sampled_from([x for x in q if x[5] != 'p'] or q)) if plan in ('hyper', 'mixed') else draw(st.sampled_from(q))
    if plan in ('times', 'hyper'):  # also the same quantity at other times
        more = [x for x in q if x[1] == first[1] and x != first] or q
    elif plan == 'mixed':
        more = [x for x in q if x[5] == 'p']
    else:
        more = q
    q = [first] + draw(st.lists(st.sampled_from(more), min_size=plan != 'any', max_size=2)) + ([draw(st.sampled_from(q))] if draw(st.booleans()) else [])
    c = {'studies': ss, 'queries': [], 't': t}
    for _ in range(7):
        e = draw(exprs(q, depth))
        qq = {'lhs': e, 'style': draw(st.integers(0, 3))}
        if len(q) > 1 and draw(st.integers(0, 2)) == 0:
            qq['lhs'] = draw(st.sampled_from([q[0], [draw(st.sampled_from('+-*')), q[0], q[1]]]))
        elif not relation and draw(st.integers(0, 5)) == 0:  # may be undefined for some values
            qq['lhs'] = ['f', draw(st.sampled_from(['log', 'log10', 'sqrt', 'gammaln'])), q[0]]
            if draw(st.booleans()):
                qq['lhs'] = ['neg', qq['lhs']]
        if relation:
            qq['op'] = draw(st.sampled_from(sorted(OPS)))
            qq['rhs'] = draw(st.one_of(st.sampled_from(NUMS).map(lambda x: ['num', x]), st.sampled_from(q), exprs(q, 2)))
            if draw(st.integers(0, 4)) == 0:
                qq['lhs'], qq['rhs'] = qq['rhs'], qq['lhs']
        c['queries'].append(qq)
    return c


def text(q):
    s = render(q['lhs'], q['style'])
    if 'op' in q:
        pad = ' ' if q['style'] & 1 else ''
        s += pad + q['op'] + pad + render(q['rhs'], q['style'])
    return s


def loud(q):
    return {} if q['style'] == 1 else {'silent': True}


def depth(s):
    d = m = 0
    for c in s:
        d += (c == '(') - (c == ')')
        m = max(m, d)
    return m


def prepare(case):
    S = [make(s) for s in case['studies']]
    for s, x in zip(case['studies'], S):
        if not np.isfinite(x.logEvidence):
            raise Reject()
    table = {}
    for i, (s, x) in enumerate(zip(case['studies'], S)):
        table.update(tables(x, i, s))
    return S, table


def fresh(S):
    out = []
    for s in S:
        out.append([np.array(s.posteriorSequence, dtype=float).copy(), float(s.logEvidence),
                    [np.array(x).copy() for x in s.hyperParameterDistribution] if getattr(s, 'hyperParameterDistribution', None) is not None else []])
    return out


def same(a, b):
    for x, y in zip(a, b):
        check_close(x[0], y[0], 'posterior sequence after query', 0, 0)
        check(x[1] == y[1], 'log-evidence after query')
        if x[2]:
            for u, v in zip(x[2], y[2]):
                check_close(u, v, 'hyper-parameter distribution after query', 0, 0)


def body_relation(case, ctx):
    S, table = prepare(case)
    b = dsl.bl()
    with dsl.hush():
        P = b.Parser(*S)
    before = fresh(S)
    done = []
    for q in case['queries']:
        whole = ['-', q['lhs'], q['rhs']]
        if not refs(whole) or clash(whole):
            continue
        s = text(q)
        if depth(s) > 4:
            continue  # parsing takes long
        try:
            want = probability(q['lhs'], q['op'], q['rhs'], table, ())
            if reuse(whole):
                probability(q['lhs'], q['op'], q['rhs'], table, ('K6',))
        except Reject:
            continue
        with dsl.hush():
            got = P(s, t=case['t'], **loud(q)) if case['t'] is not None else P(s, **loud(q))

        def compare(flags):
            w = probability(q['lhs'], q['op'], q['rhs'], table, flags)
            check_close(float(got), w, 'P({}){}'.format(s, '' if case['t'] is None else ' at t={}'.format(case['t'])), 1e-6, 1e-9)
        match(['K6'] if reuse(whole) else [], compare, ctx)
        done.append((s, float(got)))
        ctx.label('{} groups'.format(len(set(key(r) for r in refs(whole)))), q['op'])
        if 1e-6 < want < 1 - 1e-6:
            ctx.nontrivial()
    for i, (s, v) in enumerate(done):
        with dsl.hush():
            got = P(s, t=case['t'], silent=True) if case['t'] is not None else P(s, silent=True)
            check(float(got) == v, 'repeated query {} yields another result'.format(s))
            if len(S) == 1 and i == 0 and len(s) % 3 == 0:
                check(float(S[0].eval(s, t=case['t'], silent=True)) == v, 'eval({}) differs from Parser'.format(s))
    same(before, fresh(S))
    if not done:
        raise Reject()


def body_distribution(case, ctx):
    S, table = prepare(case)
    b = dsl.bl()
    with dsl.hush():
        P = b.Parser(*S)
    before = fresh(S)
    n = 0
    for q in case['queries']:
        e = q['lhs']
        if not refs(e) or clash(e) or reuse(e):
            continue
        ks = set(key(r) for r in refs(e))
        if np.prod([len(table[k][0]) for k in ks]) > 50000:
            continue
        ev, p = spec(e, table)
        try:
            v = np.asarray(ev(e), dtype=float)
        except Reject:
            continue
        v, p = [x.ravel() for x in np.broadcast_arrays(v, p)]
        defined = np.isfinite(v)
        if np.sum(defined) < 1:
            continue
        v, p = v[defined], p[defined]  # values that are not defined are not part of the distribution
        u = np.sort(v)
        gap = np.max(np.diff(u)) if len(u) > 1 else 0.
        if 0 < gap <= 1e-6 or (u[-1] - u[0]) > 1e6:
            continue
        few = u[-1] - u[0] < 3.01 * gap or gap == 0.  # there is only one bin
        s = text(q)
        if depth(s) > 4:
            continue
        with dsl.hush():
            x, w = P(s, t=case['t'], **loud(q)) if case['t'] is not None else P(s, **loud(q))
        x, w = np.array(x), np.array(w)
        check(len(x) == len(w) and len(x) >= (1 if few else 2), 'length of derived distribution')
        check_close(np.sum(w), np.sum(p), 'normalisation of the distribution of {}'.format(s))
        h = x[1] - x[0] if len(x) > 1 else u[-1] - u[0]
        if few:
            ctx.label('few values')
        check_close(np.diff(x), np.full(len(x) - 1, h), 'bins of the distribution of {} are regular'.format(s), 1e-6, 1e-9)
        check_close(x[0] - h / 2, u[0], 'lower boundary of the distribution of {}'.format(s), 1e-6, 1e-8)
        check_close(x[-1] + h / 2, u[-1], 'upper boundary of the distribution of {}'.format(s), 1e-6, 1e-8)
        cum = np.cumsum(w)
        eps = 1e-9 * (1. + np.max(np.abs(u)))
        for i in range(len(x) - 1):
            edge = x[i] + h / 2
            lo, hi = np.sum(p[v < edge - eps]), np.sum(p[v < edge + eps])
            check(lo - 1e-9 <= cum[i] <= hi + 1e-9, 'distribution of {}: probability below {} is {}, expected {} to {}'
                  .format(s, edge, cum[i], lo, hi))
        check(abs(np.sum(x * w) - np.sum(v * p)) <= h / 2 + eps, 'mean of the distribution of ' + s)
        ctx.label('{} groups'.format(len(ks)), case['studies'][0]['cls'], *([] if np.all(defined) else ['undefined values']))
        n += 1
    same(before, fresh(S))
    if not n:
        raise Reject()
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------------- invalid queries

BAD = ['{r} >', '> 1', '{r} > 1 > 2', '{r} = 1', 'nosuch > 1', '{r} + > 1', '({r} > 1', '{r}) > 1', '{r} 2 > 1', '{r} ** 2 > 1',
       '{r} && 1', '{r} > 1 < 3', '', '{r} > abc', 'nosuchfunc({r}) > 1', '{r} 1 + 2', '{r} > 1 2', '{r} $ 2 > 0', '{r} > 1..2']


def body_invalid(case, ctx):
    S, table = prepare(case)
    b = dsl.bl()
    with dsl.hush():
        P = b.Parser(*S)
    q = case['queries'][0]
    rs = refs(['-', q['lhs'], q['rhs']])
    if not rs:
        raise Reject()
    r = rs[0]
    before = fresh(S)
    s = BAD[case['bad'] % len(BAD)].format(r=render(r, 0))
    fine = []
    # valid query before and after
    good = ['ref'] + r[1:]
    med = float(np.median(table[key(r)][1][r[1]])) + 1e-3
    valid = '{} > {!r}'.format(render(good, 0), round(med, 6))
    want = probability(good, '>', ['num', repr(round(med, 6))], table, ())
    for i in range(2):
        with dsl.hush():
            check_close(float(P(valid, t=case['t'], silent=True)), want, 'query {}{}'.format(valid, ' after invalid query' if i else ''),
                        1e-6, 1e-9)
        if i == 0:
            try:
                with dsl.hush():
                    v = P(s, t=case['t'], silent=True)
            except Exception:
                fine.append(1)
            else:
                raise Violation('invalid query "{}" returns {!r}'.format(s, v))
    if r[2] is not None:
        for wrong in ('{}@{} > 1'.format(r[1], max(case['studies'][r[3]]['times']) + 1), '{} + 1 > 1'.format(r[1])):
            try:
                with dsl.hush():
                    v = P(wrong, silent=True)
            except Exception:
                continue
            raise Violation('query "{}" with wrong or missing time returns {!r}'.format(wrong, v))
    same(before, fresh(S))
    ctx.label(BAD[case['bad'] % len(BAD)])
    ctx.nontrivial()


@st.composite
def s_invalid(draw):
    c = draw(s_query(depth=1))
    c['bad'] = draw(st.integers(0, len(BAD) - 1))
    return c


TESTS = [
    Test('relation', s_query, body_relation, 600, 12000, 'probability strictly between 0 and 1'),
    Test('joint-t', lambda: s_query(uset=True), body_relation, 200, 5000, 'probability strictly between 0 and 1'),
    Test('two-studies', lambda: s_query(two=True), body_relation, 200, 5000, 'probability strictly between 0 and 1'),
    Test('two-t', lambda: s_query(two=True, uset=True), body_relation, 250, 5000, 'probability strictly between 0 and 1'),
    Test('distribution', lambda: s_query(relation=False, depth=2), body_distribution, 450, 6000, 'derived quantity has a regular histogram'),
    Test('invalid', s_invalid, body_invalid, 250, 3000, 'every case'),
]


def probe_k6():
    s = {'cls': 'Study', 'om': {'om': 'NumPyTable', 'names': ['x'], 'grids': [INT_GRIDS[0]], 'prior': None,
                                'table': [[1., 2., 3., 1.], [3., 1., 1., 2.]]},
         'data': [0, 1, 0], 'tm': {'tm': 'GRW', 'names': ['h'], 'values': [1.], 'target': 'x'}, 'times': [0, 1, 2], 'history': False}
    S = make(s)
    r = lambda t: ['ref', 'x', repr(t), 0, t, 'p']
    e = ['+', ['-', r(0), r(1)], r(0)]
    want = probability(e, '>', ['num', '1'], tables(S, 0, s), ())
    with dsl.hush():
        got = S.eval('x@0 - x@1 + x@0 > 1', silent=True)
    return abs(float(got) - want) > 1e-6


KNOWN = {'K6': probe_k6}
