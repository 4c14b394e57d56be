"""C22: plots show what the queries report."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c08, c10, c11
from vf.checks.c12 import plt, expect_error
from vf.checks.c13 import simple_points
from vf.common import Spelled, check, check_close, hyper_ok
from vf.core import Test, Reject, Violation


def same_set(got, want, what):
    """Two sets of points in the plane are the same (up to rounding)."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    got, want = got[np.all(np.isfinite(got), axis=1)], want[np.all(np.isfinite(want), axis=1)]
    scale = np.maximum(np.max(np.abs(want), axis=0), 1e-300)
    d = np.max(np.abs(got[:, None, :] - want[None, :, :]) / scale, axis=2)
    check(len(got) and np.max(np.min(d, axis=1)) < 1e-6, '{}: drawn points are not those reported: {}'.format(what, got.tolist()[:12]))
    check(np.max(np.min(d, axis=0)) < 1e-6, '{}: reported points are not drawn: {}'.format(what, got.tolist()[:12]))


def area(ax, x, p, what):
    """The area between zero and p."""
    check(len(ax.collections) == 1, what + ': one area is drawn')
    v = np.concatenate([q.vertices for q in ax.collections[0].get_paths()])
    o = [0.] * len(x)
    same_set(v, list(zip(x, p)) + list(zip(x, o)), what)
    # the upper boundary connects neighbouring values
    up = {}
    for a, b in v:
        k = int(np.argmin(np.abs(np.array(x) - a)))
        up[k] = max(up.get(k, 0.), b)
    check_close([up[k] for k in range(len(x))], p, what, 1e-6, 1e-9)


def image(ax, x, ts, p, gamma, what, bounds=True):
    """A map of probabilities: columns are time steps, rows parameter values from bottom to top."""
    check(len(ax.images) == 1, what + ': one image is drawn')
    im = ax.images[0]
    A = np.array(im.get_array(), dtype=float)
    e = im.get_extent()
    if im.origin == 'upper':
        A = A[::-1]
    check(A.shape == p.T.shape, '{}: shape of image {}'.format(what, A.shape))
    q = np.where(p < np.max(p) * 1e-20, 0., p).T ** gamma
    check_close(A / np.max(A), q / np.max(q), what + ': image', 1e-6, 1e-9)
    if ts[0] != ts[-1]:
        check_close(e[:2], [ts[0], ts[-1]], what + ': time range')
    if x[0] != x[-1]:
        check_close(e[2:], [x[0], x[-1]], what + ': range of values')


def line(ax, x, y, what):
    check(len(ax.lines) == 1, what + ': one line is drawn')
    check_close(np.array(ax.lines[0].get_xdata(), dtype=float), np.array(x, dtype=float), what + ': times')
    check_close(np.array(ax.lines[0].get_ydata(), dtype=float), np.array(y, dtype=float), what + ': values', 1e-9, 1e-12)


def regular(x):
    return len(x) < 3 or np.ptp(np.diff(x)) <= 1e-6 * np.max(np.abs(np.diff(x)))


def clear(x):
    """Whether it is beyond doubt if values are equally spaced."""
    d = np.diff(x)
    return regular(x) and (len(x) < 3 or np.ptp(d) <= 1e-11) or np.ptp(d) > 1e-6


def bars(ax, x, p, what, width=True):
    rec = [(r.get_x() + r.get_width() / 2., r.get_height(), r.get_width(), r.get_y()) for r in ax.patches]
    check(len(rec) == len(x), '{}: number of bars'.format(what))
    check_close([r[3] for r in rec], [0.] * len(x), what + ': bars start at zero')
    if regular(x):
        order = np.argsort(x)
        rec.sort()
        check_close([r[0] for r in rec], np.array(x)[order], what + ': positions of bars', 1e-6, 1e-9)
        check_close([r[1] for r in rec], np.array(p)[order], what + ': heights of bars')
        if width and len(x) > 1:
            check_close([r[2] for r in rec], [abs(x[1] - x[0])] * len(x), what + ': widths of bars')
    else:  # categorical
        rec.sort()
        check_close([r[1] for r in rec], p, what + ': heights of bars')
        check_close([r[0] for r in rec], np.arange(len(x)), what + ': positions of bars')
        ticks(ax.xaxis, x, what)


def ticks(axis, x, what):
    loc = [float(v) for v in axis.get_ticklocs()]
    lab = [t.get_text() for t in axis.get_ticklabels()]
    check_close(loc, np.arange(len(x)), what + ': positions of labels')
    try:
        got = [float(s.replace(u'\u2212', '-')) for s in lab]
    except ValueError:
        raise Violation('{}: labels {}'.format(what, lab))
    check_close(got, x, what + ': labels', 1e-6, 1e-9)


def labels(ax, x, y, what):
    if x is not None:
        check(ax.get_xlabel() == x, '{}: label of the x-axis is "{}" instead of "{}"'.format(what, ax.get_xlabel(), x))
    if y is not None:
        check(ax.get_ylabel() == y, '{}: label of the y-axis is "{}" instead of "{}"'.format(what, ax.get_ylabel(), y))


def colors(im, color):
    """Colour maps lead from white to the given colour."""
    import matplotlib.colors as mc
    c = np.array(mc.to_rgb(color))
    lo, hi = np.array(im.get_cmap()(0.)[:3]), np.array(im.get_cmap()(1.)[:3])
    check(np.min(lo) > 0.9, 'colour of smallest value')
    check(np.max(np.abs(hi - c)) < 0.15, 'colour of largest value')


class Undrawn(Spelled):
    """A study; queries without plot=True must not draw anything."""

    def __getattr__(self, name):
        f = Spelled.__getattr__(self, name)
        if not name.startswith('get'):
            return f

        def call(*a, **kw):
            if kw.get('plot'):
                return f(*a, **kw)
            P = plt()
            seen = lambda: [(k, len(P.figure(k).axes), sum(len(x.get_children()) for x in P.figure(k).axes)) for k in P.get_fignums()]
            cur, before = P.gcf().number, seen()
            out = f(*a, **kw)
            after = seen()
            P.figure(cur)
            check(before == after, '{} without plot=True draws'.format(name))
            return out
        return call


class Bars3d(object):
    """Records what is drawn with bar3d."""

    def __enter__(self):
        from mpl_toolkits.mplot3d import Axes3D
        self.orig, self.calls = Axes3D.bar3d, []

        def bar3d(ax, x, y, z, dx, dy, dz, *a, **kw):
            n = np.size(x)
            self.calls.append([np.broadcast_to(np.asarray(v, dtype=float), (n,)).copy() for v in (x, y, z, dx, dy, dz)])
            return self.orig(ax, x, y, z, dx, dy, dz, *a, **kw)
        Axes3D.bar3d = bar3d
        return self

    def __exit__(self, *e):
        from mpl_toolkits.mplot3d import Axes3D
        Axes3D.bar3d = self.orig


def evolution(S, P, name, ts, x, p, means, op, what, call=None):
    kw = {}
    gamma = [0.5, 1., 0.3, 2.][op[2] % 4]
    color = [None, 'r', '#1080f0', '0.3'][op[1] % 4]
    if gamma != 0.5:
        kw['gamma'] = gamma
    if color:
        kw['color'] = color
    if op[3] == 1:
        kw['lw'] = 3.
    elif op[3] == 2:
        kw['c'] = 'm'
    (call or S.plot)(name, **kw)
    ax = P.gca()
    image(ax, x, ts, p, gamma, what)
    colors(ax.images[0], color or 'b')
    line(ax, ts, means, what + ': mean values')
    if op[3] == 1:
        check(ax.lines[0].get_linewidth() == 3., what + ': line width is passed on')
    elif op[3] == 2:
        import matplotlib.colors as mc
        check(mc.to_rgb(ax.lines[0].get_color()) == mc.to_rgb('m'), what + ': colour is passed on')
    if x[0] != x[-1]:
        check_close(ax.get_ylim(), [x[0], x[-1]], what + ': visible range')
    labels(ax, None, name, what)


def batch_ops(S, P, case, op, ctx):
    kind = op[0]
    names = case['om']['names']
    ts = [float(t) for t in S.formattedTimestamps]
    name = names[op[1] % len(names)]
    t = S.formattedTimestamps[op[2] % len(ts)]
    hyp = [n for n, _, _ in ref.flat_hypers(case['tm'])] if case['cls'] != 'Study' else []
    combos = len(getattr(S, 'hyperGridValues', []))
    if kind in ('hpd', 'jhpd', 'dd') and (not hyp or combos < 2):
        kind = 'at'
    if kind == 'jhpd' and len(hyp) < 2:
        kind = 'hpd'
    if kind == 'dd' and (case['cls'] != 'ChangepointStudy' or len(c10.points(case['tm'])) < 2):
        kind = 'hpd'
    if kind in ('at', 'avg'):
        key = 'avg' if kind == 'avg' else t
        dens = op[3] != 1
        x, p = S.getPD(key, name, density=dens)
        if op[3] == 2:
            y, q = S.getPD(key, name, plot=True, density=dens)
            check_close(q, p, 'getPD with and without plot', 0, 0)
        else:
            S.plot(name, t=key, **({} if dens else {'density': False}))
        area(P.gca(), x, p, 'plot of {} at time {}'.format(name, key))
        labels(P.gca(), name, 'probability density' if dens else 'probability', 'plot of ' + name)
    elif kind == 'evo':
        x, p = S.getPDs(name, density=False)
        evolution(S, P, name, ts, x, p, S.getParameterMeanValues(name), op, 'plot of ' + name,
                  S.plotParameterEvolution if op[2] % 5 >= 3 else None)
    elif kind == 'pds':
        dens = op[3] != 1
        x, p = S.getPDs(name, density=dens)
        col = ['b', 'g', 'r'][op[2] % 3]
        y, q = S.getPDs(name, plot=True, density=dens, **({} if col == 'b' else {'c' if op[3] == 2 else 'color': col}))
        check_close(q, p, 'getPDs with and without plot', 0, 0)
        image(P.gca(), x, ts, p, 1., 'plot of the distributions of ' + name)
        colors(P.gca().images[0], col)
    elif kind == 'hpd':
        h = hyp[op[1] % len(hyp)]
        x, p = S.getHPD(h)
        if not clear(x):
            return
        if op[3] == 1:
            y, q = S.getHPD(h, plot=True)
            check_close(q, p, 'getHPD with and without plot', 0, 0)
        else:
            S.plot(h)
        bars(P.gca(), x, p, 'plot of ' + h)
        labels(P.gca(), h, 'probability', 'plot of ' + h)
        ctx.label('categorical' if not regular(x) else 'regular')
    elif kind == 'jhpd':
        i = op[1] % len(hyp)
        j = (i + 1 + op[2] % (len(hyp) - 1)) % len(hyp)
        pair = [hyp[i], hyp[j]]
        v = {}
        v[pair[0]], v[pair[1]], p = S.getJHPD(pair)
        if not (clear(v[pair[0]]) and clear(v[pair[1]])):
            return
        with Bars3d() as rec:
            if op[3] == 1:
                fig = P.figure()
                S.getJHPD(pair, plot=True, figure=fig, subplot=121)
                check(len(fig.axes) == 1, 'plot in the given figure')
            else:
                u, w, q = S.getJHPD(pair, plot=True)
                check_close(q, p, 'getJHPD with and without plot', 0, 0)
        check(len(rec.calls) == 1, 'one 3D bar chart is drawn')
        ax = P.gca()
        a, b = ax.get_xlabel(), ax.get_ylabel()
        check(sorted([a, b]) == sorted(pair) and ax.get_zlabel() == 'probability', 'labels of the joint distribution: {}, {}'.format(a, b))
        if [a, b] != pair:
            p = p.T
        x, y, z, dx, dy, dz = rec.calls[0]
        check_close(z, 0. * z, 'bars start at zero')
        X = v[a] if regular(v[a]) else np.arange(len(v[a]))
        Y = v[b] if regular(v[b]) else np.arange(len(v[b]))
        u, w = [np.max(np.abs(z)) or 1. for z in (X, Y)]
        got = sorted(zip(np.round((x + dx / 2.) / u, 7) + 0., np.round((y + dy / 2.) / w, 7) + 0., dz))
        want = sorted((round(float(X[k]) / u, 7) + 0., round(float(Y[l]) / w, 7) + 0., p[k, l]) for k in range(len(X)) for l in range(len(Y)))
        check_close(np.array(got), np.array(want), 'bars of the joint distribution of {} and {}'.format(a, b), 1e-6, 2e-7)
        for c, d, axis in ((a, dx, ax.xaxis), (b, dy, ax.yaxis)):
            if len(v[c]) > 1:
                check_close(d, 0. * d + (abs(v[c][1] - v[c][0]) if regular(v[c]) else 1.), 'widths of bars', 1e-6, 1e-9)
            if not regular(v[c]):
                ticks(axis, v[c], 'joint distribution')
    elif kind == 'dd':
        pts = c10.points(case['tm'])
        i = op[1] % len(pts)
        j = (i + 1 + op[2] % (len(pts) - 1)) % len(pts)
        x, p = S.getDD([pts[i], pts[j]])
        y, q = S.getDD([pts[i], pts[j]], plot=True)
        check_close(q, p, 'getDD with and without plot', 0, 0)
        rec = sorted((r.get_x() + r.get_width() / 2., r.get_height()) for r in P.gca().patches)
        check_close(np.array(rec), np.array(sorted(zip(x, p))), 'bars of the duration distribution')
        lab = P.gca().get_xlabel()
        check(pts[i] in lab and pts[j] in lab, 'label of the duration distribution: ' + lab)
        labels(P.gca(), None, 'probability', 'duration distribution')
    elif kind == 'bad':
        what = op[2] % 6
        if what == 4:
            expect_error(lambda: S.plotParameterEvolution('nosuch'), 'plot of an unknown parameter')
        elif what == 5:
            expect_error(lambda: S.plotParameterEvolution(hyp[0] if hyp else name + 'x'), 'plot of an unknown parameter')
        elif what == 0:
            expect_error(lambda: S.plot('nosuch'), 'plot of an unknown name')
        elif what == 1:
            expect_error(lambda: S.plot(name, t=ts[-1] + 1000), 'plot for an unknown time')
        elif what == 2:
            expect_error(lambda: S.plot('nosuch', t=t), 'plot of an unknown name at a time step')
        elif hyp and combos > 1:
            expect_error(lambda: S.getJHPD([hyp[0], 'nosuch'], plot=True), 'joint distribution of an unknown name')
    ctx.label(kind)


def state(S):
    out = [np.array(S.posteriorSequence, dtype=float).copy(), np.array(S.posteriorMeanValues, dtype=float).copy(),
           np.array(S.formattedTimestamps, dtype=float).copy()]
    h = getattr(S, 'hyperParameterDistribution', None)
    if h is not None:
        out += [np.array(v, dtype=float).copy() for v in ([h] if isinstance(h, np.ndarray) else h)]
    return out


def same_state(a, b):
    check(len(a) == len(b), 'results after plotting')
    for x, y in zip(a, b):
        check_close(x, y, 'results after plotting', 0, 0)


def body_batch(case, ctx):
    if case.get('skip'):
        raise Reject()
    if case['cls'] == 'Study':
        case['tm'] = dsl.scalar_tm(case['tm'])
    elif case['cls'] == 'HyperStudy' and not hyper_ok(case['tm']):
        raise Reject()
    elif case['cls'] == 'ChangepointStudy':
        if c10.size(case) > 60 or not c10.first_values(case['tm']):
            raise Reject()
        hyp = ref.flat_hypers(case['tm'])
        ts = dsl.seg_ts(case['om'], len(case['data']), case.get('ts'))[:-1]
        vals = [ts if v == 'all' else v if isinstance(v, list) else [v] for _, v, _ in hyp]
        ok = c10.make_valid(c10.points(case['tm']))
        if not any(ok([n for n, _, _ in hyp], x) for x in itertools.product(*vals)):
            raise Reject()
    if case['cls'] == 'HyperStudy' and int(np.prod([len(v) if isinstance(v, list) else 1 for _, v, _ in ref.flat_hypers(case['tm'])])) > 20:
        raise Reject()
    S = dsl.study(case, case['cls'], fit={} if case['mode'] == 'full' else dict(forwardOnly=True))
    if not np.isfinite(S.logEvidence):
        raise Reject()
    before = state(S)
    P = plt()
    for op in case['ops']:
        try:
            with dsl.hush():
                P.figure()
                batch_ops(Undrawn(S, op[1] + op[2]), P, case, op, ctx)
        finally:
            P.close('all')
    same_state(state(S), before)
    ctx.label(case['cls'])
    ctx.nontrivial(len(S.formattedTimestamps) > 1)


def online_ops(S, P, case, op, tnames, ctx):
    kind = op[0]
    names = case['om']['names']
    name = names[op[1] % len(names)]
    ts = [float(t) for t in S.formattedTimestamps]
    hyp = [n for tm in case['tms'] for n, _, _ in ref.flat_hypers(tm)]
    hist = case['history']
    if kind == 'hpd' and not hyp:
        kind = 'at'
    dens = op[3] != 1
    if not hist:
        if kind == 'hpd':
            h = hyp[op[1] % len(hyp)]
            x, p = S.getCHPD(h)
            if not clear(x):
                return
            if op[3] == 2:
                S.getCHPD(h, plot=True)
            else:
                S.plot(h)
            bars(P.gca(), x, p, 'plot of current distribution of ' + h)
            labels(P.gca(), h, 'probability', 'plot of ' + h)
        elif kind == 'at':
            x, p = S.getCPD(name, density=dens)
            if op[3] == 2:
                S.getCPD(name, plot=True)
            else:
                S.plot(name, **({} if dens else {'density': False}))
            area(P.gca(), x, p, 'plot of current distribution of ' + name)
            labels(P.gca(), name, 'probability density' if dens else 'probability', 'plot of ' + name)
        else:
            what, f = [('plot', lambda: S.plot(name, t=ts[-1] if ts else 0)),
                       ('plot of parameter evolution', lambda: S.plotParameterEvolution(name)),
                       ('plot of hyper-parameter evolution', lambda: S.plotHyperParameterEvolution(hyp[0] if hyp else 'nosuch')),
                       ('plot of the time average', lambda: S.plot(name, t='avg'))][op[2] % 4]
            expect_error(f, what + ' of the past without stored history')
        ctx.label('current ' + kind)
        return
    t = S.formattedTimestamps[op[2] % len(ts)]
    if kind in ('at', 'avg'):
        key = 'avg' if kind == 'avg' else t
        x, p = S.getPD(key, name, density=dens)
        if op[3] == 2:
            S.getPD(key, name, plot=True)
        else:
            S.plot(name, t=key, **({} if dens else {'density': False}))
        area(P.gca(), x, p, 'plot of {} at time {}'.format(name, key))
        labels(P.gca(), name, 'probability density' if dens else 'probability', 'plot of ' + name)
    elif kind == 'evo':
        x, p = S.getPDs(name, density=False)
        evolution(S, P, name, ts, x, p, S.getParameterMeanValues(name), op, 'plot of ' + name,
                  S.plotParameterEvolution if op[2] % 5 >= 3 else None)
    elif kind == 'pds':
        x, p = S.getPDs(name, density=dens)
        S.getPDs(name, plot=True, density=dens)
        image(P.gca(), x, ts, p, 1., 'plot of the distributions of ' + name)
    elif kind == 'hpd':
        h = hyp[op[1] % len(hyp)]
        how = op[2] % 3
        if how == 0:
            x, p = S.getHPDs(h)
            evolution(S, P, h, ts, x, np.array(p), S.getHyperParameterMeanValues(h), op, 'plot of ' + h,
                      S.plotHyperParameterEvolution if op[2] % 5 >= 3 else None)
        else:
            key = 'avg' if how == 2 and op[3] == 2 else t
            x, p = S.getHPD(key, h)
            if not clear(x):
                return
            if how == 2:
                S.getHPD(key, h, plot=True)
            else:
                S.plot(h, t=key)
            bars(P.gca(), x, p, 'plot of {} at time {}'.format(h, key))
            labels(P.gca(), h, 'probability', 'plot of ' + h)
    elif kind == 'cur':
        x, p = S.getCPD(name, density=dens)
        S.getCPD(name, density=dens, plot=True)
        area(P.gca(), x, p, 'plot of current distribution of ' + name)
    elif kind == 'tm':
        m = tnames[op[1] % len(tnames)]
        local = bool(op[3] % 2)
        S.plot(m, **({'local': True} if local else {}))
        line(P.gca(), ts, S.getTMPs(m, local=local), 'probability of transition model ' + m)
    elif kind == 'bad':
        expect_error(lambda: S.plot('nosuch'), 'plot of an unknown name')
        expect_error(lambda: S.plot(name, t=ts[-1] + 1000), 'plot for an unknown time')
        expect_error(lambda: S.plot('nosuch', t=t), 'plot of an unknown name')
        expect_error(lambda: S.plotParameterEvolution(hyp[0] if hyp and op[3] else 'nosuch'), 'plot of an unknown parameter')
        expect_error(lambda: S.plotHyperParameterEvolution(name if op[3] else 'nosuch'), 'plot of an unknown hyper-parameter')
    ctx.label(kind)


def body_online(case, ctx):
    c11.usable(case, 30)
    seg = ref.SEGMENT.get(case['om']['om'], 1)
    points = dsl.data_points(case)
    if len(points) < seg:
        raise Reject()
    S, tnames = c11.start(case, case['history'])
    P = plt()
    k = 0
    for i, x in enumerate(points):
        dsl.step(S, x)
        if i < seg - 1:
            continue
        if not np.isfinite(S.logEvidence):
            raise Reject()
        for op in case['ops'][k:k + 2]:
            try:
                with dsl.hush():
                    P.figure()
                    online_ops(Undrawn(S, op[1] + op[2]), P, case, op, tnames, ctx)
            finally:
                P.close('all')
        k += 2
    ctx.label('history' if case['history'] else 'no history')
    ctx.nontrivial(len(points) > seg)


def ops(kinds, lo, hi):
    return st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 7), st.integers(0, 20), st.integers(0, 2)).map(list),
                    min_size=lo, max_size=hi)


@st.composite
def s_batch(draw):
    cls = draw(st.sampled_from(['HyperStudy', 'Study', 'ChangepointStudy', 'HyperStudy']))
    if cls == 'ChangepointStudy':
        c = draw(c10.s_points(min_points=draw(st.sampled_from([2, 1])), max_points=2))
    elif cls == 'HyperStudy':
        c = draw(c08.s_mixture())
    else:
        c = draw(dsl.cases(kinds=('Static', 'GRW', 'CP', 'Regime', 'Indep'), min_len=2, max_len=6))
    c['cls'] = cls
    c['mode'] = draw(st.sampled_from(['full', 'fwd']))
    c['ops'] = draw(ops({'Study': ['at', 'evo', 'pds', 'avg', 'bad'], 'HyperStudy': ['jhpd', 'hpd', 'at', 'evo', 'hpd', 'bad'],
                         'ChangepointStudy': ['dd', 'dd', 'hpd', 'jhpd', 'at', 'evo', 'bad']}[cls], 1, 3))
    return c


@st.composite
def s_online(draw):
    c = draw(c11.s_batch(min_len=2, max_len=4))
    c['history'] = draw(st.sampled_from([True, True, True, False]))
    c['ops'] = draw(ops(['hpd', 'tm', 'evo', 'at', 'hpd', 'pds', 'avg', 'cur', 'bad'], 2, 8))
    return c


TESTS = [
    Test('batch', s_batch, body_batch, 1200, 10000, 'at least two time steps'),
    Test('online', s_online, body_online, 600, 6000, 'at least two time steps'),
]
KNOWN = {}
