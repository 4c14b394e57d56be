"""C18: studies have no hidden state - results depend on the current settings only."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import dsl, ref
from vf.checks import c17
from vf.checks.c12 import plt
from vf.checks.c15 import SMOOTH
from vf.common import check, check_close, check_log, hyper_ok
from vf.core import Test, Reject, Violation

FAMILIES = {
    2: (('Gaussian', 'Laplace', 'AR1', 'ScaledAR1', 'SciPyNorm'), ['loc', 'scale']),
    1: (('Poisson', 'WhiteNoise', 'SciPyPoisson'), ['mu']),
}
MODES = [{}, {}, {'forwardOnly': True}, {'evidenceOnly': True}]


def guarded(f):
    """(result, None) or (None, type of error)."""
    try:
        with dsl.hush():
            return f(), None
    except Exception as e:
        return None, type(e).__name__


def results(S, cls, tm, mode):
    out = {'logEvidence': S.logEvidence, 'localEvidence': np.array(S.localEvidence), 'timestamps': np.array(S.formattedTimestamps),
           'data': np.array(S.formattedData)}
    if 'evidenceOnly' not in mode:
        out['posteriors'] = np.array(S.posteriorSequence)
        out['means'] = np.array(S.posteriorMeanValues)
        for n in S.observationModel.parameterNames:
            out['PDs of ' + n] = S.getPDs(n)[1]
    if cls != 'Study':
        for n, _, _ in ref.flat_hypers(tm):
            r, e = guarded(lambda: S.getHPD(n))
            out['HPD of ' + n] = e if e else np.array(r)
    return {k: (copy.deepcopy(v)) for k, v in out.items()}


def compare(a, b, what):
    check(set(a) == set(b), '{}: different results'.format(what))
    for k in a:
        if isinstance(a[k], str) or isinstance(b[k], str):
            check(str(a[k]) == str(b[k]), '{}: {} is {!r}, expected {!r}'.format(what, k, b[k], a[k]))
        else:
            check_close(b[k], a[k], '{}: {}'.format(what, k), 1e-9, 1e-12)


class World(object):
    """Studies, shared model objects, and the settings they are expected to have."""

    def __init__(self, case):
        self.case = case
        b = dsl.bl()
        with dsl.hush():
            self.oms = [dsl.build_om(o) for o in case['oms']]
            self.tms = [dsl.build_tm(t) for t in case['tms']]
            # composed models that share the instances of the models above
            self.nbase = len(self.tms)
            for c in case.get('shared', []):
                if c[0] == 'comb':
                    self.tms.append(b.tm.CombinedTransitionModel(*[self.tms[i] for i in c[1]]))
                else:
                    parts = [self.tms[c[1][0]]]
                    for i, x, kind in zip(c[1][1:], c[2], c[3]):
                        parts += [getattr(b.tm, {'Break': 'BreakPoint', 'CP': 'ChangePoint'}[kind])(*x), self.tms[i]]
                    self.tms.append(b.tm.SerialTransitionModel(*parts))
        self.base = [copy.deepcopy(t) for t in case['tms']]
        self.parts = [[]] * self.nbase + [list(c[1]) for c in case.get('shared', [])]
        single = [all(not isinstance(v, (list, str)) for _, v, _ in ref.flat_hypers(t)) for t in self.base]
        self.single = [j for j in range(len(self.tms)) if (single[j] if j < self.nbase else all(single[i] for i in self.parts[j]))]
        self.data = [dsl.build_data(d) for d in case['datas']]
        self.ts = [None if d.get('ts') is None else dsl.own(np.array(d['ts'])) for d in case['datas']]
        self.cls = case['cls']
        with dsl.hush():
            self.S = [getattr(b, c)(silent=True) for c in self.cls]
        self.set_ = [{'om': None, 'tm': None, 'data': None, 'ts': None} for _ in self.S]
        self.last = [None] * len(self.S)
        self.online = None
        self.steps = []
        self.kinds = []
        self.fits = self.changed = 0

    def tmd(self, j):
        """Current description of a transition model."""
        if j < self.nbase:
            return self.base[j]
        c = self.case['shared'][j - self.nbase]
        ms = [self.base[i] for i in c[1]]
        if c[0] == 'comb':
            return {'tm': 'Comb', 'models': ms}
        parts = ms[:1]
        for m, x, kind in zip(ms[1:], c[2], c[3]):
            parts += [{'tm': kind, 'names': [x[0]], 'values': [x[1]]}, m]
        return {'tm': 'Serial', 'parts': parts}

    def related(self, a, b):
        return a is not None and bool(set([a] + self.parts[a]) & set([b] + self.parts[b]))

    # ----------------------------------------------------------------------------------------------------- operations

    def op_load(self, s, k, form):
        i = k % len(self.data)
        x, ts = self.data[i], self.ts[i]
        with dsl.hush():
            if form == 1:
                self.S[s].load(dsl.own(x.tolist()), timestamps=ts, silent=True)
                x = np.array(x, dtype=float)
            elif form == 2:  # wrong number of time stamps
                self.S[s].loadData(x, timestamps=[5 + 3 * j for j in range(len(x) + (2 if k % 3 else -1))], silent=True)
                ts = None
            else:
                self.S[s].load(x, timestamps=ts, silent=True)
        self.set_[s].update(data=np.array(x), ts=np.arange(len(x)) if ts is None else np.array(ts))
        self.last[s] = None

    def op_mask(self, s, k, form):
        """Documented way to select a part of the data."""
        m = self.set_[s]
        if m['data'] is None or len(m['data']) < 4:
            return
        keep = slice(1, None) if form else slice(None, -1)
        self.S[s].rawData = self.S[s].rawData[keep]
        self.S[s].rawTimestamps = self.S[s].rawTimestamps[keep]
        m['data'], m['ts'] = m['data'][keep], m['ts'][keep]
        self.last[s] = None

    def pick(self, s, k):
        """Index of a transition model; plain studies take single values only."""
        return self.single[k % len(self.single)] if self.cls[s] == 'Study' else k % len(self.tms)

    def op_om(self, s, k, form):
        i = k % len(self.oms)
        with dsl.hush():
            (self.S[s].setOM if form else self.S[s].set)(self.oms[i], silent=True)
        self.set_[s]['om'] = i
        self.last[s] = None

    def op_tm(self, s, k, form):
        j = self.pick(s, k)
        with dsl.hush():
            (self.S[s].setTM if form else self.S[s].set)(self.tms[j], silent=True)
        self.set_[s]['tm'] = j
        self.last[s] = None

    def op_both(self, s, k, form):
        i, j = k % len(self.oms), self.pick(s, k // 2)
        args = [self.oms[i], self.tms[j]]
        with dsl.hush():
            self.S[s].set(*(args[::-1] if form else args), silent=True)
        self.set_[s].update(om=i, tm=j)
        self.last[s] = None

    def fresh(self, s):
        m = self.set_[s]
        b = dsl.bl()
        with dsl.hush():
            F = getattr(b, self.cls[s])(silent=True)
            if m['data'] is not None:
                F.load(m['data'].copy(), timestamps=m['ts'].copy(), silent=True)
            if m['om'] is not None:
                F.set(dsl.build_om(self.case['oms'][m['om']]), silent=True)
            if m['tm'] is not None:
                F.set(dsl.build_tm(self.tmd(m['tm'])), silent=True)
        return F

    def op_fit(self, s, k, form):
        mode = MODES[k % 4]
        m = self.set_[s]
        F = self.fresh(s)
        _, want = guarded(lambda: F.fit(silent=True, **mode))
        try:
            with dsl.hush():
                self.S[s].fit(silent=True, **mode)
            got = None
        except Exception as e:
            if want is None:
                raise Violation('fit fails with {!r}, but not in a new study with the same settings'.format(e))
            got = type(e).__name__
        check(got == want, 'fit ends with {}, but in a new study with the same settings with {}'.format(got, want))
        self.last[s] = None
        if want is None:
            tm = self.tmd(m['tm'])
            if not np.isfinite(F.logEvidence):
                raise Reject()
            a, b = results(F, self.cls[s], tm, mode), results(self.S[s], self.cls[s], tm, mode)
            compare(a, b, '{} versus new study with the same settings'.format(self.cls[s]))
            self.last[s] = (a, mode)
            self.fits += 1

    def op_optimize(self, s, k, form):
        m = self.set_[s]
        if self.cls[s] != 'Study':
            _, e = guarded(lambda: self.S[s].optimize())
            check(e == 'NotImplementedError', 'optimize of {} ends with {}'.format(self.cls[s], e))
            return
        if None in (m['om'], m['tm']) or m['data'] is None:
            return
        tm = self.tmd(m['tm'])
        if m['tm'] >= self.nbase or any(x['tm'] not in SMOOTH for x in ref.leaves(tm)) or tm['tm'] == 'Serial':
            return
        F = self.fresh(s)
        r, want = guarded(lambda: F.optimize(tol=0.1, options=dict(maxiter=4)))
        r, got = guarded(lambda: self.S[s].optimize(tol=0.1, options=dict(maxiter=4)))
        check(want == got, 'optimization ends with {}, but in a new study with {}'.format(got, want))
        if want is not None:
            return
        if not np.isfinite(F.logEvidence) or np.isnan(F.posteriorSequence).any():
            raise Reject()
        names = [n for n, _, _ in ref.flat_hypers(tm)]
        vals = []
        for n, v, _ in ref.flat_hypers(tm):
            a, b = F.getHyperParameterValue(n), self.S[s].getHyperParameterValue(n)
            check_close(b, a, 'value of {} after optimization'.format(n), 1e-9, 1e-12)
            vals.append(float(a) if np.ndim(a) == 0 and float(a) != v else v)
        self.base[m['tm']] = ref.with_values(tm, vals)
        for i, x in enumerate(self.set_):  # the same model may be set in other studies
            if self.related(x['tm'], m['tm']):
                self.last[i] = None
        a, b = results(F, 'Study', tm, {}), results(self.S[s], 'Study', tm, {})
        compare(a, b, 'optimization versus new study')
        self.last[s] = (a, {})
        self.changed += 1

    def op_query(self, s, k, form):
        S, m = self.S[s], self.set_[s]
        if m['om'] is None:
            return
        names = self.case['oms'][m['om']]['names']
        n = names[k % len(names)]
        hyp = ref.flat_hypers(self.tmd(m['tm'])) if m['tm'] is not None else []
        t = m['ts'][k % len(m['ts'])] if m['ts'] is not None else 0
        calls = [lambda: S.getPD(t, n, density=bool(k % 2)), lambda: S.getPD('avg', n), lambda: S.getPDs(n, density=bool(k % 2)),
                 lambda: S.getParameterMeanValues(n), lambda: S.simulate([0, 1, 2], t=t), lambda: S.simulate(np.array([1., 2.])),
                 lambda: S.getHPD(hyp[0][0]), lambda: S.getHyperParameterValue(hyp[-1][0]), lambda: S.getJHPD([hyp[0][0], hyp[1][0]]),
                 lambda: S.log10Evidence]
        for i in (k, k // 2 + 3, k // 3 + 5):
            f = calls[i % len(calls)]
            a, e = guarded(f)
            c, d = guarded(f)
            check(e == d, 'repeated query ends with {}, then {}'.format(e, d))
            if e is None and self.last[s] is not None:
                check(c17.same(a, c), 'repeated query has another result')

    def op_plot(self, s, k, form):
        S, m = self.S[s], self.set_[s]
        if m['om'] is None or self.last[s] is None:
            return
        names = self.case['oms'][m['om']]['names']
        hyp = ref.flat_hypers(self.tmd(m['tm']))
        n = names[k % len(names)]
        p = plt()
        p.figure()
        guarded(lambda: [lambda: S.plot(n), lambda: S.plot(n, t=m['ts'][0]), lambda: S.plot(n, t='avg'), lambda: S.getPD('avg', n, plot=True),
                         lambda: S.plot(hyp[0][0]), lambda: S.eval('{} > 1'.format(n), t=m['ts'][-1], silent=True),
                         lambda: S.plotParameterEvolution(n)][k % 7]())
        p.close('all')

    def op_bad(self, s, k, form):
        """Calls that are rejected."""
        b = dsl.bl()
        S, m = self.S[s], self.set_[s]
        tm, om = m['tm'], m['om']
        two = len(self.case['oms'][0]['names'])
        calls = [lambda: S.getPD(0, 'nosuch'), lambda: S.getPD(98765, self.case['oms'][0]['names'][0]), lambda: S.set(b.tm.BreakPoint('tb', 3)),
                 lambda: S.set('nosuch'), lambda: S.load('nosuch'), lambda: S.set(self.oms[0], b.om.Poisson('q', [1., 2.])),
                 lambda: S.set(b.om.SciPy(__import__('scipy.stats').stats.norm, 'loc', None, 'scale', None)),
                 lambda: S.optimize(['nosuch']), lambda: S.getParameterMeanValues('nosuch'), lambda: S.simulate([1], t=98765),
                 lambda: S.getHyperParameterValue('nosuch'), lambda: S.set(b.tm.Static(), b.tm.Static())]
        if k % 14 < 12:
            _, e = guarded(calls[k % 14])
            check(e is not None, 'invalid call {} is accepted'.format(k % 14))
            return
        # fit with an invalid prior, or interrupted fit; then the previous observation model is set again
        if om is None or tm is None or m['data'] is None:
            return
        od = self.case['oms'][om]
        if k % 14 == 12:
            L = self._with_prior(od)
        else:
            L = self._interrupted(od, 1 + form)
        with dsl.hush():
            S.set(L, silent=True)
        _, e = guarded(lambda: S.fit(silent=True))
        check(e is not None, 'fit with invalid observation model is accepted')
        with dsl.hush():
            S.set(self.oms[om], silent=True)
        self.last[s] = None

    def _with_prior(self, od):
        b = dsl.bl()
        args = [x for pair in zip(od['names'], [dsl.build_grid(g) for g in od['grids']]) for x in pair]
        if len(od['names']) == 1:
            return b.om.WhiteNoise(*args, prior=np.ones(997))
        if len(od['names']) == 3:
            return b.om.NumPy(lambda x, u, v, w: np.ones(u.shape), *args, prior=np.ones((997, 2, 2)))
        return b.om.Gaussian(*args, prior=np.ones((997, 2)))

    def _interrupted(self, od, after):
        b = dsl.bl()
        args = [x for pair in zip(od['names'], [dsl.build_grid(g) for g in od['grids']]) for x in pair]
        count = [0]

        def like(x, *grid):
            count[0] += 1
            if count[0] > after:
                raise RuntimeError('interrupted')
            return 0. * grid[0] + 1.
        if len(od['names']) == 1:
            def f(data, u):
                return like(data, u)
        elif len(od['names']) == 2:
            def f(data, u, v):
                return like(data, u, v)
        else:
            def f(data, u, v, w):
                return like(data, u, v, w)
        return b.om.NumPy(f, *args)

    def op_step(self, s, k, form):
        """On-line study with the same model objects."""
        b = dsl.bl()
        multi = []
        for j in range(len(self.tms)):
            h = ref.flat_hypers(self.tmd(j))
            if not any(isinstance(v, str) for _, v, _ in h) and len(set(n for n, _, _ in h)) == len(h):
                multi.append(j)
        if self.online is None:
            j = multi[k % len(multi)]
            i = k % len(self.oms)
            with dsl.hush():
                self.online = b.OnlineStudy(storeHistory=True, silent=True)
                self.online.set(self.oms[i], silent=True)
                self.online.add('m', self.tms[j])
            self.steps = [i, copy.deepcopy(self.tmd(j)), []]  # values at this time
        x = self.data[k % len(self.data)]
        if x.ndim > 1:
            return
        v = [a for a in x if not np.isnan(a)] or [1.]
        v = float(v[k % len(v)])
        dsl.step(self.online, v)
        self.steps[2].append(v)

    def check_online(self):
        if not self.steps:
            return
        i, tm, xs = self.steps
        F = dsl.online(self.case['oms'][i], [('m', tm)])
        for x in xs:
            dsl.step(F, x)
        seg = ref.SEGMENT.get(self.case['oms'][i]['om'], 1)
        if len(xs) < seg:
            return
        a, b = dsl.online_moments(F), dsl.online_moments(self.online)
        if not np.isfinite(a['logE']):
            return
        check_log(b['logE'], a['logE'], 'on-line study with shared models: log-evidence')
        check_close(b['post'], a['post'], 'on-line study with shared models: posterior')
        for x, y in zip(b['hyper'], a['hyper']):
            check_close(x, y, 'on-line study with shared models: hyper-parameters')
        check_close(self.online.posteriorSequence, F.posteriorSequence, 'on-line study with shared models: history')

    def settle(self):
        """Results of the last fits are still there; objects of the user are not changed."""
        for s, l in enumerate(self.last):
            if l is not None:
                compare(l[0], results(self.S[s], self.cls[s], self.tmd(self.set_[s]['tm']), l[1]), 'results after further operations')
        bad = dsl.check_owned()
        if bad:
            raise Violation('object supplied by the user: ' + bad)
        for j in range(len(self.tms)):
            t = self.tmd(j)
            for s, m in enumerate(self.set_):
                if m['tm'] == j:
                    for n, v, _ in ref.flat_hypers(t):
                        x = self.S[s].getHyperParameterValue(n)
                        same = str(x) == str(v) if isinstance(v, str) or isinstance(x, str) else \
                            np.shape(x) == np.shape(v) and np.array_equal(np.array(x, dtype=float), np.array(v, dtype=float))
                        check(same, 'value of hyper-parameter {} is {!r}, set by user: {!r}'.format(n, x, v))


def sizes(case):
    for t in case['tms']:
        n = 1
        for _, v, _ in ref.flat_hypers(t):
            n *= len(v) if isinstance(v, list) else (8 if v == 'all' else 1)
        if n > 16:
            raise Reject()
    for c in case['shared']:
        n = 1
        for i in set(c[1]):
            for _, v, _ in ref.flat_hypers(case['tms'][i]):
                n *= len(v) if isinstance(v, list) else 1
        if n > 16:
            raise Reject()


def body(case, ctx):
    sizes(case)
    del dsl.TRACKED[:]
    w = World(case)
    done = []
    for op, s, k, form in case['ops']:
        getattr(w, 'op_' + op)(s % len(w.S), k, form)
        done.append(op)
        if op in ('query', 'plot', 'bad', 'step'):
            w.settle()
    w.settle()
    w.check_online()
    # a last fit of everything
    for s in range(len(w.S)):
        w.op_fit(s, 0, 0)
    w.settle()
    del dsl.TRACKED[:]
    ctx.label(*(sorted(set(done)) + sorted(set(case['cls']))))
    if case['shared']:
        ctx.label('shared sub-models: ' + case['shared'][0][0])
    ctx.nontrivial(w.fits >= 3)


@st.composite
def s_history(draw, plots=False):
    dims = draw(st.sampled_from([1, 2]))
    kinds, names = FAMILIES[dims]
    oms = [draw(dsl.oms(kinds=kinds, max_n1=7, max_n2=4)) for _ in range(2)]
    for o in oms:
        o['names'] = list(names)
    datas = []
    for i in range(draw(st.integers(1, 2))):
        n = draw(st.integers(3, 6))
        d = draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))
        if draw(st.integers(0, 4)) == 3:
            d[draw(st.integers(0, n - 1))] = None
        c = {'data': d}
        ts = draw(dsl.timestamps(n))
        if ts is not None:
            c['ts'] = ts
        datas.append(c)
    stamps = dsl.seg_ts(oms[0], len(datas[0]['data']), datas[0].get('ts'))
    namer = dsl.Namer(draw)
    mk = lambda multi: draw(dsl.tms(oms[0], stamps, multi=multi, priors=bool(multi), max_values=2, namer=namer))
    tms = [mk(False) for _ in range(draw(st.integers(1, 2)))]
    tms += [mk('more') for _ in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):
        tms.append({'tm': 'CP', 'names': ['tc'], 'values': ['all' if draw(st.booleans()) else [float(x) for x in stamps[:-1]]]})
    shared = []
    plain = [i for i, t in enumerate(tms) if t['tm'] not in ('CP', 'Serial') and not any(m['tm'] == 'Break' for m in ref.leaves(t))]
    if plain and draw(st.integers(0, 2)):
        extra = [{'tm': 'Static'}]
        if draw(st.booleans()):
            extra = [draw(dsl.leaf_tms(oms[0], stamps, namer, kinds=('GRW', 'Det', 'Det', 'Alpha', 'Regime')))]
        tms += extra
        i, j = draw(st.sampled_from(plain)), len(tms) - 1
        two = draw(st.permutations([i, j]))
        if draw(st.integers(0, 3)) == 0:
            shared.append(['comb', two])
        else:
            ids = two + ([two[0]] if draw(st.booleans()) and len(stamps) > 2 else [])
            tb = sorted(draw(st.lists(st.sampled_from(list(stamps[:-1])), min_size=len(ids) - 1, max_size=len(ids) - 1, unique=True)))
            shared.append(['serial', ids, [[namer(), t] for t in tb], [draw(st.sampled_from(['Break', 'Break', 'CP'])) for _ in tb]])
    cls = draw(st.lists(st.sampled_from(['Study', 'HyperStudy', 'ChangepointStudy']), min_size=1, max_size=2))
    ops = st.tuples(st.sampled_from(['load', 'om', 'tm', 'both', 'fit', 'fit', 'fit', 'query', 'query', 'bad', 'bad', 'optimize', 'mask', 'step']
                                    + (['plot'] * 5 if plots else [])),
                    st.integers(0, 1), st.integers(0, 27), st.integers(0, 2)).map(list)
    start = []
    for s in range(len(cls)):
        start += [['load', s, draw(st.integers(0, 1)), draw(st.integers(0, 2))], ['both', s, draw(st.integers(0, 27)), draw(st.integers(0, 1))]]
    rest = draw(st.lists(ops, min_size=7, max_size=14))
    if any(t.get('values') == ['all'] for t in tms):  # not available for on-line studies
        rest = [o for o in rest if o[0] != 'step']
    return {'oms': oms, 'datas': datas, 'tms': tms, 'shared': shared, 'cls': cls, 'ops': start + rest}


# -------------------------------------------------------------------------------------- instances in several compositions

def assemble(shape, get, brk):
    """Composition of leaves; `get` yields a leaf, `brk` a break-point, both as instances or as descriptions."""
    if isinstance(shape, int):
        return get(shape)
    if shape[0] == 'comb':
        return get(['comb', [assemble(x, get, brk) for x in shape[1]]])
    parts = [assemble(shape[1][0], get, brk)]
    for x, (kind, name, t) in zip(shape[1][1:], shape[2]):
        parts += [brk(kind, name, t), assemble(x, get, brk)]
    return get(['serial', parts])


def used(shape):
    return [shape] if isinstance(shape, int) else [i for x in shape[1] for i in used(x)]


def body_compose(case, ctx):
    b = dsl.bl()
    om, leaves = case['om'], case['leaves']
    with dsl.hush():
        inst = [dsl.build_tm(t) for t in leaves]

    def get_i(x):
        if isinstance(x, int):
            return inst[x]
        return (b.tm.CombinedTransitionModel if x[0] == 'comb' else b.tm.SerialTransitionModel)(*x[1])

    def get_d(x):
        if isinstance(x, int):
            return leaves[x]
        return {'tm': 'Comb', 'models': x[1]} if x[0] == 'comb' else {'tm': 'Serial', 'parts': x[1]}

    brk_i = lambda kind, name, t: (b.tm.BreakPoint if kind == 'Break' else b.tm.ChangePoint)(name, t)
    brk_d = lambda kind, name, t: {'tm': kind, 'names': [name], 'values': [t]}
    with dsl.hush():
        models = [assemble(s, get_i, brk_i) for s in case['shapes']]
    descs = [assemble(s, get_d, brk_d) for s in case['shapes']]
    x = dsl.build_data(case)
    ts = None if case.get('ts') is None else np.array(case['ts'])
    om_i = dsl.build_om(om)
    pool = {}
    seen = set()
    hidden = 0
    for k, cls, mode in case['ops']:
        k = k % len(models)
        mode = MODES[mode % 4]
        if (k, cls) in seen or not any(set(used(case['shapes'][k])) & set(used(case['shapes'][j])) for j, _ in seen):
            pass
        else:
            hidden += 1
        seen.add((k, cls))
        if cls == 'OnlineStudy':
            with dsl.hush():
                S = b.OnlineStudy(storeHistory=True, silent=True)
                S.set(om_i, silent=True)
                S.add('m', models[k])
            F = dsl.online(om, [('m', descs[k])])
            for v in dsl.data_points(case):
                dsl.step(S, v)
                dsl.step(F, v)
            if len(x) < ref.SEGMENT.get(om['om'], 1):
                continue
            a, c = dsl.online_moments(F), dsl.online_moments(S)
            if not np.isfinite(a['logE']):
                raise Reject()
            check_log(c['logE'], a['logE'], 'on-line study with shared sub-models: log-evidence')
            check_close(c['post'], a['post'], 'on-line study with shared sub-models: posterior')
            continue
        if cls not in pool:
            with dsl.hush():
                pool[cls] = getattr(b, cls)(silent=True)
                pool[cls].load(x, timestamps=ts, silent=True)
                pool[cls].set(om_i, silent=True)
        S = pool[cls]
        with dsl.hush():
            S.set(models[k], silent=True)
        F = dsl.study(dict(case, tm=descs[k]), cls)
        _, want = guarded(lambda: F.fit(silent=True, **mode))
        try:
            with dsl.hush():
                S.fit(silent=True, **mode)
            got = None
        except Exception as e:
            got = type(e).__name__
        check(got == want, 'fit ends with {}, but with new model instances with {}'.format(got, want))
        if want is None:
            if not np.isfinite(F.logEvidence):
                raise Reject()
            compare(results(F, cls, descs[k], mode), results(S, cls, descs[k], mode),
                    '{} with sub-models that are part of several models versus new instances'.format(cls))
    ctx.label(*sorted(set(t['tm'] for t in leaves)))
    ctx.nontrivial(hidden > 0)


@st.composite
def s_compose(draw):
    om = draw(dsl.oms(kinds=('Gaussian', 'Poisson', 'NumPyTable', 'AR1', 'WhiteNoise'), max_n1=8, max_n2=5))
    d = draw(dsl.datasets(om, min_len=4, max_len=6, missing=False, multi=False))
    ts = draw(dsl.timestamps(len(d)))
    stamps = dsl.seg_ts(om, len(d), ts)
    namer = dsl.Namer(draw)
    leaves = [draw(dsl.leaf_tms(om, stamps, namer, kinds=('Det', 'Det', 'GRW', 'Alpha', 'Regime', 'Static', 'Biv', 'NotEqual')))
              for _ in range(draw(st.integers(1, 3)))]
    leaves.append({'tm': 'Static'})
    n = len(leaves)

    def shape(depth, serial=True):
        kind = draw(st.sampled_from(['leaf', 'comb', 'serial', 'serial', 'serial'] if depth == 0 else ['leaf', 'leaf', 'comb']))
        if kind == 'leaf':
            return draw(st.integers(0, n - 1))
        if kind == 'comb':
            ids = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 3), unique=True))
            return ['comb', ids]
        nb = draw(st.integers(1, min(2, len(stamps) - 1)))
        tb = sorted(draw(st.lists(st.sampled_from(list(stamps[:-1])), min_size=nb, max_size=nb, unique=True)))
        return ['serial', [shape(1) for _ in range(nb + 1)], [[draw(st.sampled_from(['Break', 'Break', 'CP'])), namer(), t] for t in tb]]
    shapes = [shape(0) for _ in range(draw(st.integers(1, 2)))] + [draw(st.integers(0, n - 1))]
    ops = draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(['Study', 'Study', 'HyperStudy', 'OnlineStudy']), st.integers(0, 3)).map(list),
                        min_size=2, max_size=5))
    # the same hyper-parameter must not appear twice in hyper- and on-line studies
    dup = [len(set(u)) < len([i for i in u if leaves[i].get('names')]) + len(set(i for i in u if not leaves[i].get('names')))
           for u in (used(s) for s in shapes)]
    ops = [[k, 'Study' if dup[k % len(shapes)] else c, m] for k, c, m in ops]
    c = {'om': om, 'data': d, 'leaves': leaves, 'shapes': shapes, 'ops': ops}
    if ts is not None:
        c['ts'] = ts
    return c


# ---------------------------------------------------------------------------------------------------------- example data

COAL = ('54104340633402633545314415534252234213221111300101100310322011101010002100011023311211112330001400010000010010')


def body_example(case, ctx):
    """The example data set (annual numbers of coal mining disasters, 1852 to 1961) is data like any other."""
    b = dsl.bl()
    x = [int(c) for c in COAL]
    ts = list(range(1852, 1962))
    cls, tm = case['cls'], case['tm']
    if cls == 'Study':
        tm = dsl.scalar_tm(tm)
    elif not ref.flat_hypers(tm) or not hyper_ok(tm):
        raise Reject()
    with dsl.hush():
        S, F = getattr(b, cls)(silent=True), getattr(b, cls)(silent=True)
        F.load(np.array(x), timestamps=ts, silent=True)
        F.set(dsl.build_om(case['om']), dsl.build_tm(tm), silent=True)
        parts = [lambda: S.loadExampleData(silent=True), lambda: S.set(dsl.build_om(case['om']), silent=True), lambda: S.set(dsl.build_tm(tm), silent=True)]
        if case['before']:
            S.load(np.array(case['before']), silent=True)
            for f in parts[1:]:
                f()
            S.fit(silent=True)
        for k in case['order']:
            parts[k]()
        S.fit(silent=True, **case['mode'])
        F.fit(silent=True, **case['mode'])
    check(list(S.formattedTimestamps) == ts, 'time stamps of the example data')
    check_close(np.array(S.formattedData, dtype=float).ravel(), np.array(x, dtype=float), 'example data')
    if not np.isfinite(F.logEvidence):
        raise Reject()
    compare(results(F, cls, tm, case['mode']), results(S, cls, tm, case['mode']), 'example data versus the same values, loaded as an array')
    ctx.label(cls, tm['tm'])
    ctx.nontrivial()


@st.composite
def s_example(draw):
    om = draw(dsl.oms(kinds=('Poisson', 'Gaussian'), max_n1=6, max_n2=4))
    tm = draw(dsl.tms(om, list(range(1852, 1962)), kinds=('Static', 'GRW', 'CP', 'Regime'), multi='more', max_values=2))
    return {'om': om, 'tm': tm, 'cls': draw(st.sampled_from(['Study', 'HyperStudy'])), 'order': draw(st.permutations([0, 1, 2])),
            'before': draw(st.sampled_from([None, [1, 2, 3], [0, 1, 5, 2, 2]])),
            'mode': draw(st.sampled_from([{}, {'forwardOnly': True}, {'evidenceOnly': True}]))}


TESTS = [
    Test('compose', s_compose, body_compose, 800, 12000, 'a model that shares sub-models with one that has been fitted before'),
    Test('history', s_history, body, 1300, 15000, 'at least three successful fits'),
    Test('example', s_example, body_example, 24, 200, 'all with a positive evidence'),
    Test('plots', lambda: s_history(plots=True), body, 60, 800, 'at least three successful fits'),
]
KNOWN = {}
