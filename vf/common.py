"""Helpers shared by the checks: comparison with the reference under the listed known findings."""
import itertools

import numpy as np

from vf import ref
from vf.core import Violation, check_close, check_log, check


def triggers(tm, backward):
    """Known findings that can affect results for this transition model."""
    out = []
    lv = ref.leaves(tm)
    if any(m['tm'] == 'CP' for m in lv):
        out.append('K1')
    if backward:
        if serial_cp(tm):
            out.append('K2')
        if nontrivial_comb(tm):
            out.append('K3')
        if any(m['tm'] == 'Regime' for m in lv):
            out.append('K7')
    return out


def serial_cp(tm):
    if tm['tm'] == 'Serial':
        return any(m['tm'] == 'CP' or serial_cp(m) for m in tm['parts'])
    if tm['tm'] == 'Comb':
        return any(serial_cp(m) for m in tm['models'])
    return False


def nontrivial_comb(tm):
    if tm['tm'] == 'Comb':
        return sum(1 for m in tm['models'] if m['tm'] != 'Static') > 1 or any(nontrivial_comb(m) for m in tm['models'])
    if tm['tm'] == 'Serial':
        return any(nontrivial_comb(m) for m in tm['parts'])
    return False


def subsets(flags):
    for n in range(len(flags) + 1):
        for s in itertools.combinations(flags, n):
            yield frozenset(s)


def match(flags, compare, ctx):
    """Runs compare(flags) for the specified behaviour first; then, only if it fails, for the listed deviations."""
    first = None
    for s in subsets(flags):
        try:
            out = compare(s)
        except Violation as e:
            first = first or e
            continue
        for k in sorted(s):
            ctx.known(k, str(first))
        return out
    raise first


def make_ref(case, flags=(), backward=False, tm=None):
    r = ref.Ref(case['om'], tm or case['tm'], case['data'], case.get('ts'), flags)
    r.filter()
    if backward and np.isfinite(r.logE):
        r.smooth(exact=None if not (set(flags) & {'K2', 'K3', 'K7'}) else False)
    ref.well_conditioned(r)
    return r


def kinds(tm):
    out = sorted(set(m['tm'] for m in ref.leaves(tm)))
    if tm['tm'] in ('Comb', 'Serial'):
        out.append(tm['tm'])
    return out


def check_forward(S, r, what='forward fit', local=True, tol=1e-6):
    check_log(S.logEvidence, r.logE, what + ': log-evidence', tol)
    check_log(S.log10Evidence, r.logE / np.log(10.), what + ': log10-evidence', tol)
    if not np.isfinite(r.logE):
        return
    check_close(S.posteriorSequence, np.array(r.filt), what + ': filtering distributions')
    check_close(np.sum(np.array(S.posteriorSequence).reshape(len(r.filt), -1), axis=1), np.ones(len(r.filt)),
                what + ': normalisation')
    check_close(S.posteriorMeanValues, r.means(r.filt), what + ': mean values', 1e-6, 1e-7)
    if local:
        check_close(S.localEvidence, r.local, what + ': local evidence')


def check_smooth(S, r, what='full fit', local=True):
    check_log(S.logEvidence, r.logE, what + ': log-evidence')
    if not np.isfinite(r.logE) or r.smoothed is None:
        return
    check_close(S.posteriorSequence, np.array(r.smoothed), what + ': smoothing distributions')
    check_close(S.posteriorMeanValues, r.means(r.smoothed), what + ': mean values', 1e-6, 1e-7)
    if local:
        check_close(S.localEvidence, r.local_s, what + ': local evidence')


def hyper_ok(tm):
    """HyperStudy rejects models in which two change-/break-points share a value."""
    seen = set()
    for m in ref.leaves(tm):
        if m['tm'] in ('CP', 'Break'):
            v = m['values'][0]
            v = set(v) if isinstance(v, (list, tuple)) else {v}
            if seen & v:
                return False
            seen |= v
    return True


LONG = {'getPD': 'getParameterDistribution', 'getPDs': 'getParameterDistributions', 'getCPD': 'getCurrentParameterDistribution',
        'getHPD': 'getHyperParameterDistribution', 'getHPDs': 'getHyperParameterDistributions',
        'getCHPD': 'getCurrentHyperParameterDistribution', 'getJHPD': 'getJointHyperParameterDistribution',
        'getDD': 'getDurationDistribution', 'getCTMD': 'getCurrentTransitionModelDistribution',
        'getCTMP': 'getCurrentTransitionModelProbability', 'getTMPs': 'getTransitionModelProbabilities'}
DEFAULTS = {'density': True, 'local': False, 'plot': False}


class Spelled(object):
    """A study whose queries are spelled in different ways: short or long method names, documented default values given or left out."""

    def __init__(self, S, bits):
        self.__dict__.update(S=S, bits=int(bits))

    def __getattr__(self, name):
        if name in LONG and self.bits % 2:
            name = LONG[name]
        f = getattr(self.S, name)
        if not name.startswith('get') or not self.bits & 2:
            return f

        def call(*a, **kw):
            return f(*a, **{k: v for k, v in kw.items() if not (k in DEFAULTS and v is DEFAULTS[k])})
        return call
