"""Runs a share of the tests of one property and writes a JSON report. Started by vf.main, one process per core."""
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vendor'))
sys.path.insert(0, HERE)

REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, REPO)


class Abort(BaseException):
    """Ends a Hypothesis run (time budget for shrinking is used up)."""


def quiet():
    """Code under test prints a lot; keep it away from the report. Returns nothing."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = io.TextIOWrapper(os.fdopen(dn, 'wb', 0), write_through=True)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import tqdm
    tqdm.tqdm.monitor_interval = 0  # no additional thread, as some checks start processes


def in_sut(tb):
    return any(os.path.abspath(f.filename).startswith(REPO + '/bayesloop') for f in traceback.extract_tb(tb))


def execute(test, case, allowed):
    """Runs one case. Returns (ctx, violation message or None, harness error or None)."""
    from vf.core import Ctx, Violation, Reject
    from hypothesis.errors import HypothesisException
    ctx = Ctx(allowed)
    try:
        test.body(json.loads(json.dumps(case)), ctx)
        return ctx, None, None
    except Violation as e:
        return ctx, str(e), None
    except Reject:
        ctx.is_nontrivial = False
        ctx.labels.append('rejected')
        return ctx, None, None
    except HypothesisException:
        raise
    except Exception as e:
        text = traceback.format_exc(limit=-6)
        if in_sut(e.__traceback__):
            return ctx, 'unexpected exception {!r}\n{}'.format(e, text), None
        return ctx, None, text


def run_test(test, n, seedval, budget, allowed, first):
    from hypothesis import given, settings, seed, Phase, HealthCheck, Verbosity
    from vf.core import case_hash, canon
    rep = dict(name=test.name, evaluations=0, nontrivial=[], samples=[], labels={}, known={}, violation=None,
               error=None, skipped=0)
    seen = set()
    state = dict(fail_t=None, best=None)
    t0 = time.monotonic()

    def one(case):
        ctx, viol, err = execute(test, case, allowed)
        rep['evaluations'] += 1
        if err is not None:
            rep['error'] = dict(case=case, trace=err)
            raise Abort()
        for l in ctx.labels:
            rep['labels'][l] = rep['labels'].get(l, 0) + 1
        for k in ctx.known_hits:
            rep['known'][k] = rep['known'].get(k, 0) + 1
        if ctx.is_nontrivial:
            h = case_hash(test.name, case)
            if h not in seen:
                seen.add(h)
                if len(rep['samples']) < 2 or (len(rep['samples']) < 4 and len(seen) % 50 == 0):
                    rep['samples'].append(case)
        if viol is not None:
            if state['fail_t'] is None:
                state['fail_t'] = time.monotonic()
            size = len(canon(case))
            if state['best'] is None or size < state['best'][0]:
                state['best'] = (size, case, viol)
        return viol

    try:
        if first:
            for case in test.examples:
                if one(case) is not None:
                    raise Abort()
        if n > 0:
            @seed(seedval)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                      phases=(Phase.generate, Phase.target, Phase.shrink), report_multiple_bugs=False,
                      print_blob=False)
            @given(test.strategy())
            def prop(case):
                now = time.monotonic()
                if state['fail_t'] is not None and now - state['fail_t'] > 25:
                    raise Abort()
                if state['fail_t'] is None and now - t0 > budget:
                    rep['skipped'] += 1
                    if rep['skipped'] > 20:
                        raise Abort()
                    return
                if one(case) is not None:
                    raise AssertionError('violation')
            prop()
    except Abort:
        pass
    except AssertionError:
        if state['best'] is None:
            rep['error'] = dict(case=None, trace=traceback.format_exc())
    except BaseException:
        if state['best'] is None:
            rep['error'] = dict(case=None, trace=traceback.format_exc())
    if state['best'] is not None:
        rep['violation'] = dict(case=state['best'][1], message=state['best'][2])
    rep['nontrivial'] = sorted(seen)
    rep['wall'] = time.monotonic() - t0
    return rep


def main():
    job = json.load(open(sys.argv[1]))
    quiet()
    mod = importlib.import_module('vf.checks.' + job['property'].lower())
    import bayesloop
    assert os.path.abspath(bayesloop.__file__).startswith(REPO + '/'), bayesloop.__file__
    out = dict(reports=[], known_present={}, error=None)
    tests = {t.name: t for t in mod.TESTS}
    try:
        for spec in job['tests']:
            out['reports'].append(run_test(tests[spec['name']], spec['n'], spec['seed'], spec['budget'],
                                           job['allowed'], job['first']))
            if out['reports'][-1]['violation'] or out['reports'][-1]['error']:
                break
        if job['first']:
            for kid, probe in getattr(mod, 'KNOWN', {}).items():
                if kid in job['allowed']:
                    out['known_present'][kid] = bool(probe())
    except BaseException:
        out['error'] = traceback.format_exc()
    from vf.core import jsonable
    json.dump(out, open(sys.argv[2], 'w'), default=jsonable)


if __name__ == '__main__':
    main()
