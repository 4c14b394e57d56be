"""Coordinator of one check: distributes the tests of a property over worker processes, merges their reports, writes the
evidence file and decides the exit code (0 held, 1 violation, 2 the check itself failed)."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

from vf.core import subseed, jsonable, canon

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'


def load_known(pid):
    """id -> description of the findings listed for this property."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path):
        line = line.strip()
        if line.startswith('known: property={} '.format(pid)):
            rest = line.split(' ', 2)[2]
            kid, text = rest.split(' ', 1)
            out[kid.replace('id=', '')] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VF_JOBS', '8')))
    ap.add_argument('--test', help='only this test')
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        vseed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        vseed = subseed(os.environ['VERIF_SEED']) % (1 << 31)
    t0 = time.monotonic()
    known = load_known(pid)

    if a.replay:
        return replay(pid, a.replay, known)

    from vf import registry
    tests = registry.tests(pid)
    if a.test:
        tests = [t for t in tests if t['name'] == a.test]
    total_budget = 240. if tier == 'quick' else 780.
    scratch = os.environ['VF_SCRATCH']
    weight = sum(t[tier] * t['cost'] for t in tests)
    procs = []
    for w in range(a.jobs):
        specs = []
        for t in tests:
            n = t[tier] // a.jobs + (1 if w < t[tier] % a.jobs else 0)
            specs.append(dict(name=t['name'], n=n, seed=subseed(vseed, pid, t['name'], w),
                              budget=total_budget * t[tier] * t['cost'] / weight))
        job = dict(property=pid, tests=specs, allowed=sorted(known), first=(w == 0))
        jf, of = [os.path.join(scratch, '{}-{}.{}.json'.format(pid, w, k)) for k in ('job', 'out')]
        json.dump(job, open(jf, 'w'))
        log = open(os.path.join(scratch, '{}-{}.log'.format(pid, w)), 'wb')
        procs.append((subprocess.Popen([sys.executable, '-B', '-m', 'vf.worker', jf, of], cwd=HERE, stdin=subprocess.DEVNULL,
                                       stdout=log, stderr=subprocess.STDOUT), of, log.name))
    merged, errors, present = {}, [], {}
    for p, of, log in procs:
        try:
            p.wait(timeout=max(1, total_budget + 90 - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append('worker exceeded its time limit')
            continue
        if not os.path.exists(of):
            errors.append('worker died: ' + open(log, errors='replace').read()[-2000:])
            continue
        out = json.load(open(of))
        if out['error']:
            errors.append(out['error'])
        present.update(out['known_present'])
        for r in out['reports']:
            m = merged.setdefault(r['name'], dict(evaluations=0, nontrivial=set(), samples=[], labels={}, known={},
                                                  violations=[], skipped=0, wall=0.))
            m['evaluations'] += r['evaluations']
            m['nontrivial'] |= set(r['nontrivial'])
            m['samples'] += r['samples']
            m['skipped'] += r['skipped']
            m['wall'] += r['wall']
            for k in ('labels', 'known'):
                for l, c in r[k].items():
                    m[k][l] = m[k].get(l, 0) + c
            if r['violation']:
                m['violations'].append(r['violation'])
            if r['error']:
                errors.append('{}: {}\ncase: {}'.format(r['name'], r['error']['trace'], canon(r['error']['case'])[:3000]))

    viol = [(name, v) for name, m in merged.items() for v in m['violations']]
    viol.sort(key=lambda nv: len(canon(nv[1]['case'])))
    rules = {t['name']: t['rule'] for t in tests}
    ev = dict(property=pid, tier=tier, seed=vseed, level=LEVEL, wall_s=round(time.monotonic() - t0, 2), violations=len(viol),
              coverage=dict(
                  evaluations=sum(m['evaluations'] for m in merged.values()),
                  distinct_nontrivial=sum(len(m['nontrivial']) for m in merged.values()),
                  rule='Cases are drawn by Hypothesis from the generators in vf/checks/{}.py (seeded with VERIF_SEED). '
                       'Non-trivial: '.format(pid.lower()) + ' | '.join('{}: {}'.format(k, v) for k, v in rules.items()),
                  samples=[dict(test=name, case=s) for name, m in merged.items() for s in m['samples'][:2]],
                  per_test={name: dict(evaluations=m['evaluations'], distinct_nontrivial=len(m['nontrivial']),
                                       labels=dict(sorted(m['labels'].items(), key=lambda kv: -kv[1])[:60]),
                                       known_findings=m['known'], skipped_by_time_budget=m['skipped'])
                            for name, m in merged.items()},
                  known_findings_present=present))
    ev['assumptions'] = ['float64 results are compared with the reference up to tolerances stated in vf/core.py and the '
                         'check; numpy/scipy special functions and scipy.stats densities are trusted as oracles']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=jsonable)

    for kid, text in known.items():
        if present.get(kid):
            print('KNOWN-FINDING: property={} {} {}'.format(pid, kid, text))
    if viol:
        name, v = viol[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '{}-{}.json'.format(pid, name))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, test=name, case=v['case'], message=v['message']), f, indent=1)
        print('{} violated by test "{}": {}'.format(pid, name, v['message'][:3000]))
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if errors:
        print('CHECK ERROR ({}):\n{}'.format(pid, '\n---\n'.join(errors[:3])), file=sys.stderr)
        return 2
    if ev['coverage']['distinct_nontrivial'] < 2:
        print('CHECK ERROR ({}): vacuous run'.format(pid), file=sys.stderr)
        return 2
    print('{} held: {} cases, {} distinct non-trivial, {:.1f} s'.format(
        pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


def replay(pid, path, known):
    from vf import worker
    rec = json.load(open(path))
    mod = importlib.import_module('vf.checks.' + pid.lower())
    test = {t.name: t for t in mod.TESTS}[rec['test']]
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        ctx, viol, err = worker.execute(test, rec['case'], sorted(known))
    if err:
        print(err, file=sys.stderr)
        return 2
    if viol:
        print(viol)
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    print('replay: property holds for this case')
    return 0


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(HERE, 'vendor'))
    sys.path.insert(0, os.environ.get('VF_REPO', '/repo'))
    sys.exit(main())
