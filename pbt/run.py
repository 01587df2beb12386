"""Runner.  python -B run.py C01 [--tier quick|thorough] [--replay FILE]
Parent: splits the work over processes with seeds derived from VERIF_SEED, merges, writes the
evidence file, prints KNOWN-FINDING / VIOLATION lines.  Exit 0 held, 1 violated, 2 harness error."""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa

FINDINGS_FILE = os.path.join(boot.VERIF, 'known_findings.txt')


def load_findings(pid):
    """lines 'known: property=C01 id=F1 text' (fixed: lines suppress nothing)"""
    out = {}
    if os.path.exists(FINDINGS_FILE):
        for line in open(FINDINGS_FILE, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known:'):
                parts = line[6:].split(None, 2)
                if parts[0] == 'property=' + pid:
                    out[parts[1].split('=', 1)[1]] = parts[2]
    return out


def load(pid):
    boot.setup()
    return importlib.import_module('props.' + pid.lower())


def scaled(n, k, of):
    return n // of + (1 if k < n % of else 0)


def worker(pid, tier, k, of, outdir, seed, budget):
    t0 = time.time()
    mod = load(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 90
    from harness import Ctx, Violation, case_key, run_case
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = outdir
    findings = load_findings(pid)
    res = {'checks': {}, 'violations': [], 'known': {}, 'error': None}

    if k == 0:
        for fid, wit in getattr(mod, 'WITNESS', {}).items():
            ctx = Ctx(findings)
            ctx.begin()
            if fid in findings:
                wit(ctx)
                for f, n in ctx.known_hits.items():
                    res['known'][f] = res['known'].get(f, 0) + n

    for chk in mod.CHECKS:
        total = chk.quick if tier == 'quick' else chk.thorough
        n = scaled(total, k, of)
        ctx = Ctx(findings)
        st = {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'skipped': 0}
        last = {}
        first = [k > 0]        # every worker is offered the simplest case first; one of them runs it

        def one(case):
            if first[0]:
                first[0] = False
                return
            if time.time() - t0 > budget and not last:
                st['skipped'] += 1
                return
            st['evaluations'] += 1
            key = case_key(case)
            try:
                run_case(chk, case, ctx)
            except Violation as e:
                last['case'], last['msg'] = case, str(e)
                raise
            for lab in ctx._case_labels:
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if ctx._nontrivial:
                st['nontrivial'].add(key)
                if len(st['samples']) < 2:
                    st['samples'].append(case)

        try:
            if k == 0:
                for case in chk.fixed:
                    one(case)
            if n:
                test = settings(max_examples=n + (1 if k else 0), database=None, deadline=None, derandomize=False,
                                report_multiple_bugs=False, print_blob=False,
                                suppress_health_check=list(HealthCheck),
                                phases=(Phase.generate, Phase.shrink))(given(chk.strategy())(one))
                test = hypothesis.seed((seed * 1000003 + hash_name(chk.name)) * 64 + k)(test)
                test()
        except Violation as e:
            res['violations'].append({'check': chk.name, 'case': last['case'], 'msg': last['msg']})
        except Exception as e:  # noqa
            if last and type(e).__name__ in ('FlakyFailure', 'Flaky', 'FlakyReplay', 'FlakyStrategyDefinition'):
                res['violations'].append({'check': chk.name, 'case': last['case'], 'msg': last['msg'] + ' (depends on earlier calls)'})
            else:
                res['error'] = 'check %s: %s' % (chk.name, traceback.format_exc()[-3500:])
        st['nontrivial'] = sorted(st['nontrivial'])
        res['checks'][chk.name] = st
        for f, c in ctx.known_hits.items():
            res['known'][f] = res['known'].get(f, 0) + c
    res['wall'] = time.time() - t0
    with open(os.path.join(outdir, 'w%d.json' % k), 'w') as f:
        json.dump(res, f, default=_plain)


def hash_name(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def _plain(o):
    try:
        return o.item()
    except AttributeError:
        return str(o)


def replay(pid, path):
    mod = load(pid)
    from harness import Ctx, Violation, run_case
    d = json.load(open(path))
    chk = {c.name: c for c in mod.CHECKS}[d['check']]
    ctx = Ctx(load_findings(pid))
    try:
        run_case(chk, d['case'], ctx)
    except Violation as e:
        print('reproduced: %s' % e)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('the case passes')
    return 0


def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUTF8='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--of', type=int, default=8)
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            a.seed = 1
    if a.budget is None:
        a.budget = 420.0 if a.tier == 'quick' else 720.0
    if a.selftest:
        boot.setup()
        import hypothesis
        import heat_load_calc.core.core  # noqa
        print('hypothesis %s and the code under test are importable' % hypothesis.__version__)
        return 0
    if a.pid is None:
        ap.error('which property?')
    if a.worker is not None:
        worker(a.pid, a.tier, a.worker, a.of, a.out, a.seed, a.budget)
        return 0
    if a.replay:
        return replay(a.pid, a.replay)

    t0 = time.time()
    out = tempfile.mkdtemp(prefix='pbt_')
    try:
        return parent(a, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def parent(a, out, t0):
    pid = a.pid
    of = max(1, min(a.of, os.cpu_count() or 1))
    procs = []
    for k in range(of):
        wd = os.path.join(out, 'cwd%d' % k)
        os.mkdir(wd)
        cmd = [sys.executable, '-B', os.path.abspath(__file__), pid, '--worker', str(k), '--of', str(of),
               '--tier', a.tier, '--seed', str(a.seed), '--out', out, '--budget', str(a.budget)]
        procs.append(subprocess.Popen(cmd, cwd=wd, env=child_env(), stdout=subprocess.DEVNULL,
                                      stderr=open(os.path.join(out, 'e%d' % k), 'w')))
    errors, results = [], []
    for k, p in enumerate(procs):
        rc = p.wait()
        f = os.path.join(out, 'w%d.json' % k)
        if rc != 0 or not os.path.exists(f):
            errors.append('worker %d ended with %s: %s' % (k, rc, open(os.path.join(out, 'e%d' % k)).read()[-3000:]))
            continue
        r = json.load(open(f))
        results.append(r)
        if r['error']:
            errors.append(r['error'])

    mod_rules, samples, labels, per = {}, [], {}, {}
    evals, skipped = 0, 0
    nontriv = set()
    for r in results:
        for name, st in r['checks'].items():
            evals += st['evaluations']
            skipped += st['skipped']
            d = per.setdefault(name, {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': []})
            d['evaluations'] += st['evaluations']
            d['nontrivial'].update(st['nontrivial'])
            nontriv.update(name + ':' + x for x in st['nontrivial'])
            for lab, c in st['labels'].items():
                d['labels'][lab] = d['labels'].get(lab, 0) + c
            d['samples'] += st['samples']
    violations = [v for r in results for v in r['violations']]
    known = {}
    for r in results:
        for f, c in r['known'].items():
            known[f] = known.get(f, 0) + c

    findings = load_findings(pid)
    for fid, text in findings.items():
        if known.get(fid):
            print('KNOWN-FINDING: property=%s %s (%s; met by %d generated or fixed cases)' % (pid, text, fid, known[fid]))

    rules = {}
    assumptions = []
    try:
        mod = load(pid)
        rules = {c.name: c.rule for c in mod.CHECKS}
        assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    except Exception:
        errors.append(traceback.format_exc()[-2000:])
    evidence = {
        'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nontriv),
            'rule': '; '.join('%s: %s' % (n, rules.get(n, '')) for n in per),
            'samples': [{'check': n, 'case': s} for n, d in per.items() for s in shorten(d['samples'])],
            'per_check': {n: {'evaluations': d['evaluations'], 'distinct_nontrivial': len(d['nontrivial']),
                              'classes': dict(sorted(d['labels'].items()))} for n, d in per.items()},
            'skipped_for_time': skipped,
            'known_finding_hits': known,
            'workers': of,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=_plain)

    if violations:
        violations.sort(key=lambda v: (v['check'], len(json.dumps(v['case'], default=_plain))))
        seen = set()
        for v in violations:
            if v['check'] in seen:
                continue
            seen.add(v['check'])
            rd = os.path.join(boot.VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s.json' % (pid, v['check']))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'check': v['check'], 'message': v['msg'], 'case': v['case'],
                           'seed': a.seed, 'tier': a.tier}, f, indent=1, default=_plain)
            print('%s/%s: %s' % (pid, v['check'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        for e in errors[:1]:
            print('also a harness error: ' + e[-800:], file=sys.stderr)
        return 1
    if errors:
        print('HARNESS ERROR (%d of %d workers) %s' % (len(errors), of, errors[0][-2500:]), file=sys.stderr)
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s, seed %d%s' % (
        pid, evals, len(nontriv), time.time() - t0, a.seed, ', %d skipped for time' % skipped if skipped else ''))
    return 0


def shorten(samples):
    return samples[:2]


if __name__ == '__main__':
    sys.exit(main())
