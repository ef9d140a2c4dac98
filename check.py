#!/usr/bin/env python3
'''check.py PROPERTY: decide one property on /repo's current working tree (see DESIGN.md).
Environment: VERIF_TIER (quick/thorough), VERIF_SEED, VERIF_REPO (default /repo).
Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
check.py --replay FILE: run the case of a replay file again.'''
import sys, os, json, time, tempfile, shutil, subprocess
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'          # what the repository's tests run with
DEEP_S = 180
VT = 'python3-vt'                    # z3
def sh(cmd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'); e.pop('PYTHONPATH', None); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err
def last_json(out):
    for line in reversed((out or '').strip().splitlines()):
        try: return json.loads(line)
        except ValueError: continue
def copy_package(scratch):
    shutil.copytree(os.path.join(REPO, 'pylib'), os.path.join(scratch, 'amara3'), ignore=shutil.ignore_patterns('__pycache__', 'parsetab.py', 'parser.out', '*.pyc'))
def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2])); prop = rp['property']
        if 'case' not in rp: print(json.dumps(rp, indent=1)); return 0
    else: prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    meta = next(json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl')) if json.loads(l)['id'] == prop)
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        copy_package(scratch)
        hcmd = [PY, '-B', '-m', 'harness.runner', prop, tier, str(seed), scratch]
        if sys.argv[1] == '--replay':
            rc, out, err = sh(hcmd + [sys.argv[2]], 120); r = last_json(out)
            print(r and r.get('detail')); return 1 if r and r.get('detail') else 0
        # 1. the verifier: every obligation generated from the current source
        proof = None
        if os.path.exists(os.path.join(VERIF, 'pyvc', 'prove.py')):
            rc, out, err = sh([VT, '-B', '-m', 'pyvc.prove', prop, tier, scratch], 600 if tier == 'quick' else 3000)
            proof = last_json(out)
            if proof is None: proof = {'error': (err or '')[-2000:] or 'no answer'}
        # 2. the bounded stand-in, also the source of failing inputs
        rc, out, err = sh(hcmd, 700 if tier == 'quick' else 3000)
        h = last_json(out)
        if not h or 'evaluations' not in h:
            print('check of %s could not run: %s %s' % (prop, (h or {}).get('error'), (err or '')[-2000:]), file=sys.stderr)
            return 3
        # 3. obligations that do not go through: look longer for an input that shows why
        if proof and tier == 'quick' and not h['fails'] and not h.get('error') and (proof.get('refuted') or proof.get('undecided') or proof.get('unsupported') or proof.get('error')):
            left = 780 - (time.time() - t0)
            if left > 30:
                d = str(min(DEEP_S, left - 20))
                rc, out, err = sh(hcmd[:-2] + [str(seed + 1), scratch], left, {'VERIF_DEEP': '1', 'VERIF_BUDGET': d})
                h2 = last_json(out)
                if h2 and 'evaluations' in h2 and not h2.get('error'):
                    for k in ('evaluations', 'distinct_nontrivial', 'exhaustive_cases'): h[k] += h2[k]
                    h['wall'] = round(h['wall'] + h2['wall'], 1); h['fails'] += h2['fails']; h['known'].update(h2['known'])
        return report(prop, meta, tier, seed, proof, h, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)
def replay_file(prop, data):
    d = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s.json' % prop)
    with open(f, 'w') as fp: json.dump(data, fp, indent=1)
    return os.path.relpath(f, VERIF)
def report(prop, meta, tier, seed, proof, h, t0):
    known = {}
    for l in open(os.path.join(VERIF, 'known_findings.jsonl')):
        l = l.strip()
        if l.startswith('{'):
            k = json.loads(l)
            if k.get('property') == prop and k.get('kind') == 'finding': known[k['id']] = k
    fails = list(h['fails'])
    for k, v in h['known'].items():
        if k in known: print('KNOWN-FINDING: property=%s %s (for example %s)' % (prop, known[k]['what'], json.dumps(v['case'])))
        else: fails.append(v)
    viol, lines = 0, []
    refuted = (proof or {}).get('refuted', [])
    if fails:
        viol = len(fails)
        f = replay_file(prop, {'property': prop, 'case': fails[0]['case'], 'detail': fails[0]['detail'], 'more': fails[1:], 'failed_obligations': refuted, 'how': 'python3 check.py --replay <this file>'})
        lines += ['%s: %s' % (prop, fails[0]['detail'].replace('\n', '\\n')), 'VIOLATION property=%s replay=%s' % (prop, f)]
    elif refuted:
        viol = len(refuted)
        f = replay_file(prop, {'property': prop, 'failed_obligations': refuted, 'how': 'python3-vt -m pyvc.prove %s' % prop})
        lines += ['%s: obligation fails: %s' % (prop, refuted[0].get('name')), 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, f)]
    cov = {'evaluations': h['evaluations'], 'distinct_nontrivial': h['distinct_nontrivial'], 'rule': 'BOUNDED STAND-IN (not counted as proved): ' + h['rule'], 'samples': h['samples'] or ['none'],
        'bounded_exhaustive_cases': h['exhaustive_cases'], 'bounded_exhaustive_part_completed': h['exhaustive_done'], 'bounded_wall_s': h['wall']}
    sys.path.insert(0, os.path.join(VERIF, 'tools')); from levels import LEVELS
    level = 'exploration'; assumptions = ['the bounded stand-in checks only the inputs it generates']
    if proof and proof.get('obligations'):
        if not (refuted or proof.get('undecided') or proof.get('unsupported')): level = LEVELS[prop][0]
        for k in ('obligations', 'discharged', 'checker_cmd', 'trusted_base', 'functions', 'undecided', 'unsupported', 'by_backend', 'solver_s', 'vacuity_checks', 'lemmas', 'obligation_list'):
            if k in proof: cov[k] = proof[k]
        cov['refuted'] = [r.get('name') for r in refuted]
        assumptions = proof.get('assumptions', []) + assumptions
    elif proof: cov['verifier_error'] = proof.get('error', '')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fp: json.dump(ev, fp, indent=1)
    if h.get('error') and not lines:
        print('check of %s: %s' % (prop, h['error']), file=sys.stderr); return 3
    for l in lines: print(l)
    if not lines:
        s = '%s: held; bounded: %d cases' % (prop, h['evaluations'])
        if proof: s += '; verifier: %s of %s obligations discharged%s' % (proof.get('discharged', 0), proof.get('obligations', 0), ', not within reach: ' + ', '.join(proof['unsupported']) if proof.get('unsupported') else '')
        print(s)
    return 1 if lines else 0
if __name__ == '__main__': sys.exit(main())
