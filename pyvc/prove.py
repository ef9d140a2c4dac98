'''python3-vt -m pyvc.prove PROP TIER SCRATCH: verify every function under contract for PROP; prints one line of JSON.
python3-vt -m pyvc.prove --all ROOT [PATTERN [CASE]]: the same for people.'''
import sys, os, json, time, importlib, pkgutil
import multiprocessing as mp
import multiprocessing.connection as mpc
import z3
from .core import Program
from .task import Task
def load():
    import contracts
    out = []
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        mod = importlib.import_module('contracts.' + m)
        out.extend(getattr(mod, 'CONTRACTS', []))
    return out
def table(cs):
    # at call sites: contracts that say what a call does
    return {c.name: c for c in cs if not getattr(c, 'checkonly', False)}
EMPTY = {'error': None, 'obs': [], 'invs': [], 'solver_s': 0, 'queries': 0, 'paths': 0, 'ends': 0, 'reached': 0, 'restarts': 0, 'sat_pre': None, 'used': [], 'inlined': [], 'wall': 0}
def one(root, name, idx, case, limit):
    cs = load(); c = cs[idx]
    t = Task(Program(root), table(cs), c, case, limit).verify()
    invs = sorted('%s#%s/invariant of the loop at line %s kept' % (t.name, '.'.join(str(int(d)) for d in ds) or '-', next((y for y in flat(k) if isinstance(y, int)), '?')) for k, ds in t.obs_inv)
    return {'name': t.name, 'function': c.name, 'idx': idx, 'error': t.error, 'obs': [(o.name, o.status, o.backend, round(o.time, 3), o.model, o.exact, o.kind) for o in t.obs], 'invs': invs, 'solver_s': t.solver_s, 'queries': t.queries,
        'paths': t.paths, 'ends': t.ends, 'reached': t.reached, 'restarts': t.restarts, 'sat_pre': t.sat_pre, 'used': sorted(t.used), 'inlined': sorted(t.inlined), 'wall': round(getattr(t, 'wall', 0), 2), 'assumes': list(getattr(c, 'assumes', ()))}
def flat(k):
    for x in k:
        if isinstance(x, tuple): yield from flat(x)
        else: yield x
def star(a):
    try: return one(*a)
    except Exception as e: return dict(EMPTY, name=a[1], function=a[1], idx=a[2], error='crash: %r' % e, assumes=[])
def jobs(js, deadline, n=8):
    'one process for each job, so that one cannot disturb another; yields (index, result)'
    js = list(enumerate(js))[::-1]; live = {}
    while js or live:
        while js and len(live) < n:
            i, j = js.pop(); r, w = mp.Pipe(False)
            pid = os.fork()
            if pid == 0:
                try: r.close(); w.send(star(j)); w.close()
                except BaseException as e:
                    try: w.send(dict(EMPTY, name=j[1], function=j[1], idx=j[2], error='crash: %r' % e, assumes=[]))
                    except BaseException: pass
                os._exit(0)
            w.close(); live[r] = (pid, i, j, min(deadline, time.time() + 2 * j[4] + 60))
        for r in mpc.wait(list(live), 1):
            pid, i, j, d = live.pop(r)
            try: res = r.recv()
            except (EOFError, OSError): res = dict(EMPTY, name=j[1], function=j[1], idx=j[2], error='the verifier stopped', assumes=[])
            r.close(); os.waitpid(pid, 0)
            yield i, res
        for r, (pid, i, j, d) in list(live.items()):
            if time.time() > d:
                os.kill(pid, 9); os.waitpid(pid, 0); del live[r]; r.close()
                yield i, dict(EMPTY, name=j[1], function=j[1], idx=j[2], error='time limit', assumes=[])
def main():
    if sys.argv[1] == '--all':
        root = sys.argv[2]; pat = sys.argv[3] if len(sys.argv) > 3 else ''
        sel = [(root, c.name, i, case, 120) for i, c in enumerate(load()) for case in c.cases if pat in c.name and (len(sys.argv) < 5 or str(case) == sys.argv[4])]
        if (os.environ.get('PYVC_DEBUG') or len(sel) == 1) and not os.environ.get('PYVC_PAR'): rs = map(star, sel)
        else: rs = (r for _, r in jobs(sel, time.time() + 7200))
        nok = n = 0
        for r in rs:
            bad = [o for o in r['obs'] if o[1] != 'discharged']
            n += 1; nok += not (bad or r['error'])
            print('%-55s %s  obligations %d inv %d paths %d/%d restarts %d %.1fs' % (r['name'], 'ERROR ' + r['error'] if r['error'] else ('FAILED %s' % [(o[0].split('#')[1], o[1], o[5]) for o in bad] if bad else 'ok'), len(r['obs']), len(r['invs']), r['ends'], r['paths'], r['restarts'], r['wall']), flush=True)
        print('%d of %d verified' % (nok, n))
        return
    prop, tier, scratch = sys.argv[1:4]
    t0 = time.time(); quick = tier == 'quick'
    cs = load(); limit = 150 if quick else 600; deadline = t0 + (420 if quick else 2400)
    todo = [i for i, c in enumerate(cs) if prop in c.props]
    seen = set(todo); results = []; late = []
    byname = {c.name: i for i, c in enumerate(cs) if not getattr(c, 'checkonly', False)}
    while todo:
        js = [(scratch, cs[i].name + ('[%s]' % case if case is not None else ''), i, case, limit) for i in todo for case in cs[i].cases]
        todo = []; got = {}
        for i, r in jobs(js, deadline):
            got[i] = r
            # callees are part of the argument: their contracts are verified as well
            for u in r['used']:
                k = byname.get(u)
                if k is not None and k not in seen: seen.add(k); todo.append(k)
        results.extend(r for _, r in sorted(got.items()))
    obs = [(o, r) for r in results for o in r['obs']]
    invs = [x for r in results for x in r['invs']]
    by = {}
    for o, r in obs:
        if o[1] == 'discharged': by[o[2]] = by.get(o[2], 0) + 1
    if invs: by['z3'] = by.get('z3', 0) + len(invs)
    refuted = [{'name': o[0], 'kind': o[6], 'counterexample': o[4]} for o, r in obs if o[1] == 'refuted' and o[5] and not r['error']]
    undecided = sorted({o[0] for o, r in obs if o[1] != 'discharged' and not (o[1] == 'refuted' and o[5] and not r['error'])})
    unsupported = ['%s: %s' % (r['name'], r['error']) for r in results if r['error']]
    inl = sorted({x for r in results for x in r['inlined']})
    lst = [{'name': o[0], 'kind': o[6], 'status': o[1], 'by': o[2], 's': o[3]} for o, r in obs] + [{'name': x, 'kind': 'invariant', 'status': 'discharged', 'by': 'z3'} for x in invs]
    print(json.dumps({'obligations': len(obs) + len(invs), 'discharged': sum(o[1] == 'discharged' for o, r in obs) + len(invs), 'checker_cmd': 'python3-vt -m pyvc.prove %s %s <scratch copy of /repo/pylib as amara3>' % (prop, tier),
        'trusted_base': TRUSTED, 'functions': [{'contract': r['name'], 'verified': not r['error'] and all(o[1] == 'discharged' for o in r['obs']), 'obligations': len(r['obs']) + len(r['invs']), 'paths': r['paths'], 'wall_s': r['wall'], 'inlined': [x for x in r['inlined'] if x != r['function']]} for r in results],
        'undecided': undecided, 'unsupported': unsupported, 'by_backend': by, 'solver_s': round(sum(r['solver_s'] for r in results), 2), 'solver_queries': sum(r['queries'] for r in results),
        'vacuity_checks': {'preconditions_satisfiable': sum(r['sat_pre'] == 'sat' for r in results), 'preconditions_not_refuted': sum(r['sat_pre'] in ('sat', 'unknown') for r in results), 'contracts': len(results), 'path_ends': sum(r['ends'] for r in results), 'path_ends_reachable': sum(r['reached'] for r in results)},
        'refuted': refuted, 'assumptions': sorted({a for r in results for a in r['assumes']}) + ASSUME, 'obligation_list': lst[:600]}))
TRUSTED = ['z3 (satisfiability modulo theories)', 'pyvc: the translation of the Python constructs used (pyvc/core.py, interp.py, exec.py) into path conditions and heap updates',
    'pyvc/builtins_.py and theory.py: what built-in functions, list, dict and str methods and the library functions used do', 'homomorphism and recursion axioms of the specification functions (conservative definitions, unfolded on demand)']
ASSUME = ['integers are mathematical; memory and recursion depth suffice', 'trees given as input are trees: finite, no sharing, parent links as C08 keeps them, children are elements or text', 'weak references stay alive during a call', 'no other thread changes the data']
if __name__ == '__main__': main()
