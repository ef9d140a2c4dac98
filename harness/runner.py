'''python -m harness.runner PROPERTY TIER SEED SCRATCH [CASEFILE]
Runs with the interpreter that the code under test runs with; SCRATCH holds a copy of /repo's package. Prints one JSON object.'''
import sys, os, json, time, random, importlib, signal, resource, hashlib, traceback, itertools
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    prop, tier, seed, scratch = sys.argv[1:5]
    seed = int(seed)
    sys.path[:0] = [scratch, VERIF]
    os.environ.pop('PYTHONPATH', None)
    sys.setrecursionlimit(3000)
    t0 = time.time()
    try:
        mod = importlib.import_module('harness.props.' + prop)
        import amara3.uxml.tree
        if prop in ('C15', 'C16', 'C17', 'C18'): import amara3.uxml.uxpath   # once, because this writes parser tables
        assert amara3.uxml.tree.__file__.startswith(scratch), amara3.uxml.tree.__file__
    except Exception:
        print(json.dumps({'error': 'cannot load: ' + traceback.format_exc()})); return 3
    from harness import common, gen
    gen.harvest(os.path.join(scratch, 'amara3', 'uxml'))
    if len(sys.argv) > 5:
        case = json.load(open(sys.argv[5]))['case']
        print(json.dumps({'detail': one(mod, case, common)})); return 0
    budget = float(os.environ.get('VERIF_BUDGET', 45 if tier == 'quick' else 600))
    deep = os.environ.get('VERIF_DEEP') == '1'
    W = int(os.environ.get("VERIF_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    kids = []
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            try: out = work(mod, deep, tier, seed, w, W, t0 + budget, common)
            except BaseException: out = {'error': traceback.format_exc()}
            with os.fdopen(wr, 'w') as f: json.dump(out, f)
            os._exit(0)
        os.close(wr); kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r) as f: s = f.read()
        os.waitpid(pid, 0)
        res.append(json.loads(s) if s else {'error': 'worker died'})
    errs = [x['error'] for x in res if 'error' in x]
    res = [x for x in res if 'error' not in x]
    fails = sorted((f for x in res for f in x['fails']), key=lambda f: len(json.dumps(f['case'])))
    known = {}
    for x in res: known.update(x['known'])
    out = {'evaluations': sum(x['n'] for x in res), 'exhaustive_cases': sum(x['ex'] for x in res), 'exhaustive_done': all(x['exdone'] for x in res),
        'distinct_nontrivial': sum(x['nt'] for x in res), 'fails': fails[:5], 'known': known, 'samples': [s for x in res for s in x['samples']][:6], 'rule': mod.RULE, 'slowest_s': round(max(x['slow'] for x in res), 2) if res else None, 'wall': round(time.time() - t0, 1)}
    if errs: out['error'] = errs[0]
    print(json.dumps(out)); return 0
def one(mod, case, common):
    try: return common.guarded(lambda: mod.check(case), 20)
    except common.Hang as e: return 'no answer within 20 s'
    except MemoryError: return 'runs out of memory (3 GB)'
    except RecursionError: return 'RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'unexpected %s: %s at %s' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))
import multiprocessing
found = multiprocessing.Value('d', 0, lock=False)     # when a worker found the first failing input
def work(mod, deep, tier, seed, w, W, deadline, common):
    rng = random.Random('%s/%d/%d' % (mod.__name__, seed, w))
    n = nt = ex = slow = 0; fails, known, samples, seen = [], {}, [], set()
    exdone = False
    def cases():
        nonlocal ex, exdone
        exh = (c for i, c in enumerate(mod.exhaustive('thorough' if deep else tier)) if i % W == w)
        rnd = (mod.random_case(rng) for _ in range((mod.THOROUGH if deep else mod.QUICK if tier == 'quick' else mod.THOROUGH) // W))
        if deep:
            # both in turn
            for a, b in itertools.zip_longest(exh, rnd):
                if a is not None: ex += 1; yield a
                if b is not None: yield b
            return
        for c in exh: ex += 1; yield c
        exdone = True
        yield from rnd
    for c in cases():
        if time.time() > deadline or found.value and time.time() > found.value + 1: break
        c = json.loads(json.dumps(c))
        n += 1
        h = hashlib.blake2b(json.dumps(c).encode(), digest_size=8).digest()
        if h not in seen and len(seen) < 2000000:
            seen.add(h)
            if mod.nontrivial(c): nt += 1
        t1 = time.process_time(); r = one(mod, c, common); slow = max(slow, time.process_time() - t1)
        if r and r.startswith('KNOWN:'): known.setdefault(r[6:].split(':')[0], {'case': c, 'detail': r[6:].split(':', 1)[1]}); r = None
        if r:
            fails.append({'case': c, 'detail': r}); found.value = found.value or time.time()
            if len(fails) >= 3: break
        if n in (7, 400, 1500): samples.append(c)
    return {'n': n, 'nt': nt, 'ex': ex, 'exdone': exdone, 'fails': fails, 'known': known, 'samples': samples, 'slow': slow}
if __name__ == '__main__': sys.exit(main())
