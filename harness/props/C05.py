import copy
from .. import gen as G, common as C
RULE = 'random documents, trees compared with the tree the document was written from, with parent links; sequences of 1-5 parses (well-formed, malformed, truncated documents) with one builder compared with fresh builders, earlier trees compared with their snapshots. Non-trivial: more than one element or more than one parse.'
QUICK, THOROUGH = 96000, 500000
def exhaustive(tier):
    for m, d in G.long_docs(): yield [[m, d]]
def random_case(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        r = rng.random()
        if r < .75:
            m, d = G.rand_doc(rng, depth=rng.choice([1, 2, 4]), maxkids=rng.choice([2, 4]))
            out.append([m, d])
        else:
            d = G.malformed(rng)[1]
            if r > .9:
                d = G.rand_doc(rng, depth=2)[1]; d = d[:rng.randint(0, len(d))]
            out.append([None, d])
    return out
def attempt(f):
    try: return f(), None
    except (C.Hang, MemoryError): raise
    except Exception as e: return None, type(e).__name__
def check(case):
    tb = C.tree.treebuilder()
    earlier = []; fresh = []
    for m, d in case:
        t1, x1 = attempt(lambda: tb.parse(d))
        t2, x2 = attempt(lambda: C.tree.parse(d))
        if (x1 is None) != (x2 is None): return 'reused builder: %s, fresh: %s' % (x1 or 'accepts', x2 or 'accepts')
        m1, m2 = (None if t is None else C.model(t) for t in (t1, t2))
        if m1 != m2: return C.diff('tree of a reused builder', m2, m1)
        if m is not None:
            if x1: return 'well-formed document rejected with %s' % x1
            exp = G.merged(m)
            r = C.diff('tree', exp, m1) or C.links(t1) or C.links(t2) or C.own(t1) or C.own(t2)
            if r: return r
        if t1 is not None: earlier.append((t1, m1, m is not None))
        if t2 is not None: fresh.append((d, t2, m2, m is not None))
    for t, mm, ok in earlier:
        r = C.diff('tree built earlier', mm, C.model(t)) or (ok and C.links(t))
        if r: return r
    # a tree belongs to whoever parsed it: editing it changes neither other trees nor what the same document gives later
    for k, (d, t, mm, ok) in enumerate(fresh):
        if not isinstance(t, C.tree.element): continue
        u = copy.deepcopy(mm); C.edit(u, t, k); fresh[k] = (d, t, u, ok)
        r = C.diff('edited tree', u, C.model(t))
        if r: return r
        again = attempt(lambda: C.tree.parse(d))[0]
        r = C.diff('tree of a document parsed again after the first tree was edited', mm, None if again is None else C.model(again)) or ok and C.links(again)
        if r: return r
    for t, mm, ok in earlier + [x[1:] for x in fresh]:
        r = C.diff('tree after another tree was edited', mm, C.model(t)) or (ok and C.links(t))
        if r: return r
def nontrivial(case): return len(case) > 1 or bool(case[0][0] and case[0][0][2])
