from .. import gen as G, common as C
RULE = 'all trees of up to 5 (thorough: 7) nodes over two names and two texts, and random deeper ones; value of every node by both computations. Non-trivial: some text below an element below the root.'
QUICK, THOROUGH = 80000, 400000
def exhaustive(tier):
    for n in range(1, 7 if tier == 'thorough' else 6):
        yield from G.small_trees(n, ('a',), ('t', 'u'))
    yield from (m for m in G.long_models(depth=100, wide=150) if G.value(m))
def random_case(rng): return G.rand_tree(rng, depth=rng.choice([2, 3, 6]), maxkids=4)
def check(m): return check1(m, C.build(m))
@C.twice
def check1(m, e):
    for mm, n in C.walk(m, e):
        v = G.value(mm)
        r = C.diff('xml_value', v, n.xml_value) or C.diff('strval', v, C.tree.strval(n))
        if r: return r
    return C.diff('tree afterwards', m, C.model(e))
def nontrivial(m): return any(not isinstance(c, str) and G.value(c) for c in m[2])
