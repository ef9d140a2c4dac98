from .. import gen as G, common as C, pat
from amara3.uxml import treeutil as U
RULE = 'all patterns of up to 3 (thorough: 4) steps against a set of trees, and random patterns of up to 5 steps against random trees over 3 names up to depth 7; also reuse of the tree. Non-trivial: something is selected.'
QUICK, THOROUGH = 200000, 1000000
def fixed():
    import random
    rng = random.Random(5)
    return [G.rand_tree(rng, depth=6, maxkids=3, names=['a', 'b'], text=G.small_text, textp=.2, attrs=False) for _ in range(25)]
def exhaustive(tier):
    for m in fixed():
        if sum(1 for _ in G.nodes(m)) < 6: continue
        for p in pat.all_patterns(4 if tier == 'thorough' else 3): yield [m, p]
    for m, p in pat.long_cases(): yield [m, p]
def random_case(rng):
    wide = rng.random() < .15
    if rng.random() < .004: return list(pat.deep(rng, ['a', 'b', 'c']))
    m, p = [G.rand_tree(rng, depth=rng.choice([3, 5, 7]), maxkids=3, names=pat.DOCW if wide else ['a', 'b', 'c'], text=G.small_text, textp=.2, attrs=False), pat.rand_pattern(rng, *[pat.WIDE] * wide)]
    return [m, pat.tame(m, p)]
def check(case): return check1(case[0], C.build(case[0], 'b' if len(repr(case)) % 3 == 0 else None), case[1])
@C.twice
def check1(m, top, p):
    exp = [C.at(top, ix) for ix in pat.outermost(m, p, False)]
    for _ in range(2):
        got = list(U.select_pattern(top, pat.real(p)))
        if len(exp) != len(got) or any(a is not b for a, b in zip(exp, got)):
            return 'pattern %s: expected %s, got %s' % (p, C.short([[e.xml_name, pathof(e)] for e in exp]), C.short([[getattr(e, 'xml_name', e), pathof(e)] for e in got]))
    # iterators over the same tree that take turns
    q = ['*', p[-1]]
    exq = [C.at(top, ix) for ix in pat.outermost(m, q, False)]
    gots = C.together(*[U.select_pattern(top, pat.real(x)) for x in (p, q, p)])
    for x, want, got in zip((p, q, p), (exp, exq, exp), gots):
        if len(want) != len(got) or any(a is not b for a, b in zip(want, got)):
            return 'pattern %s, taking turns with %s: expected %s, got %s' % (x, q, C.short([[e.xml_name, pathof(e)] for e in want]), C.short([[getattr(e, 'xml_name', e), pathof(e)] for e in got]))
    return C.diff('tree afterwards', m, C.model(top))
def pathof(e):
    out = []
    while e.xml_parent is not None:
        out.append([i for i, c in enumerate(e.xml_parent.xml_children) if c is e][0]); e = e.xml_parent
    return out[::-1]
def nontrivial(case): return bool(pat.outermost(case[0], case[1], False))
