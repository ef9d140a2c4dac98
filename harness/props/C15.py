import copy
from .. import gen as G, common as C, xp
RULE = 'every node (root node, elements, texts) of all trees of up to 5 (thorough: 6) nodes with equal texts, and of random trees, as context, times every axis times every node test, evaluated through parsed steps; also attribute nodes as context, with node(). Non-trivial: the tree has at least three nodes.'
QUICK, THOROUGH = 6000, 60000
def exhaustive(tier):
    for n in range(1, 6 if tier == 'thorough' else 5):
        yield from G.small_trees(n, ('a', 'b'), ('t',))
    for m in G.small_trees(5, ('a',), ('t',)): yield m
def random_case(rng):
    names = ['a', 'b', 'c', 'and'] if rng.random() < .8 else ['a', 'b', G.rand_name(rng, 0), G.rand_name(rng, 0)]
    if rng.random() < .1: names = ['a', 'node', 'text', rng.choice(['or', 'div', 'child', 'self', 'comment', 'attribute', 'b'])]
    return G.rand_tree(rng, depth=rng.choice([2, 3, 4]), maxkids=3, names=names, text=G.small_text, stretch=.02, cap=rng.choice([30, 130]))
TESTS = ['a', 'b', '*', 'text()', 'node()']
_parsed = {}
def steps(ax, t):
    from amara3.uxml import uxpath
    if len(_parsed) > 3000: _parsed.clear()
    if (ax, t) not in _parsed: _parsed[ax, t] = uxpath.parse(ax + '::' + t)
    return _parsed[ax, t]
def real_root(top):
    from amara3.uxml.uxpath import context
    return context(top, force_root=True).item
def check(m):
    top = C.build(m)
    r = check1(m, top)
    if not r and sum(1 for _ in G.nodes(m)) < 14:
        m = copy.deepcopy(m); C.edit(m, top, len(repr(m))); r = check1(m, top)
        if r: r = 'after an edit: ' + r
    return r
def check1(m, top):
    from amara3.uxml.uxpath import context
    sn = xp.Snap(top)
    ctxs = [(x, x.real) for x in [sn.root] + list(xp.desc(sn.root))]
    if len(ctxs) > 45: k = len(ctxs); ctxs = [ctxs[i] for i in sorted({0, 1, 2, k // 3, k // 2, 2 * k // 3, k - 3, k - 2, k - 1, min(k - 1, 66)})]
    tests = TESTS + sorted({y.name for x in xp.desc(sn.root) if x.kind == 'e' for y in [x] + x.attrs} - set(TESTS))
    for x, r in ctxs:
        item = real_root(top) if r is None else r
        for ax in xp.AXES:
            for t in tests:
                exp = [n for n in xp.axis(x, ax) if xp.test(n, t, ax)]
                got = [sn.of(i) for i in steps(ax, t).compute(context(item, force_root=False))]
                if not xp.same(exp, got): return '%s::%s from %r: expected %s, got %s' % (ax, t, x, C.short(exp), C.short(got))
        if x.kind == 'e':
            for a, ra in zip(x.attrs, list(steps('attribute', 'node()').compute(context(item, force_root=False)))):
                for ax in xp.AXES:
                    exp = [n for n in xp.axis(a, ax) if xp.test(n, 'node()', ax)]
                    got = [sn.of(i) for i in steps(ax, 'node()').compute(context(ra, force_root=False))]
                    if not xp.same(exp, got): return '%s::node() from %r: expected %s, got %s' % (ax, a, exp, C.short(got))
        for ab, ax in (('.', 'self'), ('..', 'parent')):
            from amara3.uxml import uxpath
            got = [sn.of(i) for i in _parsed.setdefault(ab, uxpath.parse(ab)).compute(context(item, force_root=False))]
            if not xp.same(xp.axis(x, ax), got): return '%s from %r: expected %s, got %s' % (ab, x, xp.axis(x, ax), C.short(got))
    # twice, the same node: identity of nodes yielded is that of the tree
    return C.diff('tree afterwards', m, C.model(top)) or C.links(top)
def nontrivial(m): return sum(1 for _ in G.nodes(m)) > 2
