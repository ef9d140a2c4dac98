import re
from .. import gen as G, common as C
from amara3.uxml import treeutil as U
RULE = 'all trees of up to 5 (thorough: 6) nodes and random ones with equal text siblings; every node as starting point; names, patterns, values and attributes both present and absent; sources given as element, list or iterator. Non-trivial: the tree has at least three nodes.'
QUICK, THOROUGH = 24000, 250000
PATS = ['a', 'b', '.', '', 'a$', '[ab]', 'x|c', '.b', '^.?$']
def exhaustive(tier):
    for n in range(1, 7 if tier == 'thorough' else 6):
        yield from G.small_trees(n, ('a', 'b'), ('t',))
    for k in G.sizes(2, 300):
        n = 'n' * k
        yield ['a', [[n, 't' * k]], [[n, [[n + 'n', 't' * (k + 1)]], ['t' * k]], [n + 'n', [], ['t' * k, ['b', [], []]]], 't' * k]]
        if k <= 130:
            yield ['a', [], [['bc'[i % 3 == 0], [['n%d' % (i % 3), 'v']], ['t'] if i % 5 else []] for i in range(k)]]
            yield ['a', [], [x for i in range(k) for x in ('t', ['b', [], []])]]
            m = ['z', [], ['t']]
            for i in range(k): m = ['bc'[i % 3 == 0], [['n', 'v']] if i % 4 == 0 else [], [m, 'u'][:1 + (i % 7 == 0)]]
            yield m
            yield ['a', [['n%d' % i, str(i % 7)] for i in range(k)], [['b', [['n%d' % i, str(i % 7)] for i in range(k)][::-1], []], 't']]
def random_case(rng):
    return G.rand_tree(rng, depth=rng.choice([2, 3, 5]), maxkids=4, names=['a', 'b', 'c', 'ab'] if rng.random() < .8 else None, text=G.small_text, cap=25)
def same(what, exp, got):
    got = list(got)
    if len(exp) != len(got) or any(a is not b for a, b in zip(exp, got)):
        return '%s: expected %s, got %s' % (what, C.short(exp, 250), C.short(got, 250))
def check(m): return check1(m, C.build(m, SUBS[len(repr(m)) % len(SUBS)]))
SUBS = [None, 'b', 'ab']
@C.twice
def check1(m, top):
    pairs = list(C.walk(m, top))
    names = sorted({x[0] for x, _ in pairs if not isinstance(x, str)}) 
    names += ['zz', '#text', '|'.join(names[:2]), names[0] + '|zz', names[0].swapcase(), names[-1] + 'z', '*', '']
    vals = sorted({G.value(x) for x, _ in pairs}) + ['zz']
    attrs = sorted({(a, v) for x, _ in pairs if not isinstance(x, str) for a, v in x[1]}) + [('zz', '1')]
    attrs += [(a, v + 'z') for a, v in attrs[:2]] + [(a, '') for a, v in attrs[:2]]
    isel = lambda n: isinstance(n, C.tree.element)
    if len(pairs) > 40 or len(attrs) > 40:
        # every node of a large tree against every name and value takes too long
        few = lambda xs: [xs[i] for i in sorted({0, 1, len(xs) // 2, len(xs) - 2, len(xs) - 1}) if i < len(xs)]
        starts, vals, attrs = few(pairs)[::2] + [(m, top)], few(vals), few(attrs)
    else: starts = pairs
    for x, n in starts:
        if n.xml_parent is not None:
            sib = n.xml_parent.xml_children
            i = [k for k, s in enumerate(sib) if s is n][0]
            r = same('following_siblings', sib[i + 1:], U.following_siblings(n))
            if r: return r
        if isinstance(x, str): continue
        below = list(C.walk(x, n))[1:]
        r = same('descendants', [k for _, k in below if isel(k)], U.descendants(n))
        if r: return r
        allnodes = [k for _, k in below] + [n]
        for kind, items in (('element', list(zip(x[2], n.xml_children))), ('list', below), ('iter', below[::-1] + [(x, n)]), ('tuple', list(zip(x[2], n.xml_children)))):
            src = (lambda: n) if kind == 'element' else (lambda: [k for _, k in items]) if kind == 'list' else (lambda: iter([k for _, k in items])) if kind == 'iter' else (lambda: tuple(k for _, k in items))
            ems = [(a, b) for a, b in items if isel(b)]
            r = same('select_elements from ' + kind, [b for a, b in ems], U.select_elements(src()))
            if r: return r
            for nm in names:
                r = same('select_name(%r) from %s' % (nm, kind), [b for a, b in ems if a[0] == nm], U.select_name(src(), nm))
                if r: return r
            for p in PATS:
                pc = re.compile(p)
                r = same('select_name_pattern(%r)' % p, [b for a, b in ems if pc.match(a[0])], U.select_name_pattern(src(), pc))
                if r: return r
            for v in vals:
                r = same('select_value(%r) from %s' % (v, kind), [b for a, b in ems if G.value(a) == v], U.select_value(src(), v))
                if r: return r
            for an, av in attrs:
                r = same('select_attribute(%r)' % an, [b for a, b in ems if an in dict(map(tuple, a[1]))], U.select_attribute(src(), an)) or \
                    same('select_attribute(%r, %r)' % (an, av), [b for a, b in ems if dict(map(tuple, a[1])).get(an, None) == av], U.select_attribute(src(), an, av))
                if r: return r
    # iterators over the same tree that take turns, after one that was given up half-way
    part = iter(U.descendants(top)); next(part, None)
    below, nm = [(a, b) for a, b in pairs[1:] if isel(b)], names[0]
    ab = [(x, n) for x, n in zip(m[2], top.xml_children) if isel(n)]
    runs = [('descendants', [b for _, b in below], lambda: U.descendants(top)), ('descendants', [b for _, b in below], lambda: U.descendants(top)), ('select_elements', [b for _, b in ab], lambda: U.select_elements(top))]
    for nm in (names[0], 'zz', names[-1]): runs.append(('select_name(%r)' % nm, [b for a, b in below if a[0] == nm], lambda nm=nm: U.select_name(U.descendants(top), nm)))
    for v in (vals[0], vals[-1]): runs.append(('select_value(%r)' % v, [b for a, b in below if G.value(a) == v], lambda v=v: U.select_value(U.descendants(top), v)))
    for an, av in (attrs[0], attrs[-1]): runs.append(('select_attribute(%r, %r)' % (an, av), [b for a, b in below if dict(map(tuple, a[1])).get(an, None) == av], lambda an=an, av=av: U.select_attribute(U.descendants(top), an, av)))
    for an, av in (attrs[0], attrs[-1]): runs.append(('select_attribute(%r)' % an, [b for a, b in below if an in dict(map(tuple, a[1]))], lambda an=an: U.select_attribute(U.descendants(top), an)))
    for p in PATS[:2]: runs.append(('select_name_pattern(%r)' % p, [b for a, b in below if re.match(p, a[0])], lambda p=p: U.select_name_pattern(U.descendants(top), re.compile(p))))
    for n in (top.xml_children[:1] + top.xml_children[-1:]): runs.append(('following_siblings', top.xml_children[[k is n for k in top.xml_children].index(True) + 1:], lambda n=n: U.following_siblings(n)))
    gots = C.together(*[f() for _, _, f in runs])
    for (w, a, _), b in zip(runs, gots):
        r = same(w + ', taking turns with others', a, b)
        if r: return r
    r = same('descendants, taken up again', [b for _, b in below][1:], part)
    if r: return r
    return C.diff('tree afterwards', m, C.model(top)) or C.links(top)
def nontrivial(m): return sum(1 for _ in G.nodes(m)) > 2
