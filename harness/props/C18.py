import math, itertools
from .. import gen as G, common as C, xp
RULE = 'each function with each argument out of a table (literals, integers, floats including NaN, infinities, negative zero, very large and small, booleans, nodes of all kinds, empty and longer sequences), all pairs for two-argument functions, all texts of up to 3 characters of numerals for number(), plus random texts and numbers; arguments passed as variables, as literals and as paths. Non-trivial: all.'
QUICK, THOROUGH = 160000, 800000
TREE = ['a', [['n', '5'], ['e', '']], ['12', ['b', [], ['3', ['c', [], ['4']]]], ['b', [['k', 'v']], []], ' 7 ', ['d', [], ['x']], 'x', ['d', [], ['x']], '12', 'x']]
VALS = ['', '0', '1', 'a', 'abc', 'bc', ' 12 ', '-5', '1e5', '+1', '1.', '.5', '.', '-', '- 1', '1_0', '0x1', 'inf', 'nan', 'NaN', 'Infinity', 'true', '１', '1\n', '\xa01', '1 2', '--1', '1..2', 'é\U0001F600', '-0', '0.10', '007',
    0, 1, -1, 42, 10**25, 10**400, -10**309, 0.0, '#-0', 0.5, -0.5, 1.0, -2.0, 1e21, 1e-7, 123456789.125, 1e300, 5e-324, 0.1, 1e15, 1e16, '#nan', '#inf', '#-inf', True, False,
    '#root', '#a', '#b1', '#b2', '#t', '#t2', '#at', '#ate']
NUMS = [0, 1, 2, -42, 10**400, -10**400, 0.5, 1.5, 2.5, 2.6, 1.4999999999999998, 0.49999999999999994, -0.5, -0.49999999999999994, -1.5, 3.0, 1e300, -1e300, 1e17, '#nan', '#inf', '#-inf', '#-0', '2', '1.5', 'z', True]
EQUAL = [['step', 'child', 'text()'], ['/', ['step', 'descendant', 'd'], ['step', 'child', 'text()']], ['step', 'descendant', 'text()'], ['step', 'descendant', 'd'], ['seq', [['lit', 1], ['lit', 1]]], ['seq', [['lit', 'x'], ['lit', 'x'], ['lit', 'x']]],
    ['seq', [['lit', 1], ['lit', 1.0], ['call', 'true', []]]], ['seq', [['.'], ['.']]], ['seq', [['step', 'child', 'b'], ['step', 'child', 'b']]], ['seq', [['step', 'attribute', 'n'], ['step', 'attribute', '*']]], ['seq', [['lit', 0], ['call', 'false', []], ['lit', '']]], ['|', ['step', 'child', 'text()'], ['step', 'descendant', 'text()']]]
PATHS = [['seq', []], ['step', 'child', 'zz'], ['step', 'child', 'b'], ['seq', [['lit', ''], ['lit', 'x']]], ['seq', [['lit', 0], ['lit', 1]]], ['step', 'attribute', 'n'], ['step', 'attribute', '*'], ['step', 'child', 'text()'], ['.'], ['..'], ['abs', '/', None], ['call', 'true', []], ['call', 'false', []], ['neg', ['lit', 1]], ['cmp', '=', ['lit', 1], ['lit', 2]], ['call', 'number', [['lit', 'q']]]]
F1 = ['string', 'number', 'boolean', 'not', 'string-length', 'count', 'concat']
F2 = ['starts-with', 'contains', 'substring-before', 'substring-after', 'concat']
def exhaustive(tier):
    for f in F1 + ['name']:
        for v in VALS:
            if not (f == 'name' and v in ('#t', '#t2')): yield [f, [['v', v]], 1]
        for p in PATHS:
            if f != 'name' or p[0] != 'step' or p[2] != 'text()': yield [f, [['p', p]], 1]
        for p in EQUAL: yield [f, [['p', p]], 1]
    for k in range(4):
        for t in itertools.product(' \t\r\n-+.01e', repeat=k): yield ['number', [['v', ''.join(t)]], 1]
    for c in ' \t\r\n\v\f\x1c\x85\xa0\u1680\u2003\u2028\u3000\u200b\ufeff':
        for t in (c + '12', '12' + c, c + '-.5' + c, '1' + c + '2', '-' + c + '1', c): yield ['number', [['v', t]], 1]
    for f in F2:
        for v in VALS[:14] + ['#nan', True, '#b1', '#at', 1, 0.5, '#root']:
            for w in VALS[:14] + ['#nan', True, '#b1', '#at', 1, 0.5, '#t']: yield [f, [['v', v], ['v', w]], 1]
        for p in PATHS:
            yield [f, [['p', p], ['v', '1']], 1]; yield [f, [['v', '12'], ['p', p]], 1]
    for f in ('string', 'number', 'string-length', 'name'):
        for c in range(9):
            if not (f == 'name' and c in (2, 4, 7)): yield [f, [], c]
    for f in ('true', 'false'): yield [f, [], 1]
    for s in ('12345', '', 'a', 'é\U0001F600x'):
        for st in range(-3, 8):
            for ln in range(-2, 8): yield ['substring', [['v', s], ['v', st], ['v', ln]], 1]
            yield ['substring', [['v', s], ['v', st]], 1]
    for s in ('12345', '#b1', 'x'):
        for st in NUMS:
            yield ['substring', [['v', s], ['v', st]], 1]
            for ln in NUMS: yield ['substring', [['v', s], ['v', st], ['v', ln]], 1]
    for p in PATHS[1:3] + PATHS[5:8]:
        for q in (['.'], ['step', 'child', 'node()'], ['..'], ['call', 'string', []], ['cmp', '=', ['.'], ['lit', 3]], ['abs', '/', None], ['abs', '/', ['step', 'child', 'a']], ['abs', '//', ['step', 'child', 'b']], ['abs', '/', ['step', 'child', 'node()']], ['step', 'attribute', '*'], ['pred', ['step', 'child', 'node()'], [['lit', 1]]],
                ['|', ['.'], ['..']], ['seq', [['.'], ['lit', 1]]], ['lit', 5], ['lit', 'a b'], ['neg', ['lit', 1]], ['and', ['.'], ['.']], ['call', 'name', []], ['call', 'concat', [['.'], ['lit', '-']]], ['//', ['.'], ['step', 'child', 'c']], ['step', 'ancestor', '*']): yield ['for-each', [['p', p]], 1, q]
    yield ['concat', [['v', 'a'], ['v', 'b'], ['p', PATHS[2]], ['v', True]], 1]
    for k in G.sizes(1):
        t = ('ab c1' * k)[:k]
        for f in ('string', 'number', 'boolean', 'not', 'string-length'):
            for v in [t, '1' * min(k, 300), ' ' * k + '1'] + [k] * (f != 'string-length'): yield [f, [['v', v]], 1]
        for f in F2:
            for a, b in ((t + 'X', 'X'), (t, t), (t + 'X' + t, 'X' + t), (t, t + 'X'), ('X' + t, t), (t, t[:-1]), (t, '')): yield [f, [['v', a], ['v', b]], 1]
        for st, ln in ((1, k), (k, 1), (k + 1, 1), (2, k), (1, k - 1), (-k, 2 * k), (k, -k), (0, k)): yield ['substring', [['v', t + 'XY'], ['v', st], ['v', ln]], 1]; yield ['substring', [['v', t + 'XY'], ['v', st]], 1]
        if k <= 130: yield ['concat', [['v', 'a%d' % i] for i in range(k)], 1]; yield ['count', [['p', ['seq', [['lit', i] for i in range(k)]]]], 1]; yield ['concat', [['p', ['seq', [['lit', i] for i in range(k)]]]], 1]; yield ['for-each', [['p', ['seq', [['lit', i] for i in range(k)]]]], 1, ['call', 'string', []]]
def random_case(rng):
    def val():
        r = rng.random()
        if r < .4: return ['v', rng.choice(VALS)]
        if r < .55: return ['p', rng.choice(PATHS + EQUAL) if rng.random() < .7 else xp.g_expr(rng, rng.randint(0, 2), {})]
        if r < .75: return ['v', ''.join(rng.choice('0123456789.-+e \n\tax') for _ in range(rng.randint(0, 5)))]
        if r < .9: return ['v', rng.choice([rng.uniform(-5, 5), rng.uniform(-1e9, 1e9), 10 ** rng.uniform(-20, 25), float(rng.randint(-9, 9)), rng.randint(-10**6, 10**6)])]
        if rng.random() < .1: return ['v', rng.choice(G.INTS)]
        return ['v', G.rand_text(rng, 3).replace('#', '')]
    f = rng.choice(F1 + F2)
    if rng.random() < .03: return ['for-each', [['p', rng.choice(PATHS + EQUAL)]], rng.randint(0, 8), xp.g_expr(rng, rng.randint(0, 3), {})]
    if rng.random() < .04:
        n = lambda: ['v', rng.choice([rng.choice(NUMS), rng.uniform(-4, 9), rng.randint(-8, 18) / 2, rng.randint(-3, 40)])]
        return ['substring', [val() if rng.random() < .3 else ['v', G.rand_text(rng, 3).replace('#', '') + '12345'], n()] + [n()] * (rng.random() < .8), 1]
    if rng.random() < .08:
        # a part of the text, or nearly one
        t = ''.join(rng.choice('abA\xe9 1') for _ in range(rng.choice([3, 5, 8, G.size(rng)]))); i = rng.choice([0, 0, rng.randint(0, len(t))]); p = t[i:rng.choice([len(t), rng.randint(i, len(t))])]
        if rng.random() < .3: p = p + rng.choice('ab') if rng.random() < .5 else p.swapcase()
        return [rng.choice(F2), [['v', t], ['v', p]], 1]
    return [f, [val() for _ in range(1 if f in F1 else 2)], 1]
SPECIAL = {'#nan': math.nan, '#inf': math.inf, '#-inf': -math.inf, '#-0': -0.0}
def check(case):
    top = C.build(TREE)
    r = check1(case, top)
    if r or not any(k == 'p' or isinstance(v, str) and v[:1] == '#' for k, v in case[1]) and case[1]: return r
    # again after edits which keep the shape of the tree
    for e in elems(top):
        for k, v in list(e.xml_attributes.items()): e.xml_attributes[k] = v + '1'
        for i, c in enumerate(list(e.xml_children)):
            if isinstance(c, str): e.xml_remove(c); e.xml_insert(str(c) + '1', i)
    r = check1(case, top)
    return r and 'after an edit: ' + r
def elems(e): return [e] + [x for c in e.xml_children if isinstance(c, C.tree.element) for x in elems(c)]
def check1(case, top):
    from amara3.uxml import uxpath
    f, args, ci = case[:3]
    sn = xp.Snap(top)
    nodes = [sn.root] + list(xp.desc(sn.root))
    root_item = uxpath.context(top, force_root=True).item
    def realof(n):
        if n is sn.root: return root_item
        if n.kind == 'a': return [a for a in uxpath.parse('@*').compute(uxpath.context(n.parent.real, force_root=False)) if a.xml_name == n.name][0]
        return n.real
    named = {'#root': nodes[0], '#a': nodes[1], '#b1': nodes[3], '#b2': [n for n in nodes if n.attrs and n.name == 'b'][0], '#t': nodes[2], '#t2': nodes[4], '#at': sn.top.attrs[0], '#ate': sn.top.attrs[1]}
    rv, ev, xs = {}, {}, []
    for i, (k, v) in enumerate(args):
        if k == 'p': xs.append(v); continue
        nm = 'v%d' % i
        if isinstance(v, str) and v in SPECIAL: rv[nm] = ev[nm] = SPECIAL[v]
        elif isinstance(v, str) and v in named: rv[nm], ev[nm] = realof(named[v]), named[v]
        else: rv[nm] = ev[nm] = v
        xs.append(['var', nm])
    x = ['call', f, xs] + list(case[3:])
    if f == 'for-each':
        t = xp.text(case[3])
        if '"' in t and "'" in t: return None      # cannot be written as a literal
    c = nodes[ci % len(nodes)]
    try: exps = xp.ev(x, c, ev)
    except (xp.Unsupported, AttributeError, TypeError, RecursionError): return None     # e.g. a step from a string
    todo = [(x, exps)]
    # literals directly, where they can be written
    if all(k == 'p' or isinstance(v, str) and v[:1] != '#' and not ('"' in v and "'" in v) or isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 0 and 'e' not in repr(v) and 'inf' not in repr(v) for k, v in args):
        todo.append((['call', f, [v if k == 'p' else ['lit', v] for k, v in args]] + list(case[3:]), exps))
    for y, exp in todo:
        s = xp.text(y)
        try: got = list(uxpath.parse(s).compute(uxpath.context(realof(c), variables=rv, force_root=False)))
        except (C.Hang, MemoryError): raise
        except Exception as e: return '%s with %s: expected %s, got %s: %s' % (s, ev, exp, type(e).__name__, e)
        got = [sn.of(i) for i in got]
        if not xp.same(exp, got): return '%s with %s: expected %s, got %s' % (s, ev, C.short(exp), C.short(got))
        if f == 'number' and len(got) == 1 and got[0] == 0 and isinstance(got[0], float) and isinstance(exp[0], float) and math.copysign(1, got[0]) != math.copysign(1, exp[0]): return '%s with %s: wrong sign of zero' % (s, ev)
def nontrivial(case): return True
