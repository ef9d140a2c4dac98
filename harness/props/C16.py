import random
import copy
from .. import gen as G, common as C, xp
RULE = 'random expressions (paths, absolute paths, unions, predicates, sequences, comparisons, and/or, unary minus, functions, for-each, operator names as element names) of up to depth 4 printed as text and parsed by the code under test, on random trees and every kind of context node; fixed precedence cases. Non-trivial: the expression has more than one operator.'
QUICK, THOROUGH = 160000, 800000
OPS = [['or'], ['and'], ['cmp', '='], ['cmp', '<'], ['|'], ['/'], ['//']]
TREE = ['a', [['b', '1'], ['c', '2']], ['1', ['b', [], ['1', ['c', [], ['2']]]], ['a', [['b', '3']], [['b', [], ['3']], '1', ['and', [], ['1']]]], '1', ['c', [], []]]]
def exhaustive(tier):
    S = lambda n: ['step', 'child', n]
    def bins(x, y):
        for o in OPS:
            if o[0] in ('/', '//'):
                yield o + [x, y] if y[0] in xp.STEPS else None
            else: yield o + [x, y]
    atoms = [S('a'), S('b'), ['step', 'attribute', 'b'], ['lit', 1], S('zz')]
    for x in (S('a'), S('b'), ['pred', S('b'), [['lit', 1]]]):
        for y in (S('b'), S('c')):
            for z in (S('c'), S('and'), S('zz')):
                for e1 in bins(y, z):
                    if e1 is None: continue
                    for e in bins(x, e1):
                        if e: yield [TREE, 1, e, None]
                for e1 in bins(x, y):
                    if e1 is None: continue
                    if e1[0] in ('/', '//') and not xp.is_rel(e1): pass
                    for e in bins(e1, z):
                        if e: yield [TREE, 1, e, None]
    yield from long_cases()
def long_cases():
    'expressions and trees in which one thing is long'
    S = lambda n, ax='child': ['step', ax, n]
    def chain(op, xs):
        x = xs[0]
        for y in xs[1:]: x = op + [x, y]
        return x
    def nest(k, x, f):
        for i in range(k): x = f(i, x)
        return x
    true, false = ['call', 'true', []], ['call', 'false', []]
    for k in G.sizes(2, 260):
        m = ['a', [['n', 'x' * k]], [['b', [['n', str(j)]], [str(j)]] for j in range(k)] + ['t', ['c', [], ['x' * k]]]]
        at = S('n', 'attribute')
        if k <= 130:
            for x in (chain(['or'], [S('zz')] * (k - 1) + [S('b')]), chain(['or'], [false] * k), chain(['and'], [true] * (k - 1) + [S('zz')]), chain(['and'], [S('b')] * k), chain(['|'], [S('zz')] * (k - 1) + [S('b')]),
                    chain(['|'], [['pred', S('b'), [['lit', i + 1]]] for i in range(k)][::-1]), ['seq', [['lit', i] for i in range(k)]], ['call', 'concat', [['lit', str(i)] for i in range(k)]], ['pred', S('b'), [true] * (k - 1) + [['lit', 2]]],
                    ['pred', S('b'), [['cmp', '>', ['call', 'count', [['seq', [S('b', 'following-sibling'), ['.']]]]], ['lit', 1]]] * min(k, 20)],
                    nest(k, S('b'), lambda i, x: ['seq', [x]]), nest(k, ['lit', 3], lambda i, x: ['neg', x]), nest(min(k, 80), S('c'), lambda i, x: ['call', 'not', [x]]), nest(min(k, 60), S('c'), lambda i, x: ['pred', S('*', 'self'), [x]])):
                yield [m, 1, xp.tidy(x), None]
            d = nest(k, ['z', [], ['t']], lambda i, x: ['b', [['n', str(i)]], [x]])
            for x in (chain(['/'], [S('b')] * (k - 1) + [S('z')]), chain(['/'], [S('b')] + [['..'] if i % 2 else S('*') for i in range(k)]), ['/', S('z', 'descendant'), S('b', 'ancestor')], ['abs', '//', S('z')], ['pred', ['/', S('z', 'descendant'), S('*', 'ancestor')], [['lit', k]]],
                    ['pred', S('node()', 'descendant'), [['cmp', '=', at, ['lit', '0']]]], ['call', 'count', [S('*', 'descendant')]], ['call', 'string', []], ['pred', S('*', 'descendant'), [['lit', k]]], ['//', ['.'], S('text()')]):
                yield [d, 1, xp.tidy(x), None]
        for x in (['cmp', '=', S('c'), ['lit', 'x' * k]], ['cmp', '=', S('c'), ['lit', 'x' * (k - 1) + 'y']], ['cmp', '=', at, S('c')], ['lit', 'x' * k], ['call', 'string-length', [at]], ['call', 'concat', [at, S('c')]], ['call', 'starts-with', [at, ['lit', 'x' * k]]], ['call', 'contains', [at, ['lit', 'x' * k + 'x']]],
                ['call', 'count', [S('b')]], ['pred', S('b'), [['lit', k]]], ['pred', S('b'), [['lit', k + 1]]], ['pred', S('b'), [['cmp', '=', at, ['lit', k - 1]]]], ['|', S('c'), S('b')], ['cmp', '>=', S('b'), ['lit', k - 1]], ['cmp', '=', S('b'), ['seq', [['lit', 'q'], ['lit', str(k - 1)]]]],
                ['pred', S('c'), [['cmp', '=', S('b', 'preceding-sibling'), ['lit', '0']]]], ['/', ['pred', S('b'), [['lit', 1]]], S('node()', 'following')], ['/', S('c'), S('node()', 'preceding')], ['pred', ['/', S('c'), S('*', 'preceding-sibling')], [['lit', k]]], ['call', 'for-each', [S('b')], ['call', 'string', []]], ['step', 'child', 'n' * k], ['lit', 10 ** min(k, 200)], ['pred', ['seq', [S('b'), S('c')]], [['lit', k + 1]]]):
            yield [m, 1, xp.tidy(x), None]
        # the last of a long sequence decides a comparison
        d = ['a', [], [['b', [], ['5']]] * (k - 1) + [['b', [], ['7']], ['c', [], []]]]
        for op, v in (('=', '7'), ('!=', '5'), ('<', 6), ('<=', 6), ('>', 6), ('>=', 7), ('=', 7), ('!=', 5)):
            back = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            for x in (['cmp', op, S('b'), ['lit', v]], ['cmp', back, ['lit', v], S('b')], ['cmp', op, ['pred', S('b'), [['cmp', '=', ['.'], ['lit', '5']]]], ['lit', v]], ['cmp', op, ['seq', [S('zz'), S('b')]], ['seq', [['lit', v]]]]): yield [d, 1, xp.tidy(x), None]
        yield [['n' * k, [], [['n' * k, [], ['t']], ['n' * (k + 1), [], []]]], 1, S('n' * k), None]
        v = 'v' * k; yield [m, 1, ['cmp', '=', ['var', v], S('b')], {v: str(k - 1), 'v': 'no'}]
def wide(rng):
    'long sequences, of which items far along decide'
    k = min(300, G.size(rng) + 2); i = rng.choice([k - 1, k - 1, rng.randint(0, k - 1)])
    m = ['a', [], [['b', [['n', str(j)]], [str(j)] if rng.random() < .9 else []] for j in range(k)] + [['c', [], ['z']]]]
    b, at, lit = ['step', rng.choice(['child', 'child', 'descendant']), 'b'], ['step', 'attribute', 'n'], ['lit', rng.choice([str(i), i])]
    op = rng.choice(['=', '=', '<', '>='])
    if op == '>=': lit = ['lit', i]
    if op == '<': b = ['pred', b, [['cmp', '>=', at, ['lit', i]]]]; lit = ['lit', k]
    x = rng.choice([['cmp', op, b, lit], ['cmp', {'=': '=', '<': '>', '>=': '<='}[op], lit, b], ['pred', b, [['cmp', '=', at, ['lit', str(i)]]]], ['pred', b, [['lit', i + 1]]], ['pred', ['seq', [b]], [['lit', i + 1]]],
        ['cmp', '=', ['/', b, at], ['step', 'descendant', 'text()']], ['|', ['pred', ['step', 'child', '*'], [['lit', i + 1]]], b], ['call', 'count', [b]], ['pred', ['.'], [['cmp', '=', b, ['lit', str(i)]]]], ['call', 'concat', [b]],
        ['|', ['seq', [['step', 'child', 'c'], b]], ['seq', []]], ['call', 'for-each', [b], at], ['and', ['cmp', '=', b, ['lit', str(i)]], ['call', 'true', []]], ['/', ['pred', ['step', 'child', 'b'], [['lit', i + 1]]], ['step', 'following-sibling', '*']]])
    return [m, 1, xp.tidy(x), None]
def random_case(rng):
    if rng.random() < .01: return wide(rng)
    odd = [rng.choice(OPLIKE) if rng.random() < .4 else G.rand_name(rng, 0)] * 2 if rng.random() < .15 else []
    novars = rng.random() < .3
    m = G.rand_tree(rng, depth=rng.choice([2, 3]), maxkids=3, names=(['a', 'b', 'c', 'and', 'div'] if rng.random() < .3 else ['a', 'b', 'c']) + odd, text=G.small_text if rng.random() < .8 else lambda r: G.rand_text(r, 2), stretch=.012, cap=rng.choice([20, 20, 70]))
    n = sum(1 for _ in G.nodes(m))
    cx = {'names': rng.choice([[], [], ['and', 'div', 'or', 'mod']]) + odd * 2, 'vars': [] if novars else ['v', 'and', 'w'], 'custom': rng.random() < .2}
    vs = {'v': rng.choice([1, '1', True, False, 0, '', 'a', 2.5]), 'and': rng.choice([2, 'b']), 'w': ['node', rng.randint(0, n)]}
    while True:
        x = xp.tidy(g(rng, cx))
        if 2 <= xp.size(x) <= 40: break
    return [m, rng.choice([0, 1, rng.randint(0, n)]), x, None if novars else vs]
OPLIKE = ['self', 'text', 'node', 'name', 'AND', 'Or', 'DIV', 'parent', 'child', 'ode', 'x', 'true', 'count', 'ancestor-or-self', 'android', 'or-', 'mod.']
def my_pair(ctx, seq):
    'a function of the user'
    yield from seq.compute(ctx)
    yield ctx.item
def g(rng, cx): return xp.g_nodes(rng, rng.randint(1, 3), cx) if rng.random() < .5 else xp.g_expr(rng, rng.randint(1, 4), cx)
def check(case):
    from amara3.uxml import uxpath
    top = C.build(case[0])
    r = check1(case, top)
    if not r and len(repr(case)) % 3 == 0:
        m = copy.deepcopy(case[0]); C.edit(m, top, len(repr(m))); r = check1([m] + case[1:], top)
        if r: r = 'after an edit: ' + r
    return r
def check1(case, top):
    from amara3.uxml import uxpath
    m, ci, x, vs = case
    xp.STYLE = random.Random(repr(case))
    try: s = xp.respace(xp.text(x))
    except AssertionError: return None
    finally: xp.STYLE = None
    if len(s) % 5 == 0:
        # an expression which is rejected (or not) leaves nothing behind for the next one
        for t in (s[:len(s) // 2], s + '"', s + ' #', '(' + s):
            try: uxpath.parse(t)
            except (C.Hang, MemoryError): raise
            except Exception: pass
    fs = None
    if 'my-pair' in s: fs = dict(uxpath.BUILTIN_FUNCTIONS); fs['my-pair'] = my_pair
    sn = xp.Snap(top)
    allnodes = [sn.root] + list(xp.desc(sn.root))
    root_item = uxpath.context(top, force_root=True).item
    def realof(n): return root_item if n is sn.root else n.real
    c = allnodes[ci % len(allnodes)]
    rv, ev = {}, {}
    for k, v in (vs or {}).items():
        if isinstance(v, list): n = allnodes[v[1] % len(allnodes)]; rv[k], ev[k] = realof(n), n
        else: rv[k] = ev[k] = v
    try: exp = xp.ev(x, c, ev)
    except (xp.Unsupported, AttributeError, TypeError, RecursionError): return None     # e.g. a step from a string
    if len(exp) > 3000: return None
    try: got = list(uxpath.parse(s).compute(uxpath.context(realof(c), variables=rv, functions=fs, force_root=False)))
    except (C.Hang, MemoryError): raise
    except Exception as e: return 'expression %s from %r: expected %s, got %s: %s' % (s, c, C.short(exp), type(e).__name__, e)
    got = [sn.of(i) for i in got]
    if not xp.same(exp, got): return 'expression %s from %r: expected %s, got %s' % (s, c, C.short(exp), C.short(got))
    if c.real is not None and c is not sn.top and len(s) % 2:   # from any other node: that node is the context
        for what, res in (('xml_xpath', lambda: c.real.xml_xpath(s, rv, fs)),) + ((('qquery', lambda: uxpath.qquery(c.real, s, rv, fs)),) if c.kind == 'e' or c.val else ()):
            got = [sn.of(i) for i in res()]
            if not xp.same(exp, got): return '%s(%s) from %r: expected %s, got %s' % (what, s, c, C.short(exp), C.short(got))
    if len(s) % 4 == 1 and exp and all(isinstance(i, xp.N) for i in exp):
        # a union with a node of another tree: every node once, and the nodes of each tree in document order
        try: u = xp.text(['|', x, ['var', 'o']])
        except AssertionError: u = None
        if u:
            t2 = C.build(m); n2 = list(xp.Snap(t2).byid.values()); o = next(i for i in n2[len(s) % len(n2):] + n2 if i.kind == 'e').real
            res = list(uxpath.parse(u).compute(uxpath.context(realof(c), variables=dict(rv, o=o), functions=fs, force_root=False)))
            got = [sn.of(i) for i in res if i is not o]; want = sorted({i.pos: i for i in exp}.values(), key=lambda i: i.pos)
            if not xp.same(want, got) or sum(i is o for i in res) != 1: return 'expression %s from %r with $o in another tree: expected %s and $o, got %s' % (u, c, C.short(want), C.short(res))
    try: atroot = xp.ev(x, sn.root, ev)
    except (xp.Unsupported, AttributeError, TypeError, RecursionError): return None
    if c.real is not None and len(s) % 3 == 0:
        exp = atroot; got = [sn.of(i) for i in uxpath.parse(s).compute(uxpath.context(c.real, variables=rv, functions=fs))]
        if not xp.same(exp, got): return 'context(%r), %s: expected %s, got %s' % (c, s, C.short(exp), C.short(got))
    if not vs and c is sn.top:   # public entry points start from the root node
        exp = atroot
        for what, res in (('xml_xpath', lambda: top.xml_xpath(s, None, fs)), ('qquery', lambda: uxpath.qquery(top, s, None, fs)), ('context()', lambda: uxpath.parse(s).compute(uxpath.context(top, functions=fs)))):
            got = [sn.of(i) for i in res()]
            if not xp.same(exp, got): return '%s(%s): expected %s, got %s' % (what, s, C.short(exp), C.short(got))
        if len(s) % 4 == 0:   # a document instead of a tree
            mm = G.merged(m); d = G.write_doc(random.Random(len(s)), mm)
            t2 = C.build(mm); sn2 = xp.Snap(t2); exp = [flat(i) for i in xp.ev(x, sn2.root, ev)]
            for what, arg in (('qquery of text', d), ('qquery of bytes', d.encode('utf-8'))):
                got = [flat(i) for i in uxpath.qquery(arg, s, None, fs)]
                if len(exp) != len(got) or not all(a == b if isinstance(a, list) or isinstance(b, list) else xp.eq(a, b) for a, b in zip(exp, got)): return '%s: qquery(%s, %s): expected %s, got %s' % (what, ascii(d), s, C.short(exp), C.short(got))
def flat(i):
    'an item without its identity'
    if isinstance(i, xp.N): return [{'root': 'root_node', 'e': 'element', 't': 'text', 'a': 'attribute_node'}[i.kind], i.name, i.string(), len(i.kids)]
    if isinstance(i, C.tree.node): k = type(i).__name__; return [k, '' if k == 'root_node' else '#text' if k == 'text' else i.xml_name, i.xml_value if k != 'text' else str(i), len(i.xml_children) if k in ('element', 'root_node') else 0]
    return i
def nontrivial(case): return xp.size(case[2]) > 3
