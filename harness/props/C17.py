from .. import gen as G, common as C, xp
RULE = 'histories of up to 10 evaluations (shared parsed expressions, several trees, all context nodes) and tree edits (append, insert, remove, rename, change of attribute or text, replacing a text, moving a child, moving a subtree to another tree); after each evaluation result, tree and expression object are compared with the reference and with a fresh parse. Non-trivial: an edit between two evaluations.'
QUICK, THOROUGH = 64000, 300000
def exhaustive(tier):
    m = ['a', [['n', '1']], ['1', ['b', [], ['2', ['c', [], []]]], ['b', [['n', '2']], []], ['b', [], ['2']]]]
    S = lambda n, ax='child': ['step', ax, n]
    xs = [S('b'), ['abs', '//', S('*')], ['pred', S('b'), [['lit', 2]]], ['call', 'count', [S('node()', 'descendant')]], ['|', S('c', 'descendant'), S('b')], ['cmp', '=', S('b'), ['lit', '2']], ['pred', S('*', 'descendant'), [['cmp', '=', S('n', 'attribute'), ['lit', '2']]]], S('b', 'following'), ['call', 'string', []], ['call', 'string', [['pred', S('b'), [['lit', 3]]]]], ['call', 'string', [S('b')]], ['pred', S('*', 'descendant'), [['cmp', '=', ['.'], ['lit', '2']]]], ['call', 'concat', [S('b'), S('n', 'attribute')]]]
    edits = [['append', 0, 0, 1, 'b'], ['insert', 0, 0, 0, '2'], ['remove', 0, 0, 1, ''], ['rename', 0, 1, 0, 'c'], ['rename', 0, 2, 0, 'b'], ['attr', 0, 1, 2, 'n'], ['delattr', 0, 0, 0, ''], ['append', 0, 2, 0, 't'], ['retext', 0, 2, 0, 'u'], ['retext', 0, 1, 0, 'u'], ['retext', 0, 2, 0, '3'], ['swap', 0, 0, 0, ''], ['value', 0, 1, 5, '']]
    for x in xs:
        for e in edits:
            for c in (0, 1, 2, 4):
                yield [[m], [x], [['eval', 0, 0, c], e, ['eval', 0, 0, c]]]
                yield [[m, m], [x], [['eval', 0, 0, c], e, ['eval', 1, 0, c], ['eval', 0, 0, c]]]
        for a, b in ((0, 1), (1, 4), (2, 2), (4, 0)): yield [[m], [x, xs[0]], [['both', 0, 0, a, b], edits[0], ['both', 0, 0, b, a]]]; yield [[m, m], [x], [['both', 0, 0, a, b]]]
    for k in G.sizes(2, 130 if tier == 'quick' else 300):
        for x in xs[:4]:
            yield [[m], [x], [['eval', 0, 0, 1]] * k + [edits[0], ['eval', 0, 0, 1]]]
        yield [[m], [['pred', S('b'), [['cmp', '=', S('n', 'attribute'), ['lit', str(i)]]]] for i in range(k)], [['eval', 0, i, 1] for i in range(k)] + [edits[5]] + [['eval', 0, i, 1] for i in (0, 1, 2, k - 1)]]
        yield [[m] * min(k, 40), xs[:2], [['eval', i, i, 1] for i in range(min(k, 40))] + [edits[0], ['eval', 0, 0, 1]]]
def random_case(rng):
    trees = [G.rand_tree(rng, depth=rng.choice([1, 2, 3]), maxkids=3, names=['a', 'b', 'c'], text=G.small_text, stretch=.01, cap=20) for _ in range(rng.choice([1, 2]))]
    exprs = []
    while len(exprs) < rng.choice([1, 2, 3]):
        x = xp.tidy(xp.g_nodes(rng, rng.randint(0, 2), {}) if rng.random() < .7 else xp.g_expr(rng, 2, {}))
        if xp.size(x) > 20: continue
        try: xp.text(x)
        except AssertionError: continue
        exprs.append(x)
    ops = []
    for _ in range(rng.randint(2, 10)):
        if rng.random() < .1: ops.append(['both', rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 30), rng.randint(0, 30)])
        elif rng.random() < .6: ops.append(['eval', rng.randint(0, 9), rng.randint(0, 9), rng.choice([0, 0, 1, rng.randint(0, 30)])])
        else: ops.append([rng.choice(['append', 'insert', 'remove', 'rename', 'attr', 'move', 'delattr', 'retext', 'swap', 'value']), rng.randint(0, 9), rng.randint(0, 30), rng.randint(0, 30), rng.choice(['a', 'b', 't', '1'])])
    return [trees, exprs, ops]
def dump(x, seen=None):
    if isinstance(x, (str, int, float, bool, type(None))): return repr(x)
    if isinstance(x, (list, tuple)): return [dump(y) for y in x]
    if isinstance(x, dict): return {k: dump(v) for k, v in x.items()}
    if type(x).__module__.startswith('amara3.uxml.uxpath'): return [type(x).__name__, {k: dump(v) for k, v in x.__dict__.items() if not k.startswith('_')}]
    return type(x).__name__
def ast(x):
    'structure of a parsed expression, attribute by attribute'
    return dump(x)
def check(case):
    from amara3.uxml import uxpath
    ms, xs, ops = case
    tops = [C.build(m) for m in ms]
    texts = [xp.text(x) for x in xs]
    parsed = [uxpath.parse(s) for s in texts]
    before = [ast(p) for p in parsed]
    keep = []
    for n, op in enumerate(ops):
        ti = op[1] % len(tops); top = tops[ti]
        els = [e for e in allof(top) if isinstance(e, C.tree.element)]
        if op[0] == 'both':
            # evaluations of shared expressions that take turns: the same one in two contexts, and another
            sn = xp.Snap(top); nodes = [sn.root] + list(xp.desc(sn.root)); runs = []
            tn = xp.Snap(tops[-1]); others = [tn.root] + list(xp.desc(tn.root))
            for xi, s, c in ((op[2], sn, nodes[op[3] % len(nodes)]), (op[2] + 1, sn, nodes[op[3] % len(nodes)]), (op[2], tn, others[op[4] % len(others)]), (op[2], sn, nodes[op[3] % len(nodes)])):
                xi %= len(xs)
                try: exp = xp.ev(xs[xi], c)
                except (xp.Unsupported, AttributeError, TypeError, RecursionError): continue
                if len(exp) > 2000: continue
                item = uxpath.context(s.top.real, force_root=True).item if c is s.root else c.real
                runs.append((texts[xi], s, c, exp, parsed[xi].compute(uxpath.context(item, force_root=False))))
            try: gots = C.together(*[r[4] for r in runs])
            except (C.Hang, MemoryError): raise
            except Exception as e: return 'operation %d: evaluations taking turns: %s: %s' % (n, type(e).__name__, e)
            for (t, s, c, exp, _), got in zip(runs, gots):
                got = [s.of(i) for i in got]
                if not xp.same(exp, got): return 'operation %d: expression %s from %r, taking turns with others: expected %s, got %s' % (n, t, c, C.short(exp), C.short(got))
            continue
        if op[0] == 'eval':
            xi = op[2] % len(xs)
            sn = xp.Snap(top); nodes = [sn.root] + list(xp.desc(sn.root)); c = nodes[op[3] % len(nodes)]
            try: exp = xp.ev(xs[xi], c)
            except (xp.Unsupported, AttributeError, TypeError, RecursionError): continue
            if len(exp) > 2000: continue
            mm = C.model(top)
            item = uxpath.context(top, force_root=True).item if c is sn.root else c.real
            for what, p in (('shared', parsed[xi]), ('fresh', uxpath.parse(texts[xi])), ('shared again', parsed[xi])):
                try: res = list(p.compute(uxpath.context(item, force_root=False)))
                except (C.Hang, MemoryError): raise
                except Exception as e: return 'operation %d: %s expression %s from %r: %s: %s' % (n, what, texts[xi], c, type(e).__name__, e)
                got = [sn.of(i) for i in res]
                if not xp.same(exp, got): return 'operation %d: %s expression %s from %r: expected %s, got %s' % (n, what, texts[xi], c, C.short(exp), C.short(got))
                r = C.diff('tree after %s' % texts[xi], mm, C.model(top)) or C.links(top) or C.diff('expression after evaluating it', before[xi], ast(parsed[xi]))
                if r: return 'operation %d: %s' % (n, r)
            continue
        e = els[op[2] % len(els)]
        k = op[0]
        if k == 'append': e.xml_append(C.tree.element(op[4]) if op[3] % 2 else op[4])
        elif k == 'insert': e.xml_insert(C.tree.element(op[4]) if op[3] % 2 else op[4], op[3] % (len(e.xml_children) + 1))
        elif k == 'remove' and e.xml_children:
            c = e.xml_children[op[3] % len(e.xml_children)]; e.xml_remove(c); keep.append(c)
            if isinstance(c, C.tree.element) and len(tops) < 4: tops.append(c)
        elif k == 'rename': e.xml_name = op[4]
        elif k == 'attr': e.xml_attributes[op[4]] = str(op[3] % 3)
        elif k == 'delattr' and e.xml_attributes: del e.xml_attributes[list(e.xml_attributes)[0]]
        elif k == 'retext':
            # a text replaced by another: the tree keeps its shape
            some = [x for x in els if any(isinstance(y, str) for y in x.xml_children)]
            if some:
                e = some[op[2] % len(some)]; i = [isinstance(y, str) for y in e.xml_children].index(True)
                e.xml_remove(e.xml_children[i]); e.xml_insert(op[4], i)
        elif k == 'swap':
            some = [x for x in els if len(x.xml_children) > 1]
            if some:
                e = some[op[2] % len(some)]; c = e.xml_children[op[3] % len(e.xml_children)]; e.xml_remove(c); e.xml_insert(c, (op[3] + 1) % (len(e.xml_children) + 1))
        elif k == 'value' and e.xml_attributes: e.xml_attributes[list(e.xml_attributes)[-1]] = str(op[3] % 3)
        elif k == 'move' and len(tops) > 1:
            src = tops[(ti + 1) % len(tops)]
            if src is not top and src.xml_parent is None and top is not src:
                e.xml_append(src); tops = [t for t in tops if t is not src]
def allof(t):
    yield t
    for c in t.xml_children: yield from allof(c)
def nontrivial(case): return any(o[0] not in ('eval', 'both') for o in case[2])
