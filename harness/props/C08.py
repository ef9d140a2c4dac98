from .. import gen as G, common as C
RULE = 'histories of up to 12 append, insert, remove, move and attribute operations (elements, text nodes, strings; equal texts; index 0 to length, and from -2 down counted from the end; removal of children and of non-children) on several elements, compared with a list model after every operation. Non-trivial: at least one removal or insertion before existing children.'
QUICK, THOROUGH = 120000, 600000
def exhaustive(tier):
    import itertools
    ops = [['append', 0, 't', 0], ['append', 0, 'e', 0], ['insert', 0, 't', 0], ['insert', 0, 's', 1], ['insert', 0, 'e', 1], ['insert', 0, 't', -2], ['remove', 0, 0], ['remove', 0, 1], ['remove', 0, -1], ['badremove', 0, 0]]
    for n in range(1, 5 if tier == 'thorough' else 4):
        for t in itertools.product(ops, repeat=n): yield [list(x) for x in t]
    for k in G.sizes(1, 400):
        long = [['append', 0, 'tse'[j % 3 if k < 60 else j % 2], 0] for j in range(k)]
        for o in (['insert', 0, 't', 0], ['insert', 0, 's', k // 2], ['insert', 0, 'e', k], ['insert', 0, 't', -2], ['remove', 0, 0], ['remove', 0, -1], ['remove', 0, k // 2], ['badremove', 0, 0], ['move', 0, k - 1, 0]): yield ['only', long, o]
def random_case(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        tgt = rng.randint(0, 3); k = rng.choice('etss')
        r = rng.random()
        if r < .04: ops.append(['attr', tgt, rng.choice('ab'), rng.choice(['', '1', ' x'])])
        elif r < .1: ops.append(['move', tgt, rng.randint(0, 5), rng.choice([-1, 0, 1, 2])])
        elif r < .35: ops.append(['append', tgt, k, rng.randint(0, 2)])
        elif r < .65: ops.append(['insert', tgt, k, rng.choice([0, 1, 2, 3, 4, 5, 6, -2, -3])])
        elif r < .9: ops.append(['remove', tgt, rng.randint(-2, 5)])
        else: ops.append(['badremove', tgt, rng.randint(0, 2)])
    return ops
TXT = ['same', 'same', '', ' pad ', 'same', '\n', '<&', '\xa0x', 'e0', '\ufeffx', '\x00', 'x\r', 'x' * 70, '1', '\u2003', '#text', 'Same', '\ud800', 'e\u0301', '0']
def state(elems, kids, attrs):
    for i, e in enumerate(elems):
        if dict(e.xml_attributes) != attrs[i]: return 'element %d has attributes %s, expected %s' % (i, e.xml_attributes, attrs[i])
        if e.xml_name != 'e%d' % i: return 'name of element %d changed' % i
        real = e.xml_children
        exp = kids[i]
        if len(real) != len(exp): return 'element %d has %d children, expected %d' % (i, len(real), len(exp))
        for a, b in zip(exp, real):
            if isinstance(a, str):
                if not isinstance(b, C.tree.text) or str(b) != a: return 'child %r of element %d, expected text %r' % (b, i, a)
            elif a is not b: return 'child %r of element %d, expected %r' % (b, i, a)
            if b.xml_parent is not e: return 'child %r of element %d has parent %r' % (b, i, b.xml_parent)
def check(ops):
    if ops and ops[0] == 'only': return check2(ops[1] + [ops[2]], len(ops[1]) - 2)
    return check2(ops, 0)
def check2(ops, quiet):
    'the state is compared after every operation but the first ones of a long history'
    elems = [C.tree.element('e0')]
    attrs = [{}]
    kids = [[]]        # model: element object, or text content
    keep = []          # removed nodes and everything else stays alive
    for n, op in enumerate(ops):
        i = op[1] % len(elems); e = elems[i]
        what = 'operation %d %s' % (n, op)
        if op[0] in ('append', 'insert'):
            if op[2] == 'e':
                nm = 'e%d' % len(elems); c = m = C.tree.element(nm) if n % 2 else C.tree.element(nm, {}) if n % 3 == 2 else C.tree.element(name=nm, attrs=None, parent=elems[(i + n + 1) % len(elems)] if n % 4 == 0 else None)
                elems.append(c); kids.append([]); attrs.append({})
            else:
                m = TXT[(n + (op[3] if len(ops) > 4 else 0)) % len(TXT)]
                c = (C.tree.text(m, elems[(i + n) % len(elems)]) if n % 4 == 3 else C.tree.text(m)) if op[2] == 't' else m      # also with another parent than the one it gets
            if op[0] == 'append':
                r = e.xml_append(c); kids[i].append(m)
            else:
                ix = min(op[3], len(kids[i])) if op[3] >= 0 or len(kids[i]) >= -op[3] else 0
                r = e.xml_insert(c, ix); kids[i].insert(ix, m)
        elif op[0] == 'remove' and kids[i]:
            ix = op[2] % len(kids[i])
            c = e.xml_children[ix]; keep.append(c)
            e.xml_remove(c); del kids[i][ix]
            if c.xml_parent is not None: return what + ': removed node has parent %r' % c.xml_parent
        elif op[0] == 'attr': e.xml_attributes[op[2]] = attrs[i][op[2]] = op[3]
        elif op[0] == 'move' and kids[i]:
            ix = op[2] % len(kids[i]); c, m = e.xml_children[ix], kids[i][ix]
            e.xml_remove(c); del kids[i][ix]
            up = (i + 1) % len(elems)
            x = elems[up]
            while x is not None and x is not c: x = x.xml_parent
            if x is c: up = i        # not into itself
            at = op[3] if 0 <= op[3] <= len(kids[up]) else -1
            if at == -1: kids[up].append(m)
            else: kids[up].insert(at, m)
            if at == -1: elems[up].xml_append(c)
            else: elems[up].xml_insert(c, at)
        elif op[0] == 'badremove':
            c = C.tree.element('e0') if op[2] != 2 else C.tree.text('absent')
            if op[2] == 1 and len(elems) > 1:
                c = elems[(i + 1) % len(elems)]
                if any(c is k for k in kids[i]): continue
            elif op[2] == 0 and kids[i] and n % 2:
                # looks like a child, but is not one
                k = e.xml_children[n // 2 % len(kids[i])]
                if isinstance(k, C.tree.element): c = C.tree.element(k.xml_name, dict(k.xml_attributes))
            par = c.xml_parent
            try: e.xml_remove(c)
            except (C.Hang, MemoryError): raise
            except Exception: pass
            else: return what + ': removal of an element that is not a child is accepted'
            if c.xml_parent is not par: return what + ': parent of the refused node changed'
        r = n >= quiet and state(elems, kids, attrs)
        if r: return what + ': ' + r
        for c in keep:
            if c.xml_parent is not None and not any(c is x for k in kids for x in k): return what + ': removed node has a parent again'
def nontrivial(ops): return ops[0] == 'only' or any(o[0] != 'append' for o in ops)
