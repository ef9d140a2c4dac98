from .. import gen as G, common as C
from amara3.uxml import treeutil as U
RULE = 'all trees of up to 5 (thorough: 6) nodes and random ones with white space text, adjacent and empty text; starting depths 0 to 3, nine indentations (also of other characters than white space); nodes compared by identity. Non-trivial: at least one child.'
QUICK, THOROUGH = 120000, 600000
def exhaustive(tier):
    for n in range(1, 7 if tier == 'thorough' else 6):
        for m in G.small_trees(n, ('a',), ('t', ' \n')): yield [m, 0, '  ']
    for m in G.long_models(depth=100): yield [m, 0, '  ']
    for m in G.small_trees(4, ('a',), ('t', ' \n')):
        for d in G.sizes(1, 400): yield [m, d, ' ']
def random_case(rng):
    def text(r):
        if r.random() < .25:
            t = G.rand_text(r, r.choice([1, 1, 2, 4]))
            if t.strip() == t.strip(' \t\r\n'): return t      # which characters beyond XML's are white space is not claimed
        if r.random() < .15: return r.choice('.-,;:!*/#0"()<&_') * r.choice([1, 1, 2, 3])
        return r.choice(['', ' ', '\n  ', '\t', 't', ' t', 't ', '\n t\n', '1', '\r', 'x y'])
    return [G.rand_tree(rng, depth=rng.choice([1, 3, 5]), maxkids=5, text=text), rng.choice([0, 0, 1, 3]), rng.choice(['  ', '\t', '', ' ', '    ', '-', '. ', 't', '1'])]
def check(case):
    m, depth, ind = case
    e = C.build(m)
    for k in range(3):
        # again after an edit of what came out
        if k: C.edit(C.model(e), e, k + len(repr(m)))
        r = check1(e, depth, ind)
        if r: return ('after %d edits: ' % k if k else '') + r
def check1(e, depth, ind):
    before = []
    def snap(n, lvl): before.append((n, list(n.xml_children), n.xml_name, dict(n.xml_attributes), lvl)); [snap(c, lvl + 1) for c in n.xml_children if isinstance(c, C.tree.element)]
    snap(e, depth)
    r = U.make_pretty(e, depth, ind) if (depth, ind) != (0, '  ') else U.make_pretty(e)
    if r is not e: return 'returns %r' % (r,)
    for n, kids, name, at, lvl in before:
        if n.xml_name != name or n.xml_attributes != at or list(n.xml_attributes) != list(at): return 'name or attributes of %s changed' % name
        keep = lambda ks: [k for k in ks if isinstance(k, C.tree.element) or str(k).strip()]
        olds = {id(k) for k in kids}
        a, b = keep(kids), [k for k in keep(n.xml_children) if id(k) in olds]      # (an indentation may have other characters)
        if len(a) != len(b) or any(x is not y for x, y in zip(a, b)): return 'children of %s at depth %d: kept %s, expected %s' % (name, lvl, C.short(b), C.short(a))
        for i, k in enumerate(n.xml_children):
            if isinstance(k, C.tree.element) or str(k).strip() and id(k) in olds: continue
            ok = ['\n' + ind * (lvl + 1)] + (['\n' + ind * lvl] if i == len(n.xml_children) - 1 else [])
            if str(k) not in ok and not any(k is o for o in kids): return 'white space %r among children of %s at depth %d (expected one of %s)' % (str(k), name, lvl, ok)
        # at most one white space node may be added between two others
        gaps, g = [], 0
        def count(ks):
            out, g = [], 0
            for k in ks:
                if isinstance(k, C.tree.element) or str(k).strip() and id(k) in olds: out.append(g); g = 0
                else: g += 1
            return out + [g]
        for x, y in zip(count(kids), count(n.xml_children)):
            if y > x + 1: return 'too much white space among children of %s' % name
    return C.links(e)
def nontrivial(case): return bool(case[0][2])
