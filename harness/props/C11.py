from .. import gen as G, common as C, pat
from amara3.uxml import treeiter, xmliter
RULE = 'random documents times 1-3 random patterns of up to 4 steps, through the MicroXML and the XML 1.0 sender; each delivered subtree compared as delivered and again after the end. Non-trivial: some pattern selects something.'
QUICK, THOROUGH = 96000, 500000
def fixed():
    import random
    rng = random.Random(6)
    return [G.rand_tree(rng, depth=5, maxkids=3, names=['a', 'b'], text=G.small_text, textp=.3) for _ in range(20)]
def exhaustive(tier):
    for m in fixed():
        for p in pat.all_patterns(3): yield [m, [p], 'uxml', 1]
    for i, (m, p) in enumerate(pat.long_cases()): yield [m, [p], 'xml' if i % 3 == 0 else 'uxml', i]
def random_case(rng):
    kind = rng.choice(['uxml', 'uxml', 'xml'])
    wide = rng.random() < .15
    if rng.random() < .006:
        m, p = pat.deep(rng, ['a', 'b'])
        return [m, [p] + [pat.tame(m, pat.rand_pattern(rng))] * rng.randint(0, 1), kind, rng.randint(0, 9999)]
    m = G.rand_tree(rng, depth=rng.choice([2, 4, 6]), maxkids=3, names=pat.DOCW if wide else ['a', 'b', 'c'], stretch=.02, text=G.small_text if kind == 'xml' else (lambda r: G.rand_text(r, 2)), textp=.3)
    return [m, [pat.tame(m, pat.rand_pattern(rng, *[pat.WIDE] * wide)) for _ in range(rng.choice([1, 1, 2, 3]))], kind, rng.randint(0, 9999)]
def check(case):
    m, ps, kind, seed = case
    import random
    doc = G.write_doc(random.Random(seed), m)
    mm = G.merged(m)
    outs = [[] for _ in ps]
    def sink(acc):
        while True:
            e = yield
            acc.append((e, C.model(e), C.links(e)))
    if len(ps) == 1 and isinstance(ps[0][0], str):
        pats, sinks = pat.real(ps[0]), sink(outs[0])
        if seed % 2: pats, sinks = [pats], [sinks]
    else: pats, sinks = [pat.real(p) for p in ps], [sink(o) for o in outs]
    if len(ps) > 1 and seed % 3 == 1: sinks = tuple(sinks)
    if len(ps) > 1 and seed % 5 == 1: pats = tuple(pats)
    s = (treeiter if kind == 'uxml' else xmliter).sender(pats, sinks)
    if kind == 'uxml': s.parse(doc)
    else: parse_xml(s, doc)
    if seed % 3 == 0 and len(doc) < 400:
        # a second parse of the same kind that runs while the first delivers
        outs2 = [[] for _ in ps]; inner = []
        def nested(o):
            while True:
                e = yield
                o.append((e, C.model(e), C.links(e)))
                if len(inner) < 2:
                    inner.append([]); x = inner[-1]
                    t = (treeiter if kind == 'uxml' else xmliter).sender(pat.real(ps[0]) if isinstance(ps[0][0], str) else [pat.real(ps[0])], sink(x) if isinstance(ps[0][0], str) else [sink(x)])
                    if kind == 'uxml': t.parse(doc)
                    else: parse_xml(t, doc)
        s = (treeiter if kind == 'uxml' else xmliter).sender([pat.real(p) for p in ps], [nested(o) for o in outs2])
        if kind == 'uxml': s.parse(doc)
        else: parse_xml(s, doc)
        for p, o, o2 in zip(ps, outs, outs2):
            r = C.diff('pattern %s, with another parse running in between' % p, [a for _, a, _ in o], [a for _, a, _ in o2])
            if r: return r
        for x in inner:
            r = C.diff('pattern %s, parsed during another parse' % ps[0], [a for _, a, _ in outs[0]], [a for _, a, _ in x])
            if r: return r
    for p, o in zip(ps, outs):
        exp = []
        for ix in pat.outermost(mm, p, True):
            x = mm
            for i in ix: x = x[2][i]
            exp.append(x)
        r = C.diff('pattern %s' % p, exp, [norm(a, kind) for _, a, _ in o])
        if r: return r
        for e, a, l in o:
            r = l or C.diff('subtree looked at after the end', a, C.model(e)) or C.links(e)
            if r: return r
def norm(a, kind): return G.merged(a) if kind == 'xml' else a
def parse_xml(s, doc):
    doc = doc.strip(' \n\t'); k = len(doc) % 5
    if k == 4: s.parse(doc); return
    if k: doc = '<!-- c -->' + doc.replace('>', '><!-- <a> --><?p ?>', 1) + '<!---->\n' if k < 3 else doc
    if k % 2 == 0: s.parse(doc if k else doc.encode('utf-8')); return
    import io
    if len(doc) % 11 == 0: doc = '<!--' + 'x\n' * 35000 + '-->' + doc
    s.parse_file(io.BytesIO(doc.encode('utf-8')))
def nontrivial(case): return any(pat.outermost(case[0], p, True) for p in case[1])
