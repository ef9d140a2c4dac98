import io, re
import xml.parsers.expat
from .. import gen as G, common as C
from amara3.uxml import writer as W
RULE = 'random trees written without and with indentation, through write() and through start/text/end calls (also empty elements), compared with xml_encode and a tag-by-tag comparison; namespacing writer with random prefix tables and name mappings, its output read by expat. Non-trivial: attributes or nested elements.'
QUICK, THOROUGH = 120000, 500000
def exhaustive(tier):
    for i, m in enumerate(G.long_models(depth=200)):
        yield ['plain', m, 0]
        if i % 2: yield ['calls', m, 0]
        if len(repr(m)) < 3000: yield ['indent', m, '  ', i % 2 == 0]
def random_case(rng):
    k = rng.choice(['plain', 'plain', 'calls', 'indent', 'ns'])
    m = G.rand_tree(rng, depth=rng.choice([1, 2, 4]), maxkids=rng.choice([2, 4]), names=(G.NAMES if rng.random() < .8 else ['lang', 'id', 'class', 'type', 'name', 'href'] + [n for n in G.HNAMES if n[:3].lower() != 'xml' and n != '#text'][:20]) if k == 'ns' else None, text=(lambda r: ''.join(r.choice(['1', ' ', '<', '&', '"', "'", '>', '\n', '\t', 'é']) for _ in range(r.randint(0, 4))) + (r.choice(G.STRS) if G.STRS and r.random() < .05 else '')) if k in ('ns', 'indent') else G.rand_text)
    if k == 'indent': return [k, m, rng.choice(['  ', '\t', ' ', '   ']), rng.random() < .5]
    if k == 'ns':
        pf = {p: 'urn:' + p + rng.choice(['', '&', '"']) for p in rng.sample(['', 'p', 'q', 'r'], rng.randint(0, 4))}
        mp = {}
        for n in sorted({x for _, e in G.nodes(m) if not isinstance(e, str) for x in [e[0]] + [y[0] for y in e[1]]}):
            if rng.random() < .5: mp[n] = ['urn:z', rng.choice(['', 'p', 'q'])]
            if rng.random() < .5: mp['@' + n] = ['urn:z', rng.choice(['', 'p', 'r'])]
        for n in rng.sample(['*', '@*', '', '@', 'p', '#text', '@p'], rng.randint(0, 3)): mp[n] = ['urn:z', 'r']
        return [k, m, pf, mp]
    return [k, m, rng.randint(0, 9)]
def drive(w, m, empties=False):
    if empties and not m[2]:
        w.start_element(m[0], attribs=dict(map(tuple, m[1])), empty=True); return
    if m[1]: w.start_element(m[0], attribs=dict(map(tuple, m[1])))
    else: w.start_element(m[0])
    for c in m[2]:
        if isinstance(c, str): w.text(c)
        else: drive(w, c, empties)
    w.end_element(m[0])
def steps(w, m):
    yield w.start_element(m[0], attribs=dict(map(tuple, m[1])))
    for c in m[2]:
        if isinstance(c, str): yield w.text(c)
        else: yield from steps(w, c)
    yield w.end_element(m[0])
@C.twice
def plain(m, e):
    fp = io.StringIO()
    W.write(e, W.raw(fp))
    return C.diff('written', e.xml_encode(), fp.getvalue()) or C.diff('tree afterwards', m, C.model(e))
def toks(s): return re.split(r'(<(?:[^<>"\']|"[^"]*"|\'[^\']*\')*>)', s)
def check(case):
    k, m = case[:2]
    e = C.build(m); fp = io.StringIO(); enc = e.xml_encode()
    if k == 'plain':
        if case[2] % 4 == 1:
            # two writers that take turns
            a, b = io.StringIO(), io.StringIO()
            C.together(steps(W.raw(a), m), steps(W.raw(b), m[2][0] if m[2] and not isinstance(m[2][0], str) else m))
            r = C.diff('written by two writers that take turns', enc, a.getvalue()) or C.diff('written by two writers that take turns', (e.xml_children[0] if m[2] and not isinstance(m[2][0], str) else e).xml_encode(), b.getvalue())
            if r: return r
        return plain(m, e)
    if k == 'calls':
        drive(W.raw(fp), m)
        r = C.diff('written by calls', enc, fp.getvalue())
        if r: return r
        fp = io.StringIO(); drive(W.raw(fp), m, True)
        def emp(m): return [m[0], m[1], [c if isinstance(c, str) else emp(c) for c in m[2]] or ['\ue123']]
        t = C.build(emp(m)).xml_encode()
        t = re.sub('>\ue123</[^<>]*>', '/>', t) if '\ue123' not in enc else fp.getvalue()
        return C.diff('written by calls with empty elements', t, fp.getvalue())
    if k == 'indent':
        w = W.raw(fp, indent=case[2])
        if case[3]: W.write(e, w)
        else: drive(w, m)
        a, b = toks(enc), toks(fp.getvalue())
        if len(a) != len(b): return C.diff('tags written with indentation', a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            if i % 2:
                if x != y: return C.diff('tag written with indentation', x, y)
            elif x not in y or y.replace(x, '', 1).strip(): return C.diff('text between tags (white space may be added)', x, y)
        return
    pf, mp = case[2:]
    W.write(e, W.namespacer(fp, prefixes=dict(pf), mapping={a: tuple(b) for a, b in mp.items()}))
    out = fp.getvalue()
    def nm(n, at=False):
        p = mp.get(('@' if at else '') + n, ['', ''])[1]
        return (p + ':' if p else '') + n
    def conv(m, top):
        decl = [['xmlns:' + p if p else 'xmlns', u] for p, u in pf.items()] if top else []
        return [nm(m[0]), decl + [[nm(a, True), v] for a, v in m[1]], [c if isinstance(c, str) else conv(c, False) for c in m[2]]]
    exp = G.merged(conv(m, True)); exp[1].sort()
    stack = [['', [], []]]
    p = xml.parsers.expat.ParserCreate(); p.ordered_attributes = True
    def st(n, a):
        x = [n, [list(z) for z in zip(a[::2], a[1::2])], []]; stack[-1][2].append(x); stack.append(x)
    p.StartElementHandler = st
    p.EndElementHandler = lambda n: stack.pop()
    p.CharacterDataHandler = lambda d: stack[-1][2].append(d)
    try: p.Parse(out, True)
    except xml.parsers.expat.ExpatError as x: return 'namespacing writer: %s is not well-formed: %s' % (C.short(out), x)
    got = G.merged(stack[0][2][0]); got[1].sort()
    return C.diff('namespacing writer', exp, got)
def nontrivial(case): return bool(case[1][1] or case[1][2])
