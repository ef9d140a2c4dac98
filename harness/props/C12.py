from .. import gen as G, common as C
from amara3.uxml import xml as X
RULE = 'XML 1.0 documents built together with the tree they mean: prefixes, default namespaces, nested redeclarations, empty-element tags, CDATA sections, decimal and hexadecimal references, internal entities, comments, processing instructions, XML declaration, document type; str and bytes; sequences of up to 4 documents (some malformed) with one builder; and the event interface. Non-trivial: uses at least one construct which MicroXML lacks.'
QUICK, THOROUGH = 96000, 500000
URIS = ['urn:a', 'http://x.y/z#', 'a\xa0b', 'urn:\u2003:q', 'x\u1680y', '\u3000', '\u2003lead\u2003', 'urn:a:', 'a:b']
LOCALS = ['a', 'b', 'c', 'x1', 'q.r', '\xe9', 'xmlnsx', 'xmlx', 'A', 'xml-a', 'id', 'lang', 'name', 'space', 'base']
def exhaustive(tier):
    for u in URIS:
        m = ['a', [], [['b', [['c', '1']], ['t']], 'u']]
        yield [[m, '<p:a xmlns:p="%s"><p:b p:c="1">t</p:b>u</p:a>' % u]]
        yield [[m, '<a xmlns="%s"><b c="1">t</b>u</a>' % u]]
    for m, d in G.long_docs(): yield [[m, d.strip(' \n\t')]]
def gen_doc(rng):
    dtd = rng.random() < .2; attl = dtd and rng.random() < .5; giant = rng.random() < .004
    def text(t):
        if not t: return ''
        r = rng.random()
        if r < .2 and ']]>' not in t and '\r' not in t: return '<![CDATA[' + t + ']]>'
        out = ''
        for ch in t:
            if ch in '<>&\r' or rng.random() < .1:
                out += rng.choice(['&#%d;' % ord(ch), '&#x%x;' % ord(ch)] + (['&%s;' % G.CHARNAMES[ch]] if ch in G.CHARNAMES else []))
            else: out += ch
        return out
    def misc():
        return rng.choice(['<!-- c -->', '<!---->', '<?pi x?>', '<?q?>', '<!-- <a> & -->']) if rng.random() < .15 else ''
    def rt():
        if giant and rng.random() < .1: return rng.choice(['x', 'ab\n', '<', '\xe9']) * (min(G.big(rng), 9000) // 3)
        return ''.join(rng.choice(['1', 't', ' ', '\n', '<', '&', '"', "'", '>', ']]', 'é', '\U0001F600', '\u2028', '\t', '\ufeff', '\xa0', '\x85', '\r']) for _ in range(rng.randint(0, 4)))
    def rec(d, scope):
        scope = dict(scope); at, seen, tags = [], set(), ''
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            p = rng.choice(['', 'p', 'q', 'pp'])
            if p in seen: continue
            seen.add(p); u = rng.choice(URIS)
            scope[p] = u
            tags += ' xmlns%s="%s"' % (':' + p if p else '', u)
        pre = [p for p in scope if p]
        local = rng.choice(LOCALS)
        qn = (rng.choice(pre) + ':' if pre and rng.random() < .5 else '') + local
        aseen = set()
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            a = rng.choice(LOCALS)
            if a in aseen: continue
            aseen.add(a); v = rt()
            q = rng.choice('"\'')
            lit = ''.join('&#%d;' % ord(ch) if ch in '<&\n\t\r' or ch == q or rng.random() < .1 else ch for ch in v)
            at.append([a, v]); tags += ' ' + (rng.choice(pre + ['xml']) + ':' if (pre or a in ('b', 'id', 'lang', 'space', 'base')) and rng.random() < .4 else '') + a + '=' + q + lit + q
        if attl and qn == 'a' and 'dflt' not in aseen: at.append(['dflt', 'd v'])
        kids, s = [], ''
        for _ in range(rng.randint(0, 3) if d else 0):
            s += misc()
            if rng.random() < .5:
                t = rt(); kids.append(t); s += text(t)
            elif dtd and rng.random() < .2:
                kids.append('E<1'); s += '&ent;'
            else:
                k, ks = rec(d - 1, scope); kids.append(k); s += ks
        s += misc() if d else ''
        m = [local, at, kids]
        if not s and rng.random() < .6: return m, '<%s%s/>' % (qn, tags)
        return m, '<%s%s>%s</%s>' % (qn, tags, s, qn)
    m, s = rec(rng.randint(0, 4), {})
    if rng.random() < .006:
        # long in one direction
        for _ in range(min(G.size(rng), 150)):
            n = rng.choice(LOCALS[1:]); how = rng.random()
            if how < .7: m, s = [n, [], [m]], '<%s>%s</%s>' % (n, s, n)
            else: m, s = [n, [['p', str(how)[:4]]], [m, [n, [], []]]], '<%s p="%s">%s<%s/></%s>' % (n, str(how)[:4], s, n, n)
    pro = ''
    if rng.random() < .2: pro = '<?xml version="1.0"?>'
    pro += misc()
    if dtd: pro += '<!DOCTYPE d [<!ENTITY ent "E&#38;#60;1">%s]>' % ('<!ATTLIST a dflt CDATA "d v">' if attl else '') + misc()
    return m, pro + s + misc()
BAD = ['<a><b></a>', '<a', 'x', '<a b=1/>', '<a>&zz;</a>', '<p:a/>', '<a/><b/>', '<a b="1" b="2"/>', '<a>]]></b>', '', '<a><b>t']
def random_case(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        if rng.random() < .85: out.append(list(gen_doc(rng)))
        else: out.append([None, rng.choice(BAD)])
    return out
def encoded(d, n):
    'text, or bytes in some encoding'
    if n % 2 == 0 and len(d) % 5: return d
    k = len(d) % 7
    if k == 0: return d.encode('utf-16')
    if k in (1, 2) and not d.startswith('<?xml') and all(ord(c) < 256 for c in d): return ('<?xml version="1.0" encoding="iso-8859-1"?>' + d).encode('latin-1')
    if k == 3 and not d.startswith('<?xml'): return '<?xml version="1.0" encoding="iso-8859-1"?>' + d if n % 2 else b'\xef\xbb\xbf' + d.encode('utf-8')
    return d.encode('utf-8')
def attempt(f):
    try: return f(), None
    except (C.Hang, MemoryError): raise
    except Exception as e: return None, type(e).__name__
def check(case):
    tb = X.treebuilder(); earlier = []
    for n, (m, d) in enumerate(case):
        src = encoded(d, n)
        t1, x1 = attempt(lambda: tb.parse(src)); t2, x2 = attempt(lambda: X.treebuilder().parse(src))
        if (x1 is None) != (x2 is None): return 'reused builder: %s, fresh: %s' % (x1 or 'accepts', x2 or 'accepts')
        m1, m2 = (None if t is None else G.merged(C.model(t)) for t in (t1, t2))
        if m1 != m2: return C.diff('tree of a reused builder', m2, m1)
        if t1 is not None: earlier.append((t1, m1))
        if t1 is not None and t2 is not None:
            tt = t1 if n % 2 else t2
            u = C.model(tt); C.edit(u, tt, n)
            r = C.diff('edited tree', u, C.model(tt))
            if r: return r
            t3, x3 = attempt(lambda: tb.parse(src))
            r = C.diff('tree of a document parsed again after another tree was edited', m1, None if t3 is None else G.merged(C.model(t3)))
            if r: return r
            if tt is t1: earlier[-1] = (t1, G.merged(u)); t1 = t3
            earlier.append((t3, m1))
        if m is None: continue
        if x1: return 'well-formed document rejected with %s' % x1
        if t1 is None: return 'no tree'
        r = C.diff('tree', key(G.merged(m)), key(m1)) or C.links(t1) or C.own(t1)
        if r: return r
        ev = []; raw = []
        def h():
            while True:
                e = yield
                raw.append(e); ev.append(C.plain(e))
        X.parse(src, h())
        again = [C.plain(e) for e in raw]
        exp = [ekey(e) for e in G.events_of(m)]
        for what, evs in (('events', ev), ('events looked at after the end', again)):
            j = []
            for e in evs:
                if e[0] == 'chars':
                    if not e[1]: continue
                    if j and j[-1][0] == 'chars': j[-1] = ['chars', j[-1][1] + e[1]]; continue
                j.append(list(e))
            r = C.diff(what, exp, [ekey(e) for e in j])
            if r: return r
    for t, mm in earlier:
        r = C.diff('tree built earlier', mm, G.merged(C.model(t)))
        if r: return r
def key(m): return m if isinstance(m, str) else [m[0], sorted(m[1]), [key(c) for c in m[2]]]
def ekey(e): return e if e[0] != 'start' else [e[0], e[1], sorted(e[2]), e[3]]
def nontrivial(case): return any(x in d for _, d in case for x in ('xmlns', '/>', '<!', '<?', '&#'))
