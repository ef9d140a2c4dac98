'''Reference character classes, document and tree generators. Nothing here uses the code under test.

A model tree is ['name', [[attr, value], ...], [child, ...]], a text node is a plain string.'''
import random

def _ranges(*rs):
    return [(a, b) for a, b in rs]
SUPP = [(0x10000 + (p << 16), 0x1FFFD + (p << 16)) for p in range(16)]
CHAR_R = _ranges((9, 10), (0x20, 0x7E), (0xA0, 0xD7FF), (0xE000, 0xFDCF), (0xFDF0, 0xFFFD)) + SUPP
NAMESTART_R = _ranges((65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF),
    (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF))
NAME_R = NAMESTART_R + _ranges((48, 57), (45, 46), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040))
def inr(c, rs):
    return any(a <= c <= b for a, b in rs)
def is_char(ch): return inr(ord(ch), CHAR_R)
def is_namestart(ch): return inr(ord(ch), NAMESTART_R)
def is_name(ch): return inr(ord(ch), NAME_R)
def edges(rs):
    'Code points at and next to the borders of the ranges'
    out = set()
    for a, b in rs:
        for x in (a - 1, a, a + 1, b - 1, b, b + 1):
            if 0 <= x <= 0x10FFFF: out.add(x)
    return sorted(out)

# constants of the code under test: what it compares with may matter as an input (the oracles do not know them)
INTS, STRS, CODES = [2, 3, 8, 16, 20, 32, 50, 64, 100, 128, 255], [], []
def harvest(root):
    import ast, os, warnings; warnings.simplefilter('ignore')
    ints, strs, codes, bigs = set(INTS), set(), set(), set(BIGS)
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith('.py') or f in ('parsetab.py', 'lextab.py'): continue
            try: t = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
            except (SyntaxError, ValueError): continue
            docs = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr)}
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, int) and not isinstance(v, bool):
                        if 1 < v <= 400: ints.add(v)
                        elif 400 < v <= 70000: bigs.add(v)
                        if 0 <= v <= 0x10FFFF: codes.add(v)
                    elif isinstance(v, str):
                        if 0 < len(v) <= 10: strs.add(v)
                        if len(v) <= 3: codes.update(map(ord, v))
    INTS[:] = sorted(ints); BIGS[:] = sorted(bigs); STRS[:] = sorted(x for x in strs if all(is_char(c) for c in x)); CODES[:] = sorted(c for c in codes if inr(c, CHAR_R))
    HNAMES[:] = [x for x in STRS if is_namestart(x[0]) and all(map(is_name, x))]
HNAMES = []
BIGS = [300, 512, 1000, 1024, 2048, 4096, 8192]
def big(rng): return (65536 if rng.random() < .1 else rng.choice(BIGS)) + rng.choice([-1, 0, 1, 1, 7])
def size(rng): return max(0, rng.choice(INTS) + rng.choice([-1, 0, 1, 1]))

NAMES = ['a', 'b', 'c', 'x', 'ab', 'a1']
ODD_NAMES = ['a.b', 'a-1', '\xe9', '_', 'a\xb7', '\U00010000', 'xmlns', 'div', 'and', 'A', '\xc1z', 'a\u0300', '\u3001', 'xml']
TEXT_BITS = ['1', 't', ' ', '\n', '\t', '<', '>', '&', '"', "'", ';', '#x41;', 'lt;', '&lt;', ']]>', 'é', '\U0001F600', '\ue000', 'a', '0', '  ', '\n  ', '-', '/', '=', '\\', '[', ']', '\ufffd', '\xa0']

def rand_char(rng):
    r = rng.random()
    if r < .5: return chr(rng.choice(EDGE_CHARS))
    if r < .6 and CODES: return chr(rng.choice(CODES))
    a, b = rng.choice(CHAR_R)
    return chr(rng.randint(a, b))
EDGE_CHARS = [c for c in edges(CHAR_R) if inr(c, CHAR_R)]

def rand_name(rng, plain=.8):
    r = rng.random()
    if r < plain: return rng.choice(NAMES)
    if r > .985 and HNAMES: return rng.choice(HNAMES) + rng.choice(['', '', 'a'])
    if r > .98:
        if rng.random() < .03: return (rng.choice(NAMES) * (big(rng) // 2 + 1))[:2100]
        return rng.choice(NAMES) * min(60, size(rng))or 'a'
    if r < plain + (1 - plain) * .7: return rng.choice(ODD_NAMES)
    a, b = rng.choice(NAMESTART_R)
    s = chr(rng.choice((a, b, rng.randint(a, b))))
    for _ in range(rng.randint(0, 2)):
        a, b = rng.choice(NAME_R)
        s += chr(rng.choice((a, b, rng.randint(a, b))))
    return s

def rand_text(rng, maxbits=4, minbits=0):
    out = ''
    for _ in range(rng.randint(minbits, maxbits)):
        r = rng.random()
        if r < .15: out += rand_char(rng)
        elif r < .17 and STRS: out += rng.choice(STRS)
        elif r < .175: out += rng.choice(TEXT_BITS) * size(rng)
        elif r < .1752: out += (rng.choice(TEXT_BITS) * big(rng))[:9000 if rng.random() < .9 else 70000]
        else: out += rng.choice(TEXT_BITS)
    return out

def rand_tree(rng, depth=3, maxkids=4, names=None, text=rand_text, adjacent=True, textp=.45, emptytext=True, attrs=True, stretch=.01, cap=150):
    def nm(): return rng.choice(names) if names else rand_name(rng)
    def rec(d):
        at, seen = [], set()
        if attrs and rng.random() < .5:
            for _ in range(rng.randint(1, 3)):
                n = nm()
                if n not in seen:
                    seen.add(n); at.append([n, text(rng)])
        kids = []
        if d > 0:
            for _ in range(rng.randint(0, maxkids)):
                if rng.random() < textp:
                    t = text(rng)
                    if not t and not emptytext: continue
                    if not adjacent and kids and isinstance(kids[-1], str): continue
                    kids.append(t)
                else:
                    kids.append(rec(d - 1))
        return [nm(), at, kids]
    m = rec(rng.randint(0, depth))
    if rng.random() < stretch:
        # long in one direction
        k = min(size(rng), cap); x = rng.choice([n for _, n in nodes(m) if not isinstance(n, str)])
        how = rng.choice(['deep', 'wide', 'attrs', 'texts'])
        if how == 'deep':
            for _ in range(min(k, 130)): y = [nm(), [], []]; x[2].insert(rng.randint(0, len(x[2])), y); x = y
        elif how == 'wide': x[2].extend([nm(), [], []] for _ in range(k))
        elif how == 'attrs' and attrs: x[1] = [['n%d' % i, str(i % 7)] for i in range(k)]
        elif adjacent: x[2].extend(str(i % 7) for i in range(k))
    return m

def small_text(rng):
    if STRS and rng.random() < .03: return rng.choice(STRS)
    return rng.choice(['1', '1', '2', 't', '', ' ', '12', '-3.5', '\n'])
def small_trees(size, names=('a', 'b'), texts=('t',)):
    'All trees with exactly `size` nodes, by number of nodes (including the root)'
    def forests(n):
        if n == 0:
            yield []; return
        for k in range(1, n + 1):
            for t in trees(k):
                for f in forests(n - k):
                    yield [t] + f
    def trees(n):
        if n == 1:
            for t in texts: yield t
        for nm in names:
            for f in forests(n - 1):
                yield [nm, [], f]
    for t in trees(size):
        if not isinstance(t, str): yield t

def nodes(m):
    'all nodes in document order, with path of child indices'
    def rec(m, path):
        yield path, m
        if not isinstance(m, str):
            for i, c in enumerate(m[2]): yield from rec(c, path + [i])
    yield from rec(m, [])
def merged(m):
    'adjacent text joined, empty text dropped'
    if isinstance(m, str): return m
    kids = []
    for c in m[2]:
        if isinstance(c, str):
            if not c: continue
            if kids and isinstance(kids[-1], str): kids[-1] += c
            else: kids.append(c)
        else: kids.append(merged(c))
    return [m[0], [list(a) for a in m[1]], kids]
def value(m):
    return m if isinstance(m, str) else ''.join(value(c) for c in m[2])

# -- documents written from trees, with random lexical choices -------------------------------------------------------
CHARNAMES = {'<': 'lt', '>': 'gt', '&': 'amp', '"': 'quot', "'": 'apos'}
def ws(rng, p=.25, must=False):
    s = ''
    while rng.random() < p or (must and not s):
        s += rng.choice(' \n\t ')
        if len(s) > 3: break
    return s
def charref(rng, ch):
    h = '%x' % ord(ch)
    if rng.random() < .5: h = h.upper()
    if rng.random() < .3: h = '0' * (rng.randint(1, 3) if rng.random() < .9 else size(rng) if rng.random() < .98 else big(rng)) + h
    return '&#x' + h + ';'
def lex_text(rng, t, quote=None, p=.1):
    out = ''
    for ch in t:
        must = ch in '<>&' or ch == quote or (quote and ch in '\t\n') or not is_char(ch)
        if must or rng.random() < p:
            if ch in CHARNAMES and rng.random() < .7: out += '&' + CHARNAMES[ch] + ';'
            else: out += charref(rng, ch)
        else: out += ch
    return out
def lex_attr(rng, n, v):
    q = rng.choice('"\'')
    return n + ws(rng, .1) + '=' + ws(rng, .1) + q + lex_text(rng, v, q) + q
def write_doc(rng, m, top=True):
    if isinstance(m, str): return lex_text(rng, m)
    s = ''
    if top: s += ws(rng)
    s += '<' + m[0] + ''.join(ws(rng, must=True) + lex_attr(rng, n, v) for n, v in m[1]) + ws(rng, .15) + '>'
    s += ''.join(write_doc(rng, c, False) for c in m[2])
    s += '</' + m[0] + ws(rng, .15) + '>'
    if top: s += ws(rng)
    return s
def events_of(m):
    'events of the document: start, name, attrs, open ancestors / end, name, open ancestors / chars, text'
    m = merged(m)
    out = []
    def rec(m, anc):
        if isinstance(m, str):
            out.append(['chars', m]); return
        out.append(['start', m[0], [list(a) for a in m[1]], list(anc)])
        for c in m[2]: rec(c, anc + [m[0]])
        out.append(['end', m[0], list(anc)])
    rec(m, [])
    return out

def rand_doc(rng, **kw):
    m = rand_tree(rng, **kw)
    return m, write_doc(rng, m)

# -- documents that have to be rejected -------------------------------------------------------------------------------
BAD_REFS = ['&#x0;', '&#x8;', '&#xd;', '&#xD;', '&#x7f;', '&#x9F;', '&#xd800;', '&#xDFFF;', '&#xfdd0;', '&#xFDEF;', '&#xfffe;', '&#xffff;', '&#x1fffe;', '&#x10ffff;', '&#x110000;',
    '&#xffffffff;', '&#x;', '&#xg;', '&#x4 1;', '&#65;', '&#X41;', '&#x41 ;', '&foo;', '&LT;', '&l;', '&ltt;', '&;', '& lt;', '&lt ;', '&nbsp;', '&Amp;', '&a&lt;', '&#;', '&amp &lt;', '&quo;', '&#x-41;', '&lt&gt;',
    '&#x4_1;', '&#x_41;', '&#x41_;', '&#x4__1;', '&#x+41;', '&#x4.1;', '&#x41h;', '&#x41\xa0;', '&#x\t41;', '&#x41\n;', '&#x0x41;', '&#xx41;', '&#x\u0664\u0661;', '&#x\uff14\uff11;', '&#x\U0001d7d21;', '&#x4e+1;', '&#u41;', '&#\u066541;']
ODD = '_+-. \t\nghxXoLl#\xa0\u0664\uff11\u0967\u2003\u200b\U0001d7cf,:/'
NAMED_REFS = set(CHARNAMES.values())
def bad_ref(rng):
    r = rng.random()
    if r < .5: return rng.choice(BAD_REFS)
    if r < .65:
        # a hexadecimal body with a character which is no hexadecimal digit
        b = list(rng.choice(['41', '3c', 'e9', '10ffff', '20', 'a', '']))
        for _ in range(rng.choice([1, 1, 2])): b.insert(rng.randint(0, len(b)), rng.choice(ODD))
        return '&#x' + ''.join(b) + ';'
    if r < .75:
        b = list(rng.choice(sorted(NAMED_REFS)))
        k = rng.randint(0, len(b) - 1); how = rng.random()
        if how < .3: b.insert(k, rng.choice(ODD + 'abz'))
        elif how < .6: b[k] = b[k].upper()
        elif how < .8: b.append(rng.choice(b + list(ODD)))
        else: b[k] = rng.choice('abcdz')
        if ''.join(b) not in NAMED_REFS: return '&' + ''.join(b) + ';'
    if r < .85: return '&' + rng.choice(['', 'l', 'am', 'apo', 'gtt', 'x', 'quote']) + rng.choice(['z', '1', 'q']) + ';'
    while True:
        c = rng.choice([rng.randint(0, 0x10FFFF), rng.choice(edges(CHAR_R)), rng.randint(0x110000, 0x2000000)])
        if not inr(c, CHAR_R): return '&#x%x;' % c
def malformed(rng):
    'a document that is not well-formed, with the reason'
    m, doc = rand_doc(rng, depth=2, maxkids=3)
    kind = rng.choice(['mismatch', 'mismatch', 'nameless', 'nameless_end', 'unterminated', 'unquoted', 'junk', 'junkel', 'badref', 'badref', 'badattrref', 'badattrref', 'prolog', 'noeq', 'badname', 'rootref', 'lt_in_attr', 'endattr'])
    txt = lambda: lex_text(rng, rand_text(rng, 2))
    n = rand_name(rng)
    other = rng.choice([x for x in NAMES + [n + 'x', n[:-1], n + '.', n.swapcase()] if x and x != n and is_namestart(x[0])])
    ins = None
    if kind == 'mismatch': ins = '<%s>%s</%s>' % (n, txt(), other)
    elif kind == 'nameless': ins = rng.choice(['<>', '< >', '<=>', '<1>', '<-a>', '<.>', '<"a">', '<\xb7>']) + txt()
    elif kind == 'nameless_end': ins = '<%s>%s</>' % (n, txt())
    elif kind == 'unterminated': ins = '<%s%s<%s></%s>' % (n, ws(rng), other, n)
    elif kind == 'unquoted': ins = '<%s %s=%s>%s</%s>' % (n, other, rng.choice(['1', 'x', 'x"', '&lt;', '/', '<']), txt(), n)
    elif kind == 'noeq': ins = '<%s %s%s>%s</%s>' % (n, other, rng.choice(['', ' ', ' "x"', '"x"', ' y="1"']), txt(), n)
    elif kind == 'badname': ins = '<%s%s>%s</%s>' % (n, rng.choice([':', '!', '%', '\xd7', '\u2000', '*', ',']), txt(), n)
    elif kind == 'badref': ins = txt() + bad_ref(rng) + txt()
    elif kind == 'badattrref':
        q = rng.choice('"\'')
        ins = '<%s %s=%s%s%s%s%s></%s>' % (n, other, q, lex_text(rng, rand_text(rng, 2), q), bad_ref(rng), lex_text(rng, rand_text(rng, 2), q), q, n)
    elif kind == 'endattr': ins = '<%s>%s</%s %s="1">' % (n, txt(), n, other)
    elif kind == 'rootref': return kind, rng.choice(['&lt;', '&#x41;', 'x']) + doc
    elif kind == 'junk': return kind, doc + rng.choice(['x', '&lt;', '1 ', ' y', '>', '\n.'])
    elif kind == 'junkel': return kind, doc + rng.choice(['<a>', '<', '</a>', '<a></a>', ' <b></b>'])
    elif kind == 'prolog': return kind, rng.choice(['x', '>', ' t', '/', '\ue000', '&', '"']) + doc
    elif kind == 'lt_in_attr': return 'nothing', doc + 'x'
    # into the content of some element, or as it is with a root around it
    return kind, '<%s>%s%s' % (rng.choice(NAMES), txt(), ins) + rng.choice(['', 'x', '</%s>' % n])
SOUP = ['<', '>', '/', '=', '"', "'", '&', ';', '#', 'x', 'a', 'b', ' ', '\n', '</', '<a', '</a>', '<a>', '&lt;', '&#x', '41', 'lt', ' a="', "='", '\t', '.', '-', '\ufeff', '\u0300', '\r', '!--', '\ud800']
def soup(rng, n=10):
    s = ''.join(rng.choice(SOUP) for _ in range(rng.randint(0, n)))
    return s
def any_doc(rng):
    r = rng.random()
    if r < .45: return rand_doc(rng, depth=2, maxkids=3)[1]
    if r < .7: return malformed(rng)[1]
    if r < .85: return soup(rng)
    d = rand_doc(rng, depth=2, maxkids=3)[1]
    r = rng.random()
    if r < .4: return d[:rng.randint(0, len(d))]
    i = rng.randint(0, len(d))
    return d[:i] + rng.choice(SOUP) + d[i + rng.randint(0, 1):]
def cuts(rng, doc):
    'fragments, with empty ones'
    r = rng.random()
    if r < .3 and len(doc) < 400: fr = list(doc)
    else:
        k = sorted(rng.randint(0, len(doc)) for _ in range(rng.choice([1, 1, 2, 3, 6])))
        fr = [doc[a:b] for a, b in zip([0] + k, k + [len(doc)])]
    if rng.random() < .4: fr.insert(rng.randint(0, len(fr)), '')
    return fr

# -- long in one direction: one document for each size that may matter and each kind of length ---------------------------
def sizes(lo=0, hi=9000): return sorted({k + d for k in INTS + BIGS for d in (-1, 0, 1) if lo <= k + d <= hi})
def long_models(depth=250, wide=400, hi=9000):
    'trees in which one thing is long'
    for k in sizes(2, hi):
        n, t = 'n' * k, ('ab c' * k)[:k]
        yield [n, [], [[n, [['b', '1']], ['x']], 'y']]
        yield ['a', [[n, '1'], ['c', '2']], ['x']]
        yield ['a', [], [t, ['b', [], [t]], 'y' + t]]
        yield ['a', [['b', t], ['c', '2']], [['d', [['b', t + 'z']], []]]]
        yield ['a', [['b', '<' * k]], ['&<>"' * (k // 4 + 1), ['c', [], ['z']]]]
        yield ['a', [], [' ' * k, ['b', [], ['\n' * k]]]]
        if k <= wide:
            yield ['a', [], [['bc'[i % 3 == 0], [], ['t'] if i % 5 == 0 else []] for i in range(k)]]
            yield ['a', [['n%d' % i, str(i % 7)] for i in range(k)], [['b', [], []]]]
            yield ['a', [], [c for i in range(k) for c in ('t%d' % i, ['b', [], []])]]
        if k <= depth:
            m = ['z', [], ['t']]
            for i in range(k): m = ['bc'[i % 3 == 0], [['d', str(i)]] if i % 4 == 0 else [], [m] if i % 2 else ['u', m, ['e', [], []]]]
            yield m
def plain_doc(m, ref='&#x%x;'):
    'the shortest spelling'
    def esc(t, q=''): return ''.join(ref % ord(c) if c in '<>&' or q and c in '"\n\t' else c for c in t)
    if isinstance(m, str): return esc(m)
    return '<' + m[0] + ''.join(' %s="%s"' % (n, esc(v, 1)) for n, v in m[1]) + '>' + ''.join(plain_doc(c, ref) for c in m[2]) + '</' + m[0] + '>'
def long_docs(depth=250, wide=400, hi=9000):
    'trees, and documents that mean them'
    for i, m in enumerate(long_models(depth, wide, hi)): yield m, plain_doc(m, '&#x%X;' if i % 2 else '&#x000%x;')
    m = ['a', [['b', '1'], ['c', '>']], ['t>', ['d', [], []], 'u']]
    for k in sizes(2, hi):
        w = (' \n\t' * k)[:k]
        yield m, w + '<a b="1" c=">"><d></d></a>'.replace('><d', '>t><d').replace('</d>', '</d>u').replace('">"', '"&gt;"').replace('t>', 't&gt;')
        yield m, '<a b="1" c="&gt;">t&gt;<d></d>u</a>' + w
        yield m, '<a%sb="1"%sc="&gt;"%s>t&gt;<d%s></d%s>u</a>' % (w, w, w, w, w)
        yield m, '<a b="1" c="&#x%s3e;">t&#x%s3E;<d></d>u</a>' % ('0' * k, '0' * k)
