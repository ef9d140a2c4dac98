from .. import gen as G, common as C, ref as RF
RULE = 'texts and attribute values over legal characters, written literally or as references, in both quoting styles; every code point at a border of a character class (thorough: every code point) written literally and as a hexadecimal reference; references malformed by construction must be rejected. Non-trivial: contains a reference or a non-ASCII character.'
QUICK, THOROUGH = 200000, 1000000
CH = [c for c in range(0x110000)]
def exhaustive(tier):
    for k in G.sizes(2):
        for where in ('text', 'dq', 'sq'):
            for t, s in (('ab c' * k, 'ab c' * k), ('<' * k, '&lt;' * k), ('x' * k + 'Az', 'x' * k + '&#x41;z'), ('A' + 'x' * k, '&#x41;' + 'x' * k), ('B', '&#x' + '0' * k + '42;'), ('\u1234' * k, '&#x1234;' * k)): yield ['ok', where, t, s]
            yield ['badref', where, 'x' * k, '&#x0;', 'y']; yield ['badref', where, '', '&' + 'x' * k + ';', 'y']; yield ['badref', where, '', '&#x' + '0' * k + ';', 'y']; yield ['badref', where, '', '&#x' + '1' * (k + 6) + ';', '']
    e = G.edges(G.CHAR_R) + list(range(0, 0x300)) + [0x2028, 0xfeff]
    if tier == 'thorough': e = range(0, 0x110000)
    for c in e: yield ['cp', c]
    for b in G.BAD_REFS:
        for where in ('text', 'dq', 'sq'): yield ['badref', where, 'x', b, 'y']
    for raw in ('\r', '>', '\x00', '\x7f', '\ufffe', '\ufdd0'): yield ['raw', 'text', 'x', raw, 'y']
    for raw in ('\t', '\n', '>', '\r', '\x01'):
        for where in ('dq', 'sq'): yield ['raw', where, 'x', raw, 'y']
def random_case(rng):
    r = rng.random()
    where = rng.choice(['text', 'dq', 'sq'])
    if r < .75:
        t = G.rand_text(rng, 8)
        q = {'text': None, 'dq': '"', 'sq': "'"}[where]
        return ['ok', where, t, G.lex_text(rng, t, q, rng.choice([0, .1, .5]))]
    q = {'text': None, 'dq': '"', 'sq': "'"}[where]
    if r < .86: return ['any', where, RF.mutate(rng, G.lex_text(rng, G.rand_text(rng, 5), q, rng.choice([.1, .5])))]
    if r < .95: return ['badref', where, G.lex_text(rng, G.rand_text(rng, 3), q), G.bad_ref(rng), G.lex_text(rng, G.rand_text(rng, 3), q)]
    raw = rng.choice('\r>\x00\x08\x7f\x80\x9f\ufdd0\ufffe\ud800') if where == 'text' else rng.choice('\t\n\r>\x00\x7f')
    return ['raw', where, G.rand_text(rng, 1).replace('<', '').replace('&', '').replace('"', '').replace("'", ''), raw, '']
def doc(where, s):
    return '<a>%s</a>' % s if where == 'text' else '<a v=%s%s%s></a>' % (('"', s, '"') if where == 'dq' else ("'", s, "'"))
def run(where, s):
    ev, _, x = C.run_parser([doc(where, s)])
    if x: return None, x, ev
    if where == 'text':
        t = ''.join(e[1] for e in ev if e[0] == 'chars')
        if any(e[0] == 'chars' and not e[1] for e in ev) or sum(e[0] == 'chars' for e in ev) > 1: return ('?', ev), None, ev
        return t, None, ev
    if ev[0][:2] == ['start', 'a'] and [a for a, _ in ev[0][2]] == ['v'] and len(ev) == 2: return ev[0][2][0][1], None, ev
    return ('?', ev), None, ev
def expect(where, src, val):
    got, x, _ = run(where, src)
    if x: return 'legal data rejected with %s: %r' % (x, src)
    if got != val: return 'decoding %r in %s: expected %s, got %s' % (src, where, ascii(val), ascii(got))
def expect_bad(where, src):
    got, x, ev = run(where, src)
    if not x: return 'malformed or illegal reference accepted: %r gives %s' % (src, ascii(got))
def check(case):
    k = case[0]
    if k == 'cp':
        c = case[1]; ch = chr(c)
        for where in ('text', 'dq', 'sq'):
            for ref in ('&#x%x;' % c, '&#x%06X;' % c):
                r = expect(where, 'p' + ref + 'q', 'p' + ch + 'q') if G.inr(c, G.CHAR_R) else expect_bad(where, 'p' + ref + 'q')
                if r: return r
            quote = {'text': '', 'dq': '"\t\n', 'sq': "'\t\n"}[where]
            if G.inr(c, G.CHAR_R) and ch not in '<>&' and ch not in quote:
                r = expect(where, 'p' + ch + ch + 'q', 'p' + ch + ch + 'q')
                if r: return r
        return
    if k == 'ok': return expect(case[1], case[3], case[2])
    if k == 'badref': return expect_bad(case[1], case[2] + case[3] + case[4])
    if k == 'any':
        stop = {'text': '<', 'dq': '"', 'sq': "'"}[case[1]]
        exp = RF.events(doc(case[1], case[2]))
        if exp is None or exp != RF.REJECT and (len(exp) != 2 + (case[1] == 'text' and len(case[2]) > 0) or case[1] != 'text' and len(exp[0][2]) != 1): return
        if exp == RF.REJECT: return expect_bad(case[1], case[2]) if stop not in case[2] else None
        return expect(case[1], case[2], ''.join(e[1] for e in exp if e[0] == 'chars') if case[1] == 'text' else exp[0][2][0][1])
    # raw illegal character: must be rejected; see known finding K1
    got, x, ev = run(case[1], case[2] + case[3] + case[4])
    if x: return None
    legal = [ch for ch in case[2] + case[3] + case[4] if G.is_char(ch) and ch not in '<>&' and (case[1] == 'text' or ch not in '\t\n' )]
    if got == ''.join(legal): return 'KNOWN:K1:raw character U+%04X in %s is dropped' % (ord(case[3]), 'character data' if case[1] == 'text' else 'an attribute value')
    return 'raw illegal character: %r in %s gives %s' % (case[3], case[1], ascii(got))
def nontrivial(case): return case[0] != 'ok' or case[2] != case[3] or not case[2].isascii()
