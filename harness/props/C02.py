from .. import gen as G, common as C, ref
RULE = 'random trees written as documents: events compared with the tree they were written from, delivered event objects compared again after the parse; documents malformed by construction must be rejected; small changes of documents, judged by a reference recognizer; all names of up to one character at range borders; every character up to U+00FF and at range borders in each place of small documents. Non-trivial: document with at least two tags.'
QUICK, THOROUGH = 160000, 800000
def exhaustive(tier):
    step = 1 if tier == 'thorough' else 1
    for c in G.edges(G.NAME_R) + G.edges(G.NAMESTART_R):
        if not 0xd800 <= c <= 0xdfff and c not in (9, 10, 13, 32, ord('/'), ord('>'), ord('=')):
            yield ['name', c]
    for c in sorted(set(range(0x100)) | {c for c in G.edges(G.NAME_R) + G.edges(G.CHAR_R) if not 0xd800 <= c <= 0xdfff} | {0x2028, 0x3000, 0xfeff, 0x200b, 0x2003}):
        for ctx in ('%s<a></a>', '<a></a>%s', '<a></a>\n%s', '<a>%s</a>', '<a %s></a>', '<a></a%s>', '<a b%s="1"></a>', '<a b=%s"1"></a>', '<a b="1"%s></a>', '<a b="1"%s c="2"></a>', '<a></%sa>', '<a b="%s"></a>', '<a><b></b>%s</a>', '<a %sb="1"></a>', '<a b=%s></a>'):
            yield ['any', ctx.replace('%s', chr(c))]
    for m, d in G.long_docs(): yield ['doc', m, d]
def random_case(rng):
    if rng.random() < .65:
        m, d = G.rand_doc(rng, depth=rng.choice([1, 2, 3, 6]), maxkids=rng.choice([1, 3, 5]))
        return ['doc', m, d]
    if rng.random() < .5: return ['any', ref.mutate(rng, G.rand_doc(rng, depth=2, maxkids=3)[1])]
    k, d = G.malformed(rng)
    return ['bad', k, d]
def wholly(d, ev, x):
    'parse() of the parser and of the tree module do the same as the parser fed by hand: events, and whether the document is rejected'
    for what, f in (('parser.parse', lambda: [C.plain(e) for e in C.P.parse(d)]), ('tree.parse', lambda: C.tree.parse(d))):
        try: got = f()
        except (C.Hang, MemoryError): raise
        except Exception as e:
            if not x: return '%s rejects %s: %s' % (what, C.short(d), type(e).__name__)
            continue
        if x: return '%s accepts the malformed document %s' % (what, C.short(d))
        if what == 'parser.parse' and got != ev: return C.diff('events of parser.parse', ev, got)
def check(case):
    if case[0] == 'name':
        ch = chr(case[1])
        for nm, ok, ctx in ((ch, G.is_namestart(ch), '<%s></%s>'), ('n' + ch, G.is_name(ch), '<%s></%s>'), (ch, G.is_namestart(ch), '<a %s="1"></a>'), ('n' + ch, G.is_name(ch), '<a %s="1"></a>')):
            d = ctx.replace('%s', nm)
            ev, _, x = C.run_parser([d])
            if ok:
                exp = G.events_of([nm, [], []] if ctx[1] == '%' else ['a', [[nm, '1']], []])
                if x: return 'U+%04X in name rejected (%s): %r' % (case[1], x, d)
                if ev != exp: return C.diff('events of %r' % d, exp, ev)
            elif not x: return 'U+%04X accepted in name: %r gives %s' % (case[1], d, C.short(ev))
        return
    if case[0] == 'doc':
        exp = G.events_of(case[1])
        ev, raw, x = C.run_parser([case[2]])
        if x: return 'well-formed document rejected with %s' % x
        return C.diff('events', exp, ev) or C.diff('events looked at after the end', exp, [C.plain(e) for e in raw]) or wholly(case[2], ev, x)
    if case[0] == 'any':
        d = case[1]; exp = ref.events(d)
        if exp is None: return
        ev, raw, x = C.run_parser([d])
        if exp == ref.REJECT: return wholly(d, ev, x) if x else 'malformed document accepted: %s gives %s' % (C.short(d), C.short(ev))
        if x: return 'well-formed document rejected with %s: %s' % (x, C.short(d))
        return C.diff('events', exp, ev) or wholly(d, ev, x)
    ev, _, x = C.run_parser([case[2]])
    if not x: return 'malformed document (%s) accepted, events %s' % (case[1], C.short(ev))
    return wholly(case[2], ev, x)
def nontrivial(case): return case[0] != 'doc' or bool(case[1][2])
