from .. import gen as G, common as C
RULE = 'documents (written from random trees with random references, quotes and white space; malformed by construction; truncated; token soup) times fragmentations (single characters, empty fragments, 1-6 random cuts); every 2-cut of small documents. Non-trivial: at least one event or a rejection, and at least one cut inside the text.'
QUICK, THOROUGH = 120000, 1500000
SMALL = ['<a>b</a>', ' <a x="1" y=\'&lt;\'>&#x41;t</a> ', '<a><b></b>&amp;<c d = "2">\n</c></a>', '<a></a>x', '<a b="&#xzz;"></a>', '<ab.c a1="&quot;\'">&apos;</ab.c>\n\n', '<a></b>', '<a>&bad;</a>', '<a x=1></a>', '', ' ', 'x<a></a>']
def exhaustive(tier):
    for d in SMALL:
        for i in range(len(d) + 1):
            for j in range(i, len(d) + 1):
                yield [[d[:i], d[i:j], d[j:]], (i + j) % 2 == 1]
    for i, (_, d) in enumerate(G.long_docs(depth=120, wide=120, hi=9000 if tier == 'thorough' else 4200)):
        n = len(d); m = n // 2
        yield [[d[:m], d[m:]], i % 2 == 0]
        yield [[d[:4], d[4:-5], d[-5:]], i % 2 == 1]
        if n < 1500 and i % 3 == 0: yield [list(d), False]
def random_case(rng):
    d = G.any_doc(rng)
    return [G.cuts(rng, d), rng.random() < .4]
def check(case):
    frags, last = case
    d = ''.join(frags)
    one, _, x1 = C.run_parser([d] if d else [], False)
    if last and (not frags or not frags[-1]): last = False  # a last fragment without content is the same as the empty end mark
    got, _, x2 = C.run_parser(frags, last)
    r = C.diff('events', one, got)
    if r: return r
    if (x1 is None) != (x2 is None): return 'in one piece: %s, in fragments: %s' % (x1 or 'accepted', x2 or 'accepted')
    # two parsers that take turns
    if len(frags) > 1 and (len(d) + len(frags)) % 2 == 0:
        seen = [[], []]; exc = [None, None]; todo = [list(frags) + [''], [d[:1], d[1:len(d) // 2 + 1], d[len(d) // 2 + 1:], '']]
        def h(o):
            while True: o.append(C.plain((yield)))
        ps = [C.P.parser(h(seen[0])), C.P.parser(h(seen[1]))]
        while any(todo):
            for i in (0, 1):
                if not todo[i]: continue
                f = todo[i].pop(0)
                try: ps[i].send((f, not todo[i]))
                except (C.Hang, MemoryError): raise
                except Exception as e: exc[i] = type(e).__name__; todo[i] = []
        for i in (0, 1):
            r = C.diff('events of parser %d of two that take turns' % i, one, seen[i]) or C.diff('parser %d of two that take turns is rejected' % i, x1 is None, exc[i] is None)
            if r: return r
    # the public entry points
    if x1 is None:
        for what, f in (('parse', lambda: C.P.parse(d)), ('parsefrags', lambda: C.P.parsefrags(frags))):
            if d: r = C.diff(what, one, [C.plain(e) for e in f()])
            if r: return r
    else:
        for what, f in (('parse', lambda: C.P.parse(d)), ('parsefrags', lambda: C.P.parsefrags(frags))):
            try: list(f())
            except C.Hang: raise
            except Exception: continue
            return what + ' accepts what the parser rejects'
def nontrivial(case): return len([f for f in case[0] if f]) > 1
