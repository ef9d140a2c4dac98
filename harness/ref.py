'''Reference recognizer of MicroXML documents, written from the grammar, not from the code under test. Three answers: the events; REJECT, a
definite error; None: not claimed (an unfinished document, or one of the leniencies the properties leave open).'''
from . import gen as G
WS = ' \t\n'
REJECT = 'reject'
class _Open(Exception): pass      # not claimed
class _Bad(Exception): pass
NAMED = {v: k for k, v in G.CHARNAMES.items()}
def reference(s, i):
    'value of the reference that begins at s[i] == "&", and where it ends'
    j = s.find(';', i)
    body = s[i + 1:j] if j >= 0 else s[i + 1:]
    if j < 0 or any(c in '<&"\'' for c in body) :
        # no semicolon in reach: a definite error only if what is there cannot be the beginning of a reference
        if j >= 0: raise _Bad()
        if not ('#x'.startswith(body) or body.startswith('#x') and all(c in '0123456789abcdefABCDEF' for c in body[2:]) or any(n.startswith(body) for n in NAMED)): raise _Bad()
        raise _Open()
    if body in NAMED: return NAMED[body], j + 1
    if body.startswith('#x') and body[2:] and all(c in '0123456789abcdefABCDEF' for c in body[2:]):
        v = int(body[2:], 16)
        if v <= 0x10FFFF and G.inr(v, G.CHAR_R): return chr(v), j + 1
    raise _Bad()
def data(s, i, stop):
    'characters up to the one that ends them'
    out = ''
    while True:
        if i >= len(s): raise _Open()
        c = s[i]
        if c == stop: return out, i
        if c == '&': c, i = reference(s, i)
        elif not G.is_char(c) or c in '<>' or (stop != '<' and c in '\t\n'): raise _Open()
        else: i += 1
        out += c
def events(s):
    try: return _events(s)
    except _Open: return None
    except _Bad: return REJECT
def _events(s):
    i = 0; n = len(s); out = []; stack = []
    def ws():
        nonlocal i
        k = i
        while i < n and s[i] in WS: i += 1
        if i < n and s[i] == '\r': raise _Open()
        return i > k
    def need():
        if i >= n: raise _Open()
        return s[i]
    def name():
        nonlocal i
        k = i
        if not G.is_namestart(need()): raise _Bad()
        i += 1
        while G.is_name(need()): i += 1
        return s[k:i]
    ws()
    if need() != '<': raise _Bad()
    while True:
        i += 1; end = False
        if need() in ' \t\n\r': raise _Open()
        if s[i] == '/':
            end = True; i += 1
            if need() in ' \t\n\r': raise _Open()
        nm = name(); attrs = {}
        sep = ws()
        if not end:
            while G.is_namestart(need()):
                if not sep: raise _Open()
                a = name(); ws()
                if need() != '=': raise _Bad()
                i += 1; ws()
                q = need()
                if q not in '"\'': raise _Bad()
                v, i = data(s, i + 1, q); i += 1
                if a in attrs: raise _Open()
                attrs[a] = v; sep = ws()
        if need() != '>': raise _Bad()
        i += 1
        if end:
            if not stack or stack.pop() != nm: raise _Bad()
            out.append(['end', nm, list(stack)])
            if not stack: break
        else:
            out.append(['start', nm, [[a, v] for a, v in attrs.items()], list(stack)]); stack.append(nm)
        t, i = data(s, i, '<')
        if t: out.append(['chars', t])
    ws()
    if i < n: raise _Bad()
    return out
def mutate(rng, d):
    'a few small changes'
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(d)); r = rng.random()
        if rng.random() < .3: i = min(i, rng.randint(0, 3))
        tok = lambda: rng.choice(G.SOUP + ['>', '<', '/', '=', 'x', ' ', '1', 'é', '&amp;', '\xd7', '\xb7', '\x00', '\x0c', '\x1f', '\x85', '\u2028', '\u3000'])
        if r < .25: d = d[:i] + d[i + 1:]
        elif r < .5: d = d[:i] + tok() + d[i + 1:]
        elif r < .75: d = d[:i] + tok() + d[i:]
        else:
            j = rng.randint(i, min(len(d), i + 6)); k = rng.randint(0, len(d))
            d = d[:k] + d[i:j] + d[k:]
    return d
