'''Regular expressions as minimal automata: two patterns that match the same strings have the same key. Used to say "a string of this form"
in a specification without caring how the code writes the pattern. Trusted.'''
import re, functools
from re import _parser as sp, _constants as sc
MAXC = 0x10FFFF
def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return tuple(out)
def neg(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= MAXC: out.append((p, MAXC))
    return tuple(out)
@functools.lru_cache(None)
def category(c):
    r = re.compile({sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_WORD: r'\w'}[c])
    return norm((i, i) for i in range(MAXC + 1) if r.match(chr(i)))
NEGCAT = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE, sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}
def cat_(c): return neg(category(NEGCAT[c])) if c in NEGCAT else category(c)
class NFA:
    def __init__(self): self.eps, self.tr = [], []
    def state(self): self.eps.append([]); self.tr.append([]); return len(self.eps) - 1
    def build(self, items, s):
        for op, av in items: s = self.one(op, av, s)
        return s
    def chars(self, iv, s): t = self.state(); self.tr[s].append((norm(iv), t)); return t
    def one(self, op, av, s):
        if op is sc.LITERAL: return self.chars([(av, av)], s)
        if op is sc.NOT_LITERAL: return self.chars(neg([(av, av)]), s)
        if op is sc.ANY: return self.chars(neg([(10, 10)]), s)
        if op is sc.IN:
            iv, n = [], False
            for o, v in av:
                if o is sc.NEGATE: n = True
                elif o is sc.LITERAL: iv.append((v, v))
                elif o is sc.RANGE: iv.append(v)
                elif o is sc.CATEGORY: iv.extend(cat_(v))
                else: raise ValueError(o)
            return self.chars(neg(iv) if n else iv, s)
        if op is sc.SUBPATTERN:
            if av[1] or av[2]: raise ValueError('flags')
            return self.build(av[3], s)
        if op is sc.BRANCH:
            e = self.state()
            for b in av[1]: self.eps[self.build(b, s)].append(e)
            return e
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):      # which strings match does not depend on greed
            lo, hi, sub = av
            if lo > 50 or hi is not sc.MAXREPEAT and hi > 50: raise ValueError('repeat')
            for _ in range(lo):
                s2 = self.state(); self.eps[s].append(s2); s = self.build(sub, s2)
            if hi is sc.MAXREPEAT:
                l = self.state(); self.eps[s].append(l); e = self.build(sub, l); self.eps[e].append(l)
                x = self.state(); self.eps[l].append(x); return x
            ends = [s]
            for _ in range(hi - lo):
                s2 = self.state(); self.eps[s].append(s2); s = self.build(sub, s2); ends.append(s)
            x = self.state()
            for e in ends: self.eps[e].append(x)
            return x
        raise ValueError(str(op))
@functools.lru_cache(None)
def key(pattern, how):
    'how: fullmatch, match or search. The key of the set of strings for which it succeeds.'
    p = sp.parse(pattern)
    if p.state.flags & ~re.UNICODE: raise ValueError('flags')
    n = NFA(); s0 = n.state(); ALL = [(0, MAXC)]
    if how == 'search': n.tr[s0].append((tuple(ALL), s0))
    s1 = n.state(); n.eps[s0].append(s1)
    e = n.build(p, s1)
    if how in ('match', 'search'):
        e2 = n.state(); n.eps[e].append(e2); n.tr[e2].append((tuple(ALL), e2)); e = e2
    def close(ss):
        out, todo = set(ss), list(ss)
        while todo:
            for t in n.eps[todo.pop()]:
                if t not in out: out.add(t); todo.append(t)
        return frozenset(out)
    cuts = sorted({0} | {a for tr in n.tr for iv, _ in tr for a, b in iv} | {b + 1 for tr in n.tr for iv, _ in tr for a, b in iv if b < MAXC})
    st = {close([s0]): 0}; order = [close([s0])]; trans = []
    for q in order:
        row = []
        for c in cuts:
            t = close({t for x in q for iv, t in n.tr[x] if any(a <= c <= b for a, b in iv)})
            if t not in st:
                st[t] = len(order); order.append(t)
                if len(order) > 3000: raise ValueError('too big')
            row.append(st[t])
        trans.append(row)
    acc = [e in q for q in order]
    cls = [int(a) for a in acc]
    while True:
        sig = {}; new = [sig.setdefault((cls[i],) + tuple(cls[j] for j in trans[i]), len(sig)) for i in range(len(order))]
        if len(set(new)) == len(set(cls)): break
        cls = new
    num = {cls[0]: 0}; rep = [0]; out = []
    for i in rep:
        row = []
        for c, j in zip(cuts, trans[i]):
            if cls[j] not in num: num[cls[j]] = len(rep); rep.append(j)
            if not row or row[-1][1] != num[cls[j]]: row.append((c, num[cls[j]]))
        out.append((acc[i], tuple(row)))
    return tuple(out)
@functools.lru_cache(None)
def onechar(pattern, how):
    'the characters c for which it succeeds with the string c, as ranges'
    k = key(pattern, how); row = k[0][1]; iv = []
    for i, (c, j) in enumerate(row):
        if k[j][0]: iv.append((c, (row[i+1][0] if i + 1 < len(row) else MAXC + 1) - 1))
    return norm(iv)
_ids = {}
def ident(pattern, how):
    'a number for the set of strings: the same for the same set, in every process'
    import hashlib
    k = key(pattern, how)
    return int(hashlib.sha256(repr(k).encode()).hexdigest()[:12], 16)
