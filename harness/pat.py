'Reference meaning of patterns: a path of names against steps'
from functools import lru_cache
from . import gen as G
def matches(pattern, path):
    'whole pattern matches whole path of names'
    pattern = tuple(tuple(s) if isinstance(s, (list, tuple)) else s for s in pattern); path = tuple(path)
    @lru_cache(None)
    def f(i, j):
        if i == len(pattern): return j == len(path)
        s = pattern[i]
        if s == '**': return f(i + 1, j) or (j < len(path) and f(i, j + 1))
        if j == len(path): return False
        ok = s == '*' or (path[j] in s if isinstance(s, tuple) else path[j] == s)
        return ok and f(i + 1, j + 1)
    return f(0, 0)
def outermost(m, pattern, include_root):
    'indices paths of the selected elements of a model tree, in document order'
    out = []
    def rec(x, ix, names):
        if names and matches(pattern, names):
            out.append(ix); return
        for i, c in enumerate(x[2]):
            if not isinstance(c, str): rec(c, ix + [i], names + [c[0]])
    rec(m, [], [m[0]] if include_root else [])
    return out
WIDE = ['a', 'b', 'A', 'aB', 'ab', 'a.b', 'a|b', '#text', '\xe9', 'a-1']
DOCW = [n for n in WIDE if n not in ('a|b', '#text')]
def rand_pattern(rng, names=('a', 'b', 'c')):
    p = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < .4: p.append(rng.choice(names))
        elif r < .6: p.append('*')
        elif r < .85: p.append('**')
        else: p.append([rng.choice(names) for _ in range(rng.randint(1, 3))])
    if rng.random() < .01 and p:
        # many alternatives; many steps
        if rng.random() < .5: p[rng.randint(0, len(p) - 1)] = ['q%d' % i for i in range(rng.choice(G.INTS))] + [rng.choice(names)]
        else: p += [rng.choice(['*', rng.choice(names)]) for _ in range(min(40, G.size(rng)))]
    while p and p[-1] == '**': p.pop()
    return p or [rng.choice(names)]
def deep(rng, names, cap=150):
    'a deep document, and a pattern which selects something far down'
    k = min(cap, G.size(rng) + 1); x = m = [rng.choice(names), [], []]
    for i in range(k):
        y = [rng.choice(names), [], []]
        if rng.random() < .1: x[2].append(['c', [], []])
        x[2].append(y); x = y
    x[2].append(['zz', [], ['t']])
    return m, rng.choice([['**', 'zz'], ['**', '*', 'zz'], ['**', '*', '**', 'zz'], ['*', '**', ['q', 'zz']], ['*'] * (k + 1) + ['zz'], ['*'] * k + ['**', 'zz']])
def tame(m, p):
    'at most two steps ** on deep trees: the time taken by the machines grows with a power of the depth'
    def depth(m): return 0 if isinstance(m, str) else 1 + max(map(depth, m[2]), default=0)
    if depth(m) < 15: return p
    out = []
    for s in p:
        if s == '**' and out.count('**') == 2: s = '*'
        out.append(s)
    return out
def long_cases():
    'trees and patterns in which one thing is long'
    m = ['a', [], ['t', ['b', [], [['c', [], ['x']], ['q', [], []]]], ['c', [], [['b', [], []]]], ['b', [], []]]]
    for k in G.sizes(2, 400):
        alt = ['q%d' % i for i in range(k - 1)]
        for p in ([alt + ['b']], [['b'] + alt], ['**', alt + ['b']], [alt + ['b'], alt + ['c']], ['**', alt[:k // 2] + ['c'] + alt[k // 2:], '*']):
            yield m, p; yield m, ['a'] + p
        if k > 120: continue
        d = ['z', [], ['t', ['z', [], []]]]
        for i in range(k): d = ['bc'[i % 2], [], ['u', ['e', [], []], d]]
        for p in (['**', 'z'], ['**', '*', 'z'], ['*'] * k + ['z'], ['*'] * (k - 1) + ['z'], ['*'] * (k + 1) + ['z'], ['*'] * (k // 2) + ['**', 'z'], ['**', 'e'], ['*'] * (k // 2 + 1) + ['e']) + ((['**', 'b', '**', 'c', '**', 'z'],) if k < 35 else ()): yield d, p
        if k <= 40: yield d, (['b', 'c', '*'] * k)[:k] + ['z']
        n = 'n' * k
        yield ['a', [], [[n, [], []], [n + 'n', [], [[n, [], ['t']]]], ['n', [], []]]], ['**', n]
        yield ['a', [], [x for i in range(k) for x in (['b', [], ['t']], 'u', ['c', [], [['b', [], []]]])]], ['**', 'b']
        yield ['a', [], [x for i in range(k) for x in (['b', [], ['t']], 'u', ['c', [], [['b', [], []]]])]], ['*', '*', 'b']
def real(p): return tuple(tuple(s) if isinstance(s, list) else s for s in p)
def all_patterns(n, names=('a', 'b')):
    import itertools
    for k in range(1, n + 1):
        for p in itertools.product(list(names) + ['*', '**', ['a', 'b']], repeat=k):
            if p[-1] != '**': yield list(p)
