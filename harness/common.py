'''Use of the code under test: converting between model trees and real trees, running things with a guard.'''
import signal, random, copy
from amara3.uxml import tree, parser as P

class Hang(Exception): pass
def _alarm(*a): raise Hang('no answer within the time limit')
def guarded(f, secs=10):
    # processor time, so that a busy machine makes no difference
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, secs)
    try: return f()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)

class special(tree.element):
    'an element of a derived class, as those of the HTML parser are'
def build(m, sub=None):
    'real tree from model; sub: names of which the elements are of a derived class'
    if isinstance(m, str): return tree.text(m)
    make = special if sub and m[0] in sub else tree.element
    e = make(m[0], dict((k, v) for k, v in m[1])) if m[1] else make(m[0])
    for c in m[2]: e.xml_append(build(c, sub))
    return e
def model(e):
    'model of a real tree (by its own fields)'
    if isinstance(e, tree.element):
        return [e.xml_name, [[k, v] for k, v in e.xml_attributes.items()], [model(c) for c in e.xml_children]]
    if isinstance(e, str): return str(e)
    raise TypeError('neither element nor text: %r' % (e,))
def links(e, top=True):
    'None or a complaint about parent links'
    if top and e.xml_parent is not None: return 'the root has a parent'
    for c in e.xml_children:
        if not isinstance(c, tree.node): return 'child %r is not a node' % (c,)
        if c.xml_parent is not e: return 'wrong parent of %r in %s' % (c, e.xml_name)
        if isinstance(c, tree.element):
            r = links(c, False)
            if r: return r
def own(e):
    'None or a complaint about nodes, attributes or lists of children which occur twice in a tree'
    seen = {}
    def rec(e):
        for what, x in [('node', e)] + ([('attributes', e.xml_attributes), ('list of children', e.xml_children)] if isinstance(e, tree.element) else []):
            if id(x) in seen: return 'the %s of %s occurs twice in the tree' % (what, short(e, 80))
            seen[id(x)] = x
        if isinstance(e, tree.element):
            for c in e.xml_children:
                r = rec(c)
                if r: return r
    return rec(e)
def walk(m, e):
    'pairs of model and real nodes'
    yield m, e
    if not isinstance(m, str):
        for a, b in zip(m[2], e.xml_children): yield from walk(a, b)
def edit(m, e, k=0):
    'one edit in place, to the model and to the real tree alike, chosen by k and the shape of the tree'
    els = [(a, b) for a, b in walk(m, e) if not isinstance(a, str)]
    a, b = els[(len(els) * 2 // 3 + k) % len(els)]
    how = (len(els) + len(a[2]) + k) % 8
    if how >= 6:
        # a text replaced by another, or a child moved, so that the tree keeps its shape
        some = [(x, y) for x, y in els if any(isinstance(c, str) for c in x[2])] if how == 6 else [(x, y) for x, y in els if len(x[2]) > 1]
        if some:
            a, b = some[-1 - k % len(some)]
            i = [isinstance(c, str) for c in a[2]].index(True) if how == 6 else 0
            old, c = a[2].pop(i), b.xml_children[i]; b.xml_remove(c)
            if how == 6: a[2].insert(i, old + 'v'); b.xml_insert(old + 'v', i)
            else: a[2].append(old); b.xml_append(c)
            return
        how -= 6
    if how == 0 or how == 4 and not a[2]: a[2].append('z!'); b.xml_append('z!')
    elif how == 1: a[2].append(['zz', [], ['y']]); b.xml_append(build(['zz', [], ['y']]))
    elif how == 2:
        if a[1]: a[1][0][1] += 'q'; b.xml_attributes[a[1][0][0]] += 'q'
        else: a[1].append(['zz', 'q']); b.xml_attributes['zz'] = 'q'
    elif how == 3: a[0] = b.xml_name = 'b' if a[0] == 'a' else 'a'
    elif how == 4: del a[2][0]; b.xml_remove(b.xml_children[0])
    else: a[2].insert(0, 'w<'); b.xml_insert('w<', 0)
def twice(check):
    'decorator: check(model, tree, ...) now, and again after each of a few edits of the same tree'
    def f(m, e, *a):
        m = copy.deepcopy(m)
        for k in range(3):
            if k: edit(m, e, k)
            r = check(m, e, *a)
            if r: return ('after %d edits: ' % k if k else '') + r
    return f
def at(e, path):
    for i in path: e = e.xml_children[i]
    return e
def plain(ev):
    'an event as comparable data'
    if ev is None: return None
    k = ev[0]
    if k == P.event.start_element: return ['start', ev[1], [[a, b] for a, b in ev[2].items()], list(ev[3])] + list(ev[4:])
    if k == P.event.end_element: return ['end', ev[1], list(ev[2])] + list(ev[3:])
    if k == P.event.characters: return ['chars', ev[1]] + list(ev[2:])
    return ['?', repr(ev)]
def run_parser(frags, last=False):
    '''Feed fragments. Returns (events as they were when delivered, the delivered event objects, exception name or None).
    last: the last fragment comes with done=True, else an empty one follows'''
    seen, raw = [], []
    def h():
        while True:
            ev = yield
            raw.append(ev); seen.append(plain(ev))
    exc = None
    try:
        p = P.parser(h())
        for i, f in enumerate(frags):
            p.send((f, bool(last and i == len(frags) - 1)))
        if not last: p.send(('', True))
    except (Hang, MemoryError): raise
    except Exception as e: exc = type(e).__name__
    return seen, raw, exc
def together(*its):
    'what several iterators deliver when they are advanced in turn, one step each'
    outs, live = [[] for _ in its], [(i, iter(x)) for i, x in enumerate(its)]
    while live:
        for k in list(live):
            try: outs[k[0]].append(next(k[1]))
            except StopIteration: live.remove(k)
    return outs
def diff(what, exp, got):
    if exp == got: return None
    return '%s: expected %s, got %s' % (what, short(exp), short(got))
def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
