import sys
from .. import gen as G, common as C
RULE = 'any text (token soup, truncated and malformed documents, all strings of up to 4 (thorough: 6) tokens over a small alphabet) in any fragmentation; the number of executed source lines of the parser is bounded by 400 + 40 * (length + 2) per call. Non-trivial: text does not end as a complete document.'
QUICK, THOROUGH = 60000, 500000
ALPHA = ['<', '>', '/', 'a', '=', '"', "'", ' ', '&', ';', '#x', '4', 'b', 'lt']
def exhaustive(tier):
    import itertools
    for n in range(0, 5 if tier == 'thorough' else 4):
        for t in itertools.product(ALPHA, repeat=n): yield [[''.join(t)], False]
    for pre in ('<a>', '<a b="', '<a></a>', "<a b='1'"):
        for n in range(0, 4 if tier == 'thorough' else 3):
            for t in itertools.product(ALPHA, repeat=n): yield [[pre + ''.join(t)], n % 2 == 1]
def random_case(rng):
    d = G.soup(rng, 14) if rng.random() < .5 else G.any_doc(rng)
    return [G.cuts(rng, d) if rng.random() < .5 else [d], rng.random() < .5]
class TooMany(Exception): pass
def counted(f, limit):
    n = [0]
    src = C.P.__file__
    def tr(frame, ev, arg):
        if frame.f_code.co_filename != src: return None
        n[0] += 1
        if n[0] > limit: raise TooMany('more than %d steps' % limit)
        return tr
    sys.settrace(tr)
    try: return f()
    finally: sys.settrace(None)
def check(case):
    frags, last = case
    def h():
        while True: yield
    held = 0
    try:
        p = C.P.parser(h())
        for i, f in enumerate(list(frags) + ([] if last else [''])):
            held += len(f)
            done = i == len(frags) - 1 if last else i == len(frags)
            try: counted(lambda: p.send((f, done)), 400 + 40 * (held + 2))
            except TooMany as e: return 'call %d does not come to an end: %s, text held %d' % (i, e, held)
            except StopIteration: return None
            except (C.Hang, MemoryError): raise
            except Exception: return None
        p.close()
    except TooMany as e: return str(e)
def nontrivial(case): return True
