"""What the tables that ply makes of the grammar do (C16): every text of an expression, read from left to right, gives the expression that the
text says. The tables are made anew on every run, from the current source; the functions of the productions are executed as they are."""
import os, sys, ast, json, subprocess, functools
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from pyvc import rx
from .values import Expr
from .axes import XC, Opaque, cls_of

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
DUMP = '''
import sys, json; sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
from amara3.uxml.uxpath import parser as p, lexer as l
import amara3.uxml.uxpath as u
assert u.__file__.startswith(sys.argv[1]), u.__file__
print(json.dumps({'action': p.action, 'goto': p.goto, 'default': p.defaulted_states, 'prods': [(x.name, x.len, x.callable.__module__ + '.' + x.callable.__name__ if getattr(x, 'callable', None) else None) for x in p.productions],
    'lexer': [(r.flags, r.pattern, [None if x is None else (x[0].__module__ + '.' + x[0].__name__ if x[0] else None, x[1]) for x in f]) for r, f in l.lexre], 'ignore': l.lexignore, 'literals': list(l.lexliterals), 'states': list(l.lexstatere)}))
'''
@functools.lru_cache(None)
def tables(root):
    f = os.path.join(root, 'grammar.json')
    try: return json.load(open(f))
    except (OSError, ValueError): pass
    import shutil, tempfile
    d = tempfile.mkdtemp(prefix='vf_ply_')           # ply writes its tables beside the grammar
    try:
        shutil.copytree(os.path.join(root, 'amara3'), os.path.join(d, 'amara3'), symlinks=False)
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-c', DUMP, d], capture_output=True, text=True, timeout=100, env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'})
    finally: shutil.rmtree(d, ignore_errors=True)
    try: t = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError): raise Unsupported('no tables: ' + r.stderr[-300:])
    g = f + '.%d' % os.getpid()
    with open(g, 'w') as fp: json.dump(t, fp)
    os.replace(g, f)
    return t
# ---------------------------------------------------------------------- the texts of expressions, and what they say
def bin_(v): return ('binary_expression', {'left': v[0], 'op': v[1], 'right': v[2]})
def same(v): return v[0]
def after(n, f): return lambda v: f(v[n:])
def steps_(axis): return lambda v: ('step', {'axis': axis if axis is not None else v[0], 'node_test': v[-1]})
def test(i): return lambda v: ('name_test', {'name': v[i]})
def kind(v): return ('node_type_test', {'name': v[0]})
def call(v): return ('function_call', {'name': v[0], 'args': v[2] if len(v) == 4 else ['list']})
AXES_ = ('self', 'attribute', 'ancestor', 'ancestor-or-self', 'child', 'descendant', 'descendant-or-self', 'following', 'following-sibling', 'parent', 'preceding', 'preceding-sibling')
# a terminal is a pair of the type of the token and its possible values
OR, AND, DIVMOD = ('OR_OP', ('or',)), ('AND_OP', ('and',)), ('DIVMOD_OP', ('div', 'mod'))
EQ, REL, MINUS, UNION = ('EQUAL_OP', ('=', '!=')), ('REL_OP', ('<', '>', '<=', '>=')), ('MINUS_OP', ('-',)), ('UNION_OP', ('|',))
SLASH, DSLASH, DOT, DOTS = ('PATH_SEP', ('/',)), ('ABBREV_PATH_SEP', ('//',)), ('ABBREV_STEP_SELF', ('.',)), ('ABBREV_STEP_PARENT', ('..',))
AT, SEP, STAR, COMMA, DOLLAR = ('ABBREV_AXIS_AT', ('@',)), ('AXIS_SEP', ('::',)), ('STAR_OP', ('*',)), ('COMMA', (',',)), ('DOLLAR', ('$',))
LP, RP, LB, RB = ('OPEN_PAREN', ('(',)), ('CLOSE_PAREN', (')',)), ('OPEN_BRACKET', ('[',)), ('CLOSE_BRACKET', (']',))
NAME, AXIS, KIND_, FNAME = ('NAME', str), ('NAME', AXES_), ('NAME', ('text', 'node')), ('NAME', 'no kind')
LITERAL, FLOAT, INTEGER = ('LITERAL', str), ('FLOAT', float), ('INTEGER', int)
ANYNAME = [NAME, OR, AND, DIVMOD]
G = {
    # loosest first; each operator groups from the left
    'Top': [(['Or'], same), ([SLASH], lambda v: ('absolute_path', {'op': v[0], 'relative': None}))],
    'Or': [(['And'], same), (['Or', OR, 'And'], bin_)],
    'And': [(['Equality'], same), (['And', AND, 'Equality'], bin_)],
    'Equality': [(['Relation'], same), (['Equality', EQ, 'Relation'], bin_)],
    'Relation': [(['Minus'], same), (['Relation', REL, 'Minus'], bin_)],
    'Minus': [(['Union'], same), ([MINUS, 'Minus'], lambda v: ('unary_expression', {'op': v[0], 'right': v[1]}))],
    'Union': [(['Path'], same), (['Union', UNION, 'Path'], bin_)],
    'Path': [(['Open'], same), (['Closed'], same)],
    # a path to which no step can be added, as it ends with one: it has all those there are
    'Open': [(['Steps1'], same)] + [([s, 'Steps'], lambda v: ('absolute_path', {'op': v[0], 'relative': v[1]})) for s in (SLASH, DSLASH)] + [(['Closed', s, 'Steps'], bin_) for s in (SLASH, DSLASH)],
    # predicates are of all that is before them
    'Closed': [(['Primary'], same)] + [([x, 'Predicates'], lambda v: ('predicated_expression', {'lhs': v[0], 'predicates': v[1]})) for x in ('Open', 'Primary')],
    'Predicates': [([LB, 'Top', RB], lambda v: ['list', v[1]]), (['Predicates', LB, 'Top', RB], lambda v: ['list+', v[0], v[2]])],
    'Steps': [(['Step'], same)] + [(['Steps', s, 'Step'], bin_) for s in (SLASH, DSLASH)],
    'Steps1': [(['Step1'], same)] + [(['Steps1', s, 'Step'], bin_) for s in (SLASH, DSLASH)],
    'Primary': [([DOLLAR, n], lambda v: ('variable_reference', {'name': v[1]})) for n in ANYNAME] + [([LP, RP], lambda v: ('Sequence', {'items': ['list']})), ([LP, 'List', RP], lambda v: ('Sequence', {'items': v[1]}))]
        + [([x], lambda v: ('literal_wrapper', {'obj': v[0]})) for x in (LITERAL, FLOAT, INTEGER)] + [([n, LP] + a + [RP], call) for n in (FNAME, OR, AND, DIVMOD) for a in ([], ['List'])]
        + [([KIND_, LP, RP], lambda v: ('step', {'axis': 'child', 'node_test': kind(v)}))],
    'List': [(['Top'], lambda v: ['list', v[0]]), (['List', COMMA, 'Top'], lambda v: ['list+', v[0], v[2]])],
}
def step_alts(tests): return [([d], lambda v: ('abbreviated_step', {'abbr': v[0]})) for d in (DOT, DOTS)] + [([tests], steps_('child')), ([AT, 'Test'], steps_('attribute')), ([AXIS, SEP, 'Test'], steps_(None))]
G['Step'], G['Step1'] = step_alts('Test'), step_alts('Test1')
G['Test1'] = [([STAR], test(0))] + [([n], test(0)) for n in ANYNAME]
G['Test'] = G['Test1'] + [([KIND_, LP, RP], kind)]
# what class the expression of a text is of
CLS = {'Test': {'name_test', 'node_type_test'}, 'Test1': {'name_test'}, 'Step': {'step', 'abbreviated_step'}}
CLS['Step1'] = CLS['Step']; CLS['Steps'] = CLS['Steps1'] = CLS['Step'] | {'binary_expression'}
ANY = CLS['Steps'] | {'absolute_path', 'predicated_expression', 'literal_wrapper', 'variable_reference', 'Sequence', 'function_call', 'unary_expression'}
LISTS = ('Predicates', 'List')
def first(sym):
    if isinstance(sym, tuple): return {sym[0]}
    out, todo, seen = set(), [sym], set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        for rhs, _ in G[n]:
            if isinstance(rhs[0], tuple): out.add(rhs[0][0])
            else: todo.append(rhs[0])
    return out
# ---------------------------------------------------------------------- the automaton, without the values
class Stuck(Exception): pass
class Auto:
    def __init__(self, t):
        self.action = {int(s): r for s, r in t['action'].items()}; self.goto = {int(s): r for s, r in t['goto'].items()}; self.default = {int(s): a for s, a in t['default'].items()}; self.prods = t['prods']
        self.res, self.asked, self.traces = {}, [], {}
    def act(self, state, tok): return self.default.get(state, self.action.get(state, {}).get(tok) if tok is not None else None)
    def reduce(self, st, a, trace):
        name, n, fn = self.prods[-a]
        if n >= len(st): raise Stuck('a reduction of what is before the text')
        if n: del st[-n:]
        st.append(self.goto[st[-1]][name]); trace.append(('reduce', -a))
    def settle(self, st, trace, toks):
        'reductions which come before whichever of the tokens is next'
        for _ in range(50):
            acts = {self.act(st[-1], t) for t in toks}
            if len(acts) != 1 or None in acts: return
            a = acts.pop()
            if a >= 0 or not self.step(st, a, trace): return
    def step(self, st, a, trace):
        if self.prods[-a][1] >= len(st) or self.prods[-a][1] == 0: return False
        self.reduce(st, a, trace); return True
    def run(self, n, k, s, t):
        'alternative k of n, from state s, before a token of type t: the states with one symbol put together; None if not yet known'
        st, trace = [s], []; rhs = G[n][k][0]
        for i, x in enumerate(rhs):
            nxt = rhs[i + 1] if i + 1 < len(rhs) else (t,)
            if isinstance(x, tuple):
                for _ in range(50):
                    a = self.act(st[-1], x[0])
                    if a is None: raise Stuck('%s is not accepted' % x[0])
                    if a > 0: break
                    if a == 0 or not self.step(st, a, trace): raise Stuck('a reduction of what is before the text')
                else: raise Stuck('too many reductions')
                st.append(a); trace.append(('item', i))
            else:
                if i: self.settle(st, trace, first(x))
                f = first(nxt) if i + 1 < len(rhs) else {t}
                if len(f) != 1: raise Stuck('grammar')
                key = (x, st[-1], next(iter(f)))
                if key not in self.res: self.res[key] = None; self.asked.append(key)
                q = self.res[key]
                if q is None: return None
                st.append(q); trace.append(('item', i))
        chain = []
        for _ in range(50):
            if len(st) == 2:
                if st[-1] in [q for q, _ in chain]: raise Stuck('too many reductions')
                chain.append((st[-1], tuple(trace)))
            a = self.act(st[-1], t)
            if a is None: raise Stuck('%s is not accepted after it' % t)
            if a >= 0 or not self.step(st, a, trace): break
        else: raise Stuck('too many reductions')
        if len(st) != 2: raise Stuck('it is not put together before %s' % t)
        return chain
    def solve(self):
        """The states after all the texts, from wherever they can begin and before whatever can come next: the first one that every form
        comes to with one symbol put together. As long as forms are found not to come to it, it moves on along the reductions of single symbols."""
        top = ('Top', 0, '$end'); self.res[top] = None; self.asked.append(top); changed = True; n_ = 0
        while changed and n_ < 300:
            changed = False; n_ += 1; self.bad, self.walks = {}, {}; i = 0
            while i < len(self.asked):
                key = self.asked[i]; i += 1; n, s, t = key; chains = {}; n0 = len(self.asked)
                for k in range(len(G[n])):
                    try: r = self.run(n, k, s, t)
                    except (Stuck, KeyError) as e: self.bad[key, k] = str(e); continue
                    if r is None: self.bad[key, k] = 'never read'
                    else: chains[k] = r
                changed |= len(self.asked) > n0
                if not chains: continue
                c0 = next(iter(chains.values()))
                q = next((q for q, _ in c0 if all(any(q == x for x, _ in c) for c in chains.values())), None)
                if q is None:
                    for k in chains: self.bad[key, k] = 'another state than after other texts'
                    continue
                if q != self.res[key]: self.res[key] = q; changed = True
                for k, c in chains.items(): self.walks[key, k] = next(tr for x, tr in c if x == q)
        if changed: raise Unsupported('the states after the texts are not found')
        if self.res[top] is None or self.act(self.res[top], '$end') != 0: self.bad[top, 0] = 'not accepted'
        return self
@functools.lru_cache(None)
def solved(root): return Auto(tables(root)).solve()
# ---------------------------------------------------------------------- the values
class Part(Expr):
    'an expression that a text gives: of it, only what classes it can be of is known'
    def __init__(self, run, n): Expr.__init__(self, run); self.cls = CLS.get(n, ANY)
    def isinstance(self, run, cls):
        if not isinstance(cls, ClassInfo): return False
        r = {cls_of(run, 'uxpath.xast.' + c).subclass_of(run.prog, cls) for c in self.cls}
        if len(r) == 1: return r.pop()
        raise Unsupported('the class of an expression')
class Production(Abs):
    'what ply hands to the function of a production'
    def __init__(self, vals): self.vals = [None] + vals
    def index(self, run, k):
        k = run.norm(k)
        if not isinstance(k, int) or isinstance(k, bool): raise Unsupported('index of a production')
        if not -len(self.vals) < k < len(self.vals) or k < 0: raise Unsupported('index of a production')
        return k
    def item(self, run, k): return self.vals[self.index(run, k)]
    def setitem(self, run, k, v): self.vals[self.index(run, k)] = v
    def length(self, run): return len(self.vals)
    def truth(self, run): return True
class Grammar(Lemma):
    """For each form of each kind of text: wherever a text of the kind can begin, and whatever can come after it, the automaton reads a text of
    this form, of any parts for which the same holds, puts it together to one symbol, always with the same state, and its value is the expression
    that the text says. By induction over the text."""
    cases = tuple(G); pure = False
    assumes = ('ply is the automaton of its tables: it shifts, reduces and calls the functions of productions as they say', 'the unary minus is the only arithmetic operator claimed')
    def steps(self, run):
        run.exact = False; run.task.used.add('lemma.tokens')          # another form of expression may mean the same
        n = run.task.case
        for k, (rhs, want) in enumerate(G[n]):
            a = solved(run.prog.root); text = ' '.join(x if isinstance(x, str) else x[1][0] if isinstance(x[1], tuple) else x[0] for x in rhs); name = '%s as %s' % (n, text)
            keys = [key for key in a.asked if key[0] == n]
            if not keys: raise Unsupported('no text of this kind')
            bad = [(key, a.bad[key, k]) for key in keys if (key, k) in a.bad]
            if bad: raise Unsupported('%s, from state %s before %s: %s' % (name, bad[0][0][1], bad[0][0][2], bad[0][1]))
            run.oblige('%s: read in %d places' % (name, len(keys)), True, 'lemma')
            for tr in sorted({a.walks[key, k] for key in keys}): self.walk(run, a, n, name, rhs, want, tr)
    def value(self, run, n):
        if n in LISTS: return LObj(run, run.fresh('parts', VSeq))
        return Part(run, n)
    def token(self, run, x):
        vals = x[1]
        if isinstance(vals, tuple) and len(vals) == 1: return vals[0]
        if vals is int: return S(run.fresh('number', Int))
        if vals is float: return S(run.fresh('number', Flt))
        s = run.fresh('token', Str)
        if isinstance(vals, tuple): run.fact(z3.Or(*[s == strc(v) for v in vals]))
        if vals == 'no kind': run.fact(z3.And(s != strc('text'), s != strc('node')))
        return S(s)
    def walk(self, run, a, n, name, rhs, want, tr):
        vals = [self.token(run, x) if isinstance(x, tuple) else self.value(run, x) for x in rhs]
        lists = {id(v): v.content for v in vals if isinstance(v, LObj)}
        st = []
        for what, i in tr:
            if what == 'item': st.append(vals[i]); continue
            nm, ln, fn = a.prods[i]
            if not fn or not fn.startswith('amara3.uxml.'): raise Unsupported('the function of a production')
            f = run.prog.func(fn[len('amara3.uxml.'):])
            if f is None: raise Unsupported('no function ' + fn)
            p = Production(st[len(st) - ln:]); del st[len(st) - ln:]
            run.task.inlined.add(f.qual)
            run.call(f, [p], {}); st.append(p.vals[0])
        r = st[0]
        if isinstance(r, MObj) and n not in LISTS: run.oblige('%s: of one of the classes' % name, r.cls is not None and r.cls.qual.startswith('uxpath.xast.') and r.cls.name in CLS.get(n, ANY), 'lemma')
        run.oblige('%s: gives what it says' % name, self.agrees(run, r, want(vals), lists), 'lemma')
    def agrees(self, run, r, w, lists):
        if isinstance(w, tuple):
            if not isinstance(r, MObj) or r.cls is None or r.cls.qual != 'uxpath.xast.' + w[0]: return False
            return all(self.agrees(run, r.content.get(f, UNDEF), v, lists) for f, v in w[1].items())
        if isinstance(w, LObj): return r is w and self.listed(run, r, lists[id(w)])
        if isinstance(w, list):
            t = lists[id(w[1])] if w[0] == 'list+' else EMPTY_V
            return isinstance(r, LObj) and self.listed(run, r, cat(t, *[unit(run.toval(x)) for x in w[(2 if w[0] == 'list+' else 1):]]))
        if isinstance(w, Abs): return r is w
        if w is None: return r is None
        return run.proved_same(r, w)
    def listed(self, run, r, t): return run.entails(run.known(run.as_seq(r)) == t)
    def check_raise(self, run, args, exc): run.oblige('no exception (%s)' % exc.name, False)
add(Grammar('lemma.grammar'), 'C16')
# ---------------------------------------------------------------------- tokens
START_ = 'A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff'
CHAR_ = START_ + '0-9\\-.\xb7\u0300-\u036f\u203f-\u2040'
# what the text of a token is, and what must not come directly after it
TOKENS = {'NAME': ('[%s][%s]*' % (START_, CHAR_), '[%s]' % CHAR_), 'LITERAL': ('"[^"]*"|\'[^\']*\'', None), 'INTEGER': ('[0-9]+', '[\\d.]'), 'FLOAT': ('[0-9]+\\.[0-9]*|\\.[0-9]+', '\\d'),
    'PATH_SEP': ('/', '/'), 'ABBREV_PATH_SEP': ('//', None), 'ABBREV_STEP_SELF': ('\\.', '[\\d.]'), 'ABBREV_STEP_PARENT': ('\\.\\.', None), 'AXIS_SEP': ('::', None), 'ABBREV_AXIS_AT': ('@', None),
    'OPEN_PAREN': ('\\(', None), 'CLOSE_PAREN': ('\\)', None), 'OPEN_BRACKET': ('\\[', None), 'CLOSE_BRACKET': ('\\]', None), 'UNION_OP': ('\\|', None), 'EQUAL_OP': ('!?=', None), 'REL_OP': ('[<>]=?', '='),
    'MINUS_OP': ('-', None), 'STAR_OP': ('\\*', None), 'COMMA': (',', None), 'DOLLAR': ('\\$', None)}
WORDS = {'or': 'OR_OP', 'and': 'AND_OP', 'div': 'DIVMOD_OP', 'mod': 'DIVMOD_OP'}
class Machine:
    'the strings of a pattern'
    def __init__(self, items):
        self.n = n = rx.NFA(); self.s = n.state(); self.e = n.build(items, self.s)
    def close(self, ss):
        out, todo = set(ss), list(ss)
        while todo:
            for t in self.n.eps[todo.pop()]:
                if t not in out: out.add(t); todo.append(t)
        return frozenset(out)
    def start(self): return self.close([self.s])
    def step(self, q, c): return self.close({t for x in q for iv, t in self.n.tr[x] if any(a <= c <= b for a, b in iv)})
    def ok(self, q): return self.e in q
    def cuts(self): return {a for tr in self.n.tr for iv, _ in tr for a, b in iv} | {b + 1 for tr in self.n.tr for iv, _ in tr for a, b in iv if b < rx.MAXC}
    def single(self):
        'whatever is read, there is only one way to read it: the states reached by different characters of the pattern exclude each other'
        seen, todo = {self.start()}, [self.start()]
        while todo:
            q = todo.pop()
            moves = [(iv, t) for x in q for iv, t in self.n.tr[x]]
            for i, (a, t) in enumerate(moves):
                for b, u in moves[:i]:
                    if any(x[0] <= y[1] and y[0] <= x[1] for x in a for y in b): return False
                r = self.close({t})
                if r not in seen: seen.add(r); todo.append(r)
        return True
def greedy(items):
    for op, av in items:
        if op is rx.sc.MIN_REPEAT: return False
        if op in (rx.sc.MAX_REPEAT,) and not greedy(av[2]): return False
        if op is rx.sc.SUBPATTERN and not greedy(av[3]): return False
        if op is rx.sc.BRANCH and not all(greedy(b) for b in av[1]): return False
        if str(op) not in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN', 'SUBPATTERN', 'BRANCH', 'MAX_REPEAT'): return False
    return True
@functools.lru_cache(None)
def alternatives(root):
    'the alternatives of the lexer, in the order in which they are tried: (pattern, function, type)'
    t = tables(root); out = []
    if t['states'] != ['INITIAL'] or t['literals']: raise Unsupported('states of the lexer')
    for flags, pat, funcs in t['lexer']:
        if flags & ~32: raise Unsupported('flags of the lexer')
        p = rx.sp.parse(pat, 32); items = list(p)
        if len(items) == 1 and items[0][0] is rx.sc.BRANCH: alts = [list(b) for b in items[0][1][1]]
        else: alts = [items]
        for b in alts:
            if len(b) != 1 or b[0][0] is not rx.sc.SUBPATTERN or b[0][1][1] or b[0][1][2]: raise Unsupported('the expression of the lexer')
            f, ty = funcs[b[0][1][0]]
            out.append((list(b[0][1][3]), f, ty))
    return out
def clash(spec, after, other, longer):
    """Is there a string of spec, and one that may come after it, of which together the other pattern matches a beginning? longer: a longer beginning
    than the string of spec. (As a string, or None)"""
    ms = [spec, other] + ([after] if after else [])
    cuts = sorted(set().union({0}, *[m.cuts() for m in ms]))
    s0 = ('word', spec.start(), other.start(), ''); seen, todo = {s0[:3]}, [s0]
    def put(ph, q, o, w):
        if (ph, q, o) not in seen: seen.add((ph, q, o)); todo.append((ph, q, o, w))
    while todo:
        ph, q, o, w = todo.pop(0)
        if w and other.ok(o) and not (longer and ph == 'word'):
            # in the word it matters only if the word can be finished: it can, states from which it cannot are left out below
            return w
        for c in cuts:
            if ph == 'word':
                r = spec.step(q, c)
                if r: put('word', r, other.step(o, c), w + chr(c))
            if ph == 'word' and spec.ok(q) and w and not (after and after.ok(after.step(after.start(), c))): put('rest', frozenset(), other.step(o, c), w + chr(c))
            if ph == 'rest': put('rest', q, other.step(o, c), w + chr(c))
    return None
def inside(spec, other):
    'is every string of spec one of the other?'
    cuts = sorted({0} | spec.cuts() | other.cuts()); seen = {(spec.start(), other.start())}; todo = list(seen)
    while todo:
        q, o = todo.pop()
        if spec.ok(q) and not other.ok(o): return False
        for c in cuts:
            r = (spec.step(q, c), other.step(o, c))
            if r[0] and r not in seen: seen.add(r); todo.append(r)
    return True
class Token(Abs):
    def __init__(self, ty, v): self.f = {'type': ty, 'value': v}
    def attr(self, run, n):
        if n not in self.f: raise Unsupported('token.' + n)
        return self.f[n]
    def setattr(self, run, n, v): self.f[n] = v
    def truth(self, run): return True
class Tokens(Lemma):
    """For each kind of token: wherever a text of it stands, and whatever comes after it, but for what would make it longer, the lexer takes it, as
    a whole, with its type and value. By induction, the tokens of a text, with white space between or without where nothing would make them longer,
    are those it is made of."""
    cases = tuple(TOKENS); pure = False
    assumes = ('ply tries the alternatives of the lexer in their order, and leaves out the characters to ignore', 're: an alternative without choices between different ways to read takes, with greedy repetitions, the longest match')
    def steps(self, run):
        ty = run.task.case; spec, stop = TOKENS[ty]; root = run.prog.root; run.exact = False
        spec = Machine(list(rx.sp.parse(spec))); stop = Machine(list(rx.sp.parse(stop))) if stop else None
        blanks = tables(root)['ignore']; alts = alternatives(root)
        run.oblige('white space is left out', set(' \t\r\n') <= set(blanks), 'lemma')
        run.oblige('it does not begin with what is left out', all(not spec.step(spec.start(), ord(b)) for b in blanks), 'lemma')
        ms = [Machine(a[0]) for a in alts]
        k = next((i for i, a in enumerate(alts) if inside(spec, ms[i])), None)
        run.oblige('there is an alternative for it', k is not None, 'lemma')
        if k is None: return
        for i in range(k): run.oblige('alternative %d before it does not match' % (i + 1), clash(spec, stop, ms[i], False) is None, 'lemma')
        run.oblige('it is taken as a whole', ms[k].single() and greedy(alts[k][0]), 'lemma')
        run.oblige('nothing more is taken', clash(spec, stop, ms[k], True) is None, 'lemma')
        fn, t = alts[k][1:]; s = run.fresh('text', Str); tok = Token(t, S(s)); x = None
        if ty == 'LITERAL': x = run.fresh('inside', Str); q = z3.If(run.fresh('double', Bool), strc('"'), strc("'")); run.fact(s == cat(q, x, q)); run.splits[tid(s)] = cat(q, x, q)
        else: run.fact(z3.Length(s) > 0)
        if ty in ('INTEGER', 'FLOAT') and inside(spec, Machine(list(rx.sp.parse(DECIMAL)))): run.fact(run.task.theory.rmatch(DECIMAL, 'fullmatch', s))
        if fn:
            if not fn.startswith('amara3.uxml.'): raise Unsupported('the function of a token')
            f = run.prog.func(fn[len('amara3.uxml.'):]); run.task.inlined.add(f.qual)
            for d in f.node.decorator_list:         # ply's TOKEN gives the function its expression, and nothing else
                if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'TOKEN'): raise Unsupported('decorator')
            tok = run.inline(f, [tok], {})
            if not isinstance(tok, Token): run.oblige('a token', False, 'lemma'); return
        got, v = tok.f['type'], tok.f['value']
        if ty == 'NAME':
            want = strc('NAME')
            for w, o in WORDS.items(): want = z3.If(s == strc(w), strc(o), want)
            run.oblige('type', run.str_t(got) == want, 'lemma')
        else: run.oblige('type', got == ty, 'lemma')
        if ty in ('INTEGER', 'FLOAT'):
            w = run.call(Ext('int' if ty == 'INTEGER' else 'float'), [S(s)], {})
            run.oblige('value', run.proved_same(v, w), 'lemma')
        else: run.oblige('value', run.str_t(v) == (x if x is not None else s), 'lemma')
    def ext_hook(self, run, name, args, kw):
        if name == 'int' and len(args) == 1 and not kw and run.sortof(run.norm(args[0])) == 'str': return S(INTOF(run.str_t(run.norm(args[0]))))     # digits
        return NotImplemented
    def check_raise(self, run, args, exc): run.oblige('no exception (%s)' % exc.name, False)
INTOF = z3.Function('int_of', Str, Int)
add(Tokens('lemma.tokens'), 'C16')
# ---------------------------------------------------------------------- the function that parses expressions
class TheParser(Abs):
    def attr(self, run, n):
        if n != 'parse': raise Unsupported('parser.' + n)
        return TheParse(self)
    def truth(self, run): return True
class TheParse(Abs):
    callable = True
    def __init__(self, p): self.p = p
    def call(self, run, args, kw):
        names = ('input', 'lexer', 'debug', 'tracking', 'tokenfunc'); vals = dict(zip(names, args))
        if len(args) > 5 or set(kw) & set(vals) or set(kw) - set(names): raise Unsupported('parser.parse')
        vals.update(kw); run.parsed.append(vals); e = Expr(run); run.parsed_as.append(e); return e
class ParseText(Contract):
    'what the parser with the tables of the grammar gives for the text, read by the lexer with the tables of the tokens'
    pure = False; assumes = ('ply makes its tables from the modules it is given, and its parser is the automaton of its tables (the tables themselves are what lemma.grammar and lemma.tokens are about)',)
    def setup(self, run):
        run.parsed, run.parsed_as, run.parser_, run.lexer_ = [], [], TheParser(), Opaque('lexer'); return [S(run.fresh('xpath', Str))]
    def globals_hook(self, run, mod, nm):
        if mod.short == 'uxpath' and nm == 'parser': return run.parser_
        if mod.short == 'uxpath' and nm == 'lexer': return run.lexer_
    def check(self, run, args, r):
        run.oblige('parsed once', len(run.parsed) == 1)
        if len(run.parsed) != 1: return
        v = run.parsed[0]
        run.oblige('the text', run.proved_same(v.get('input'), args[0])); run.oblige('with the lexer for it', v.get('lexer') is run.lexer_); run.oblige('as given', r is run.parsed_as[0])
        run.oblige('nothing else asked for', all(v.get(k) is None or v.get(k) is False for k in ('debug', 'tracking', 'tokenfunc')))
    def check_raise(self, run, args, exc): run.oblige('no exception (%s)' % exc.name, False)
add(ParseText('uxpath.parse'), 'C16')
