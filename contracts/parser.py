"""Contracts of amara3.uxml.parser (C01 to C04).

The text received so far is a window: AT(W, i) is its character at i, LEN(W) its length. The grammar of MicroXML (without comments and empty-element tags, as
the parser has it) is a machine over windows, given here by what it does in one step: spec_step. handle_cdata is held against CDE and CDT, functions on windows
by recursion along the text: where the character data ends, and what it stands for. Each turn of the parser's loop is held against the machine:
from any configuration it gets where the machine gets, with the same events. END(W, c), EVS(W, c) and FAIL(W, c) are where the machine comes to rest from c, the events it
reports until then, and whether it fails. Lemmas over the machine, by induction: more text after a window changes nothing of what the machine does before it needs that text."""
import z3, ast
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.theory import incls
from pyvc.task import *
from pyvc.task import Step

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
# ---------------------------------------------------------------------- characters, written down from the MicroXML grammar
def minus(iv, *cs):
    out = list(iv)
    for c in cs: out = [p for a, b in out for p in ([(a, b)] if not a <= c <= b else [q for q in ((a, c - 1), (c + 1, b)) if q[0] <= q[1]])]
    return tuple(out)
CHAR = ((9, 10), (0x20, 0x7e), (0xa0, 0xd7ff), (0xe000, 0xfdcf), (0xfdf0, 0xfffd)) + tuple((p * 0x10000, p * 0x10000 + 0xfffd) for p in range(1, 17))
NAMESTART = ((0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff),
    (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff))
from pyvc.rx import norm as ranges
NAME = ranges(NAMESTART + ((0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)))
HEX = ranges([(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)]); ALNUM = ranges([(0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)])
LT, AMP, GT, SEMI, SHARP, XX, EQ, SLASH = (ord(c) for c in '<&>;#x=/')
DATA = {'text': (minus(CHAR, AMP, LT, GT), LT), 'sgl': (minus(CHAR, 9, 10, AMP, LT, GT, ord("'")), ord("'")), 'dbl': (minus(CHAR, 9, 10, AMP, LT, GT, ord('"')), ord('"'))}
CLASS = {'start': NAMESTART, 'name': NAME, 'hex': HEX, 'alnum': ALNUM, 'char': CHAR}
NAMES = (('lt', '<'), ('gt', '>'), ('amp', '&'), ('quot', '"'), ('apos', "'"))
def isin(run, cls, c):
    if cls == 'ws': return z3.Or(c == 32, c == 9, c == 10, c == 13)
    return incls(run, CLASS[cls], c)
# ---------------------------------------------------------------------- windows
Window = z3.DeclareSort('Window')
AT = z3.Function('char_at', Window, Int, Int)
LEN = z3.Function('length_of_window', Window, Int)
SUB = z3.Function('part_of_window', Window, Int, Int, Str)          # SUB(W, a, a) = '', SUB(W, a, b) = SUB(W, a, b - 1) ++ [AT(W, b - 1)]
HEXV = z3.Function('value_of_hexadecimal', Window, Int, Int, Int)
I = z3.IntVal
sim = z3.simplify
def at(run, W, i):
    t = AT(W, sim(i)); run.keep.append(t)
    if ('char', tid(t)) not in run.axdone:
        run.axdone.add(('char', tid(t))); run.fact(z3.And(t >= 0, t <= 0x10FFFF))
        for A, B in getattr(run, 'larger', ()):
            if W.eq(A) or W.eq(B): run.fact(z3.Implies(z3.And(i >= 0, i < LEN(A)), AT(A, sim(i)) == AT(B, sim(i))))
    return t
def larger(run, W, W2):
    'W2 begins with W'
    run.fact(z3.And(LEN(W) >= 0, LEN(W2) >= LEN(W))); run.larger = getattr(run, 'larger', ()) + ((W, W2),)
def sub(run, W, a, b):
    a, b = sim(a), sim(b)
    if a.eq(b): return EMPTY_S
    t = SUB(W, a, b); b1 = sim(b - 1)
    run.axiom(('sub', tid(t)), z3.And(z3.Implies(a == b, t == EMPTY_S), z3.Implies(z3.And(a < b, b <= LEN(W)), t == cat(SUB(W, a, b1), unit(at(run, W, b1)))), z3.Implies(z3.And(a <= b, b <= LEN(W)), z3.Length(t) == b - a)))
    run.keep.append(t); return t
def scan_unfold(cls):
    def u(run, W, i): return z3.If(z3.And(i < LEN(W), isin(run, cls, at(run, W, i))), SCANS[cls].f(W, sim(i + 1)), i)
    return u
SCANS = {c: Rec('SCAN_' + c, [Window, Int], Int, scan_unfold(c)) for c in ('ws', 'name', 'hex', 'alnum')}     # the first place from i on that is not such a character
def scan(run, cls, W, i):
    i = sim(i); t = SCANS[cls](run, W, i)
    run.task.used.add('lemma.scan')
    if ('scan', tid(t)) not in run.axdone:
        run.axdone.add(('scan', tid(t)))
        for f in scan_facts(run, cls, W, i, t): run.fact(f)
    return t
def scan_facts(run, cls, W, i, t):
    'what holds of every scan: lemma.scan'
    return [z3.Implies(i <= LEN(W), z3.And(t >= i, t <= LEN(W))), z3.Implies(t < LEN(W), z3.Not(isin(run, cls, at(run, W, t))))]
class ScanLemma(Lemma):
    'a scan ends in the window, not before where it begins and not at such a character; by induction over the rest of the window'
    cases = ('ws', 'name', 'hex', 'alnum')
    def steps(self, run):
        W, i = run.fresh('W', Window), run.fresh('i', Int); run.fact(LEN(W) >= 0); c = run.task.case; S_ = SCANS[c]
        t, t1 = S_(run, W, i), S_.f(W, sim(i + 1))
        if run.choose(2) == 0:
            run.fact(i >= LEN(W)); l = 'at the end'
        else:
            run.fact(i < LEN(W)); l = 'before the end'
            for f in scan_facts(run, c, W, i + 1, t1): run.fact(f)
        for f in scan_facts(run, c, W, i, t): run.oblige(l, f, 'lemma')
add(ScanLemma('lemma.scan'), 'C01', 'C02', 'C03', 'C04')
# character data: CDE: where it ends (-1: not in this window, -2: it is not well formed), CDT: what it stands for
def reads(run, W, a, b, s):
    'from a to b the window reads s'
    return z3.And(b - a == len(s), *[at(run, W, a + i) == ord(c) for i, c in enumerate(s)])
def named(run, W, a, b):
    v = I(-1)
    for n, c in NAMES[::-1]: v = z3.If(reads(run, W, a, b, n), I(ord(c)), v)
    return v
def cd_parts(run, W, i):
    'of a reference at i: (needs more, is one, its character, where it ends)'
    n = LEN(W); hexa = z3.And(at(run, W, i + 1) == SHARP, i + 2 < n, at(run, W, i + 2) == XX)
    h, a = scan(run, 'hex', W, i + 3), scan(run, 'alnum', W, i + 1)
    e = z3.If(hexa, h, a)
    more = z3.Or(i + 1 >= n, z3.And(at(run, W, i + 1) == SHARP, i + 2 >= n), e >= n)
    hv = HEXV(W, sim(i + 3), h); nv = named(run, W, sim(i + 1), a)
    good = z3.And(at(run, W, e) == SEMI, z3.If(hexa, z3.And(h > i + 3, incls(run, CHAR, hv)), nv >= 0))
    return more, good, z3.If(hexa, hv, nv), e
def cde_unfold(q):
    iv, stop = DATA[q]
    def u(run, W, i):
        c = at(run, W, i); more, good, v, e = cd_parts(run, W, i)
        return z3.If(i >= LEN(W), I(-1), z3.If(c == stop, i, z3.If(c == AMP, z3.If(more, I(-1), z3.If(good, CDE[q].f(W, sim(e + 1)), I(-2))), CDE[q].f(W, sim(i + 1)))))
    return u
def cdt_unfold(q):
    iv, stop = DATA[q]
    def u(run, W, i):
        c = at(run, W, i); more, good, v, e = cd_parts(run, W, i)
        rest = CDT[q].f(W, sim(i + 1))
        return z3.If(z3.Or(i >= LEN(W), c == stop), EMPTY_S, z3.If(c == AMP, z3.If(z3.And(z3.Not(more), good), cat(unit(v), CDT[q].f(W, sim(e + 1))), EMPTY_S), z3.If(incls(run, iv, c), cat(unit(c), rest), rest)))
    return u
CDE = {q: Rec('CDE_' + q, [Window, Int], Int, cde_unfold(q)) for q in DATA}
CDT = {q: Rec('CDT_' + q, [Window, Int], Str, cdt_unfold(q)) for q in DATA}
class Win(Abs):
    'the window, a str'
    def __init__(self, W): self.W = W
    def attr(self, run, n): raise Unsupported('window.' + n)
    def truth(self, run): return run.branch(LEN(self.W) > 0)
    def len(self, run): return run.mk(LEN(self.W))
    def isinstance(self, run, cls):
        if isinstance(cls, Ext): return cls.name == 'str'
        raise Unsupported('isinstance')
    def same(self, run, o): return True if isinstance(o, Win) and o.W.eq(self.W) else None
    def item(self, run, i):
        i = sim(run.int_t(i))
        if not run.entails(i >= 0): raise Unsupported('negative index')
        if not run.branch(i < LEN(self.W)): raise PyRaise(Exc('IndexError'))
        return S(unit(at(run, self.W, i)))
    def slice(self, run, lo, hi, st):
        if st is not None: raise Unsupported('slice')
        a = I(0) if lo is None else run.int_t(lo); b = LEN(self.W) if hi is None else run.int_t(hi)
        if run.entails(z3.And(0 <= a, a <= b, b <= LEN(self.W))): return Part(self.W, sim(a), sim(b))
        raise Unsupported('slice of the window')
    def binop(self, run, op, o):
        if isinstance(op, ast.Add) and isinstance(o, Frag):
            W = run.fresh('window', Window); run.fact(LEN(W) == LEN(self.W) + o.n)
            run.grown = (self.W, W, o)
            return Win(W)
        raise Unsupported('window operator')
class Part(Abs):
    'W[a:b], a str'
    def __init__(self, W, a, b): self.W, self.a, self.b = W, a, b
    def str_t(self, run): return sub(run, self.W, self.a, self.b)
    def toval(self, run): return Val.strv(self.str_t(run))
    def truth(self, run): return run.branch(self.b > self.a)
    def len(self, run): return run.mk(sim(self.b - self.a))
    def isinstance(self, run, cls):
        if isinstance(cls, Ext): return cls.name == 'str'
        raise Unsupported('isinstance')
    def attr(self, run, n): raise Unsupported('str.' + n)
    def eq(self, run, o):
        o = run.norm(o)
        if isinstance(o, str): return run.mk(sim(reads(run, self.W, self.a, self.b, o)))
        if isinstance(o, (Part, S)): return run.mk(self.str_t(run) == run.str_t(o))
        if o is None: return False
        raise Unsupported('==')
    def is_(self, run, o):
        if o is None: return False
        raise Unsupported('is')
    def binop(self, run, op, o):
        if isinstance(op, ast.Add): return run.mk(cat(self.str_t(run), run.str_t(o)))
        raise Unsupported('operator')
    def same(self, run, o):
        try: return self.str_t(run) == run.str_t(o)
        except Unsupported: return None
class Frag(Abs):
    'a piece of the document, a str'
    def __init__(self, n): self.n = n
    def attr(self, run, n): raise Unsupported('fragment.' + n)
    def truth(self, run): return run.branch(self.n > 0)
    def len(self, run): return run.mk(self.n)
    def eq(self, run, o):
        if o == '': return run.mk(self.n == 0)
        raise Unsupported('fragment')
    def is_(self, run, o):
        if o is None: return False
        raise Unsupported('fragment')
    def isinstance(self, run, cls):
        if isinstance(cls, Ext): return cls.name == 'str'
        raise Unsupported('isinstance')
def numbers(run, name, args, kw):
    'int(s, 16), chr(n)'
    if name == 'int' and len(args) == 2 and run.norm(args[1]) == 16:
        if not isinstance(args[0], Part): raise Unsupported('int(s, 16)')
        W, a, b = args[0].W, args[0].a, args[0].b
        if not run.branch(z3.And(a <= b, scan(run, 'hex', W, a) >= b)):
            # blanks, signs and underscores are accepted too: some number, or ValueError
            run.exact = False
            if run.branch(z3.FreshConst(z3.BoolSort(), 'intok')): raise PyRaise(Exc('ValueError'))
            return S(z3.FreshConst(z3.IntSort(), 'int16'))
        if run.branch(a == b): raise PyRaise(Exc('ValueError'))
        run.fact(HEXV(W, a, b) >= 0)
        return S(HEXV(W, a, b))
    if name == 'chr':
        n = run.int_t(args[0])
        if not run.branch(z3.And(n >= 0, n <= 0x10FFFF)): raise PyRaise(Exc('ValueError'))
        return S(unit(n))
    return NotImplemented
def pattern_of(iv): return '[' + ''.join('%s-%s' % tuple('\\U%08x' % x for x in p) for p in iv) + ']'
class Cdata(Contract):
    """handle_cdata: (text, where the character data ends), (None, anything) when it does not end in the window; raises exactly if it is not well formed"""
    cases = ('text', 'sgl', 'dbl'); ext_hook = staticmethod(numbers); light = True; unroll = 0
    def setup(self, run):
        self.W = W = run.fresh('W', Window); p = run.fresh('pos', Int); run.fact(LEN(W) >= 0); run.fact(z3.And(p >= 0, p <= LEN(W)))
        self.q = q = run.task.case
        return [S(p), Win(W), Regex(pattern_of(DATA[q][0])), chr(DATA[q][1])]
    def variants(self, run, *a): return [('left', lambda v: LEN(self.W) - (Val.i(v) if v.sort() == Val else v) if v.sort() in (Int, Val) else None)]
    def wrels(self, run, *a):
        W, q = self.W, self.q; int_ = lambda f: (lambda a, b: f(a, b) if a.sort() == Int and b.sort() == Int else None)
        return [('forward', int_(lambda a, b: z3.And(a <= b, b <= LEN(W)))),
            ('end', int_(lambda a, b: CDE[q](run, W, sim(a)) == CDE[q](run, W, sim(b)))),
            ('text', int_(lambda a, b: cat(sub(run, W, a, b), CDT[q](run, W, sim(b))) == CDT[q](run, W, sim(a)))),
            ('hex', int_(lambda a, b: scan(run, 'hex', W, a) == scan(run, 'hex', W, b))), ('alnum', int_(lambda a, b: scan(run, 'alnum', W, a) == scan(run, 'alnum', W, b)))]
    def wrels2(self, run, *a):
        W, q = self.W, self.q
        def same(a0, b0, a1, b1): return a1 == b1 if a1.sort() == Int and b1.sort() == Int else None
        def text(a0, b0, a1, b1):
            if a1.sort() != Int or a0.sort() != Int or b0.sort() != Str or b1.sort() != Str: return None
            return cat(b1, CDT[q](run, W, sim(a1))) == cat(b0, CDT[q](run, W, sim(a0)))
        return [('same', same), ('read', text)]
    def check(self, run, args, result):
        p = args[0].t; W = self.W; E, T = CDE[self.q](run, W, p), CDT[self.q](run, W, p)
        if not (isinstance(result, Tup) and len(result.items) == 2): raise Unsupported('result %r' % (result,))
        t, e = result.items
        if run.norm(t) is None: run.oblige('asks for more exactly if the data does not end in the window', E == -1); return
        e = run.int_t(e)
        run.oblige('the data is well formed', E >= 0)
        run.oblige('ends where the data ends', E == e)
        run.oblige('the text is what the data stands for', run.str_t(t) == T)
        run.oblige('ends at what ends such data', z3.And(e >= p, e < LEN(W), at(run, W, e) == DATA[self.q][1]))
    def check_raise(self, run, args, exc):
        run.oblige('raises (%s) exactly if the data is not well formed' % exc.name, CDE[self.q](run, self.W, args[0].t) == -2)
    def which(self, run, stop):
        s = run.str_t(stop)
        for q, (iv, c) in DATA.items():
            if run.entails(s == unit(I(c))): return q
        raise Unsupported('stop characters')
    def apply(self, run, f, args, kw):
        pos, w, pat, stop = self.normargs(run, f, args, kw)
        if not isinstance(w, Win) or not isinstance(pat, Regex): raise Unsupported('window')
        q = self.which(run, stop); W = w.W; p = sim(run.int_t(pos))
        from pyvc.rx import onechar
        if onechar(pat.pat, 'match') != ranges(DATA[q][0]): raise Unsupported('pattern of the characters')
        run.oblige('call of handle_cdata: in the window', z3.And(p >= 0, p <= LEN(W)), 'precondition')
        run.task.used.add(self.name)
        E = cdend(run, q, W, p)
        if run.branch(E == -2): raise PyRaise(Exc('RuntimeError'))
        if run.branch(E == -1): return Tup([None, S(run.fresh('anywhere', Int))])
        run.fact(z3.And(E >= p, E < LEN(W), at(run, W, E) == DATA[q][1]))
        return Tup([S(CDT[q].f(W, p)), S(E)])
def cdend(run, q, W, p):
    t = CDE[q].f(W, sim(p)); run.fact(z3.And(t >= -2, z3.Implies(p >= LEN(W), t == -1))); run.task.used.add('lemma.cdata'); return t
add(Cdata('parser.handle_cdata'), 'C01', 'C02', 'C03', 'C04')
# ---------------------------------------------------------------------- the machine
MODES = ('pre_element', 'pre_tag_gi', 'pre_complete_tag_gi', 'complete_tag', 'attribute', 'in_element', 'complete_doc')
_C = z3.Datatype('Cfg')
_C.declare('cfg', ('mode', Int), ('pend', Int), ('pos', Int), ('gi', Str), ('att', Dict), ('stk', VSeq))
Cfg = _C.create()
END = z3.Function('rests_at', Window, Cfg, Cfg); EVS = z3.Function('reports', Window, Cfg, VSeq); FAIL = z3.Function('fails', Window, Cfg, Bool)
E_START = z3.Function('start_event', Str, Dict, VSeq, Val); E_END = z3.Function('end_event', Str, VSeq, Val); E_CHARS = z3.Function('characters_event', Str, Val)
PENDS = (None, 'start', 'end')
class C_:
    'a configuration; what does not matter in a mode is left at a fixed value'
    def __init__(self, mode, pos, stk, att=EMPTYD, pend=None, gi=EMPTY_S):
        self.mode, self.pos, self.stk, self.att, self.pend, self.gi = mode, sim(pos), stk, att, pend, gi
    def but(self, mode, pos, **kw):
        d = dict(stk=self.stk, att=self.att); d.update(kw); return C_(mode, pos, **d)
    @property
    def t(self): return Cfg.cfg(I(MODES.index(self.mode)), I(PENDS.index(self.pend)), self.pos, self.gi, self.att, self.stk)
START = C_('pre_element', I(0), EMPTY_V)
def inv(run, W, c):
    'holds of the configurations that the machine gets to'
    out = [c.pos >= 0, c.pos <= LEN(W)]
    if c.mode == 'attribute': out += [c.pos < LEN(W), isin(run, 'start', at(run, W, c.pos))]
    return out
def spec_step(run, W, c):
    "one step: ('need', configuration), ('raise',) or ('go', configuration, events)"
    n = LEN(W); b = run.branch; a = lambda i: at(run, W, i)
    need = lambda p: ('need', C_(c.mode, p, c.stk, c.att, c.pend, c.gi))
    bad = ('raise',)
    if c.mode == 'attribute':
        p = c.pos; e = scan(run, 'name', W, p + 1)
        if b(e >= n): return need(p)
        j = scan(run, 'ws', W, e)
        if b(j >= n): return need(p)
        if not b(a(j) == EQ): return bad
        k = scan(run, 'ws', W, j + 1)
        if b(k >= n): return need(p)
        for q in ('dbl', 'sgl'):
            if b(a(k) == DATA[q][1]): break
        else: return bad
        E = cdend(run, q, W, k + 1)
        if b(E == -2): return bad
        if b(E == -1): return need(p)
        for f in cd_facts(run, q, W, sim(k + 1), E): run.fact(f)
        return 'go', c.but('complete_tag', E + 1, att=STORE(c.att, sub(run, W, p, e), CDT[q].f(W, sim(k + 1))), pend='start', gi=c.gi), []
    if c.mode == 'in_element':
        E = cdend(run, 'text', W, c.pos)
        if b(E == -2): return bad
        if b(E == -1): return need(c.pos)
        for f in cd_facts(run, 'text', W, c.pos, E): run.fact(f)
        t = CDT['text'].f(W, c.pos)
        return 'go', c.but('pre_tag_gi', E + 1), [E_CHARS(t)] if b(z3.Length(t) > 0) else []
    j = scan(run, 'ws', W, c.pos)
    if b(j >= n): return need(j)
    if c.mode == 'complete_doc': return bad
    if c.mode == 'pre_element': return ('go', c.but('pre_tag_gi', j + 1), []) if b(a(j) == LT) else bad
    if c.mode in ('pre_tag_gi', 'pre_complete_tag_gi'):
        if c.mode == 'pre_tag_gi' and b(a(j) == SLASH): return 'go', c.but('pre_complete_tag_gi', j + 1), []
        if not b(isin(run, 'start', a(j))): return bad
        e = scan(run, 'name', W, j + 1)
        if b(e >= n): return need(j)
        return 'go', c.but('complete_tag', e, pend='start' if c.mode == 'pre_tag_gi' else 'end', gi=sub(run, W, j, e)), []
    if c.mode == 'complete_tag':
        if c.pend == 'start' and b(isin(run, 'start', a(j))): return 'go', c.but('attribute', j, pend='start', gi=c.gi), []
        if not b(a(j) == GT): return bad
        if c.pend == 'start': return 'go', c.but('in_element', j + 1, att=EMPTYD, stk=cat(c.stk, unit(Val.strv(c.gi)))), [E_START(c.gi, c.att, c.stk)]
        r = run.task.theory.unsnoc(run, c.stk)
        if r is None or not b(r[1] == Val.strv(c.gi)): return bad
        return 'go', c.but('in_element' if run.nonempty(r[0]) else 'complete_doc', j + 1, att=EMPTYD, stk=run.known(r[0])), [E_END(c.gi, run.known(r[0]))]
def cd_facts(run, q, W, p, E):
    'where character data ends: lemma.cdata'
    run.task.used.add('lemma.cdata')
    return [z3.Implies(E >= 0, z3.And(E >= p, E < LEN(W), at(run, W, E) == DATA[q][1])), E >= -2]
class CdataLemma(Lemma):
    'character data ends in the window, at what ends such data; by induction over the rest of the window'
    cases = ('text', 'sgl', 'dbl'); light = True
    def steps(self, run):
        q = run.task.case; W, i = run.fresh('W', Window), run.fresh('i', Int); run.fact(LEN(W) >= 0); run.fact(i >= 0)
        t = CDE[q](run, W, i); more, good, v, e = cd_parts(run, W, i)
        if run.choose(2) == 0: run.fact(i >= LEN(W)); l = 'at the end'
        else:
            run.fact(i < LEN(W)); l = 'before the end'
            # the places further on
            for k in (i + 1, e + 1):
                for f in cd_facts(run, q, W, sim(k), CDE[q].f(W, sim(k))): run.fact(z3.Implies(k > i, f))
        for f in cd_facts(run, q, W, i, t): run.oblige(l, f, 'lemma')
add(CdataLemma('lemma.cdata'), 'C01', 'C02', 'C03', 'C04')
def unfold(run, W, c, until=None, most=8):
    'the machine goes on from c, until it has to rest or is at the given configuration; what END, EVS and FAIL are by definition is put down'
    for _ in range(most):
        if until is not None and until(c): return 'there'
        r = spec_step(run, W, c); t = c.t
        if r[0] == 'need':
            run.fact(z3.And(END(W, t) == r[1].t, EVS(W, t) == EMPTY_V, z3.Not(FAIL(W, t)))); return 'need'
        if r[0] == 'raise':
            run.fact(z3.And(EVS(W, t) == EMPTY_V, FAIL(W, t))); return 'raise'
        c = r[1]; t1 = c.t
        run.fact(z3.And(END(W, t) == END(W, t1), EVS(W, t) == cat(*[unit(e) for e in r[2]], EVS(W, t1)), FAIL(W, t) == FAIL(W, t1)))
    return 'more'
class Held(Abs):
    'part of a configuration of which nothing is known'
    def __init__(self, name): self.name = name
    def _no(self, *a): raise Unsupported('the state %s is used before the loop' % self.name)
    attr = truth = eq = is_ = contains = item = slice = binop = iter_src = len = isinstance = toval = setitem = str_t = _no
class Out(Abs):
    'the handler'
    def __init__(self): self.t = EMPTY_V; self.given = []; self.primed = 0
    def next(self, run, default): self.primed += 1; return None
    def isinstance(self, run, cls): raise Unsupported('isinstance')
    def attr(self, run, n):
        if n == 'send': return OutSend(self)
        raise Unsupported('handler.' + n)
class OutSend(Abs):
    def __init__(self, o): self.o = o
    def call(self, run, args, kw):
        ok = len(args) == 1 and isinstance(args[0], Tup) and not kw; its = args[0].items if ok else []
        k = its[0].name if its and isinstance(its[0], EnumM) and its[0].cls == 'parser.event' else None
        shape = {'start_element': 4, 'end_element': 3, 'characters': 2}.get(k)
        if not ok or shape != len(its): raise Unsupported('event of another form')
        for x in its[1:]:
            if isinstance(x, (LObj, DObj)):
                if any(x is g for g, _ in self.o.given): raise Unsupported('an object is in two events')
                self.o.given.append((x, run.as_seq(x) if isinstance(x, LObj) else run.dict_t(x)))
        if k == 'characters': e = E_CHARS(run.str_t(its[1]))
        elif k == 'end_element':
            if not isinstance(its[2], LObj): raise Unsupported('ancestors')
            e = E_END(run.str_t(its[1]), run.as_seq(its[2]))
        else:
            if not (isinstance(its[2], DObj) and isinstance(its[3], LObj)): raise Unsupported('attributes')
            e = E_START(run.str_t(its[1]), run.dict_t(its[2]), run.as_seq(its[3]))
        self.o.t = cat(self.o.t, unit(e))
        return None
STATE = ('curr_state', 'pos', 'pending_event', 'gi', 'attribs', 'element_stack')
class Parser(Step):
    """parser.parser between two places where it waits for a fragment: with the window it has and the configuration it is in, c, it adds the fragment to the window W and gets to
    END(W, c), having sent the events EVS(W, c); it raises exactly if FAIL(W, c), after the events EVS(W, c). Each turn of its loop is held against the machine, and takes something off the
    measure twice the text that is left (plus one before '>' or an attribute is looked for). What was sent is not changed afterwards, nor shared between events."""
    pure = False; checkonly = True; light = True; closes = True; kind_classes = None; cases = MODES + ('complete_end',)      # the configuration at the beginning of a turn
    def unroll(self, n): return 3 if any(isinstance(x, ast.Yield) for b in n.body for x in ast.walk(b)) else 0
    def setup(self, run):
        self.out = Out(); self.W2 = None; run.grown = None; return [self.out, True]
    def variants(self, run, *a): return [('left', lambda v: LEN(self.W2) - (Val.i(v) if v.sort() == Val else v) if v.sort() in (Int, Val) and self.W2 is not None else None)]
    def wrels(self, run, *a):
        int_ = lambda f: (lambda a, b: f(a, b) if a.sort() == Int and b.sort() == Int and self.W2 is not None else None)
        sc = lambda c: int_(lambda a, b: scan(run, c, self.W2, a) == scan(run, c, self.W2, b))
        return [('forward', int_(lambda a, b: z3.And(a <= b, b <= LEN(self.W2)))), ('ws', sc('ws')), ('name', sc('name'))]
    # --- the configuration in the variables of the coroutine
    def cfg(self, run, env):
        if all(isinstance(env.get(n), Held) for n in STATE): return None
        st, p = env['curr_state'], env['pos']
        if not (isinstance(st, EnumM) and st.cls == 'parser.state' and st.name in MODES): raise Unsupported('state %r' % (st,))
        stk, att = env['element_stack'], env['attribs']
        if not isinstance(stk, LObj) or not isinstance(att, DObj): raise Unsupported('stack')
        pend, gi = None, EMPTY_S
        if st.name in ('complete_tag', 'attribute'):
            pe = env['pending_event']
            if not isinstance(pe, EnumM) or pe.cls != 'parser.event' or pe.name not in ('start_element', 'end_element'): raise Unsupported('pending event')
            pend = pe.name[:-8]; gi = run.str_t(env['gi'])
            if st.name == 'attribute' and pend != 'start': raise Unsupported('attribute of an end tag')
        return C_(st.name, run.int_t(p), run.known(run.as_seq(stk)), run.dict_t(att), pend, gi)
    def init(self, run, fr, args):
        run.oblige('the handler is primed once', self.out.primed == 1)
        run.oblige('nothing is reported before the first fragment', self.out.t.eq(EMPTY_V))
        run.oblige('the window is empty', run.norm(fr.env['window']) == '' and run.norm(fr.env['wlen']) == 0)
        env = dict(fr.env); c = self.cfg(run, env)
        run.oblige('begins before the document element', c.t == START.t)
    def state(self, run, fr, args):
        self.y1 = run.yieldnode
        self.W = W = run.fresh('window', Window); run.fact(LEN(W) >= 0); self.c0 = c0 = run.fresh('before', Cfg)
        self.held = {n: Held(n) for n in STATE}; fr.env.update(self.held)
        fr.env['window'], fr.env['wlen'] = Win(W), S(LEN(W))
        self.p0 = p0 = run.fresh('p0', Int); run.fact(p0 == Cfg.pos(c0)); m = z3.Bool('in_attribute'); run.fact(m == (Cfg.mode(c0) == MODES.index('attribute'))); self.inatt = m
        for f in self.inv0(run, W): run.fact(f)
        self.out.t = EMPTY_V; self.out.given = []
        return STATE + ('window', 'wlen')
    def inv0(self, run, W): return [self.p0 >= 0, self.p0 <= LEN(W), z3.Implies(self.inatt, z3.And(self.p0 < LEN(W), isin(run, 'start', at(run, W, self.p0))))]
    def receive(self, run, fr, args):
        n = run.fresh('n', Int); run.fact(n >= 0); self.done = run.choose(2) == 0; self.frag = Frag(n); self.fr = fr
        return Tup([self.frag, self.done])
    def while_hook(self, run, n, fr):
        from pyvc.exec import assigned_names
        if fr.fn is None or fr.fn.node is not run.task.fn.node or 'curr_state' not in assigned_names(n.body) or any(isinstance(x, ast.Yield) for b in n.body for x in ast.walk(b)): return False
        env = fr.env; asg = assigned_names(n.body)
        if run.grown is None or not isinstance(env['window'], Win) or env['window'].W.eq(self.W): raise Unsupported('window')
        if run.grown[0] is not self.W or run.grown[2] is not self.frag: raise Unsupported('window')
        self.W2 = W = env['window'].W
        if self.cfg(run, env) is not None or any(env[k] is not v for k, v in self.held.items()): raise Unsupported('state changed before the loop')
        if env.get('need_input') is not False: raise Unsupported('need_input')
        run.oblige('the length of the window is known', run.int_t(env['wlen']) == LEN(W))
        run.fact(z3.Implies(self.p0 < LEN(self.W), at(run, W, self.p0) == at(run, self.W, self.p0)))
        for f in self.inv0(run, W): run.oblige('the configuration suits the larger window', f, 'invariant')
        env['wlen'] = S(LEN(W))
        # an arbitrary configuration, of which is known: END(W, c) = END(W, c0), events sent so far ++ EVS(W, c) = EVS(W, c0), FAIL(W, c) = FAIL(W, c0)
        mode = run.task.case; pend = 'start' if mode in ('complete_tag', 'attribute') else None
        if mode == 'complete_end': mode, pend = 'complete_tag', 'end'
        for x in asg | set(STATE): env[x] = UNDEF
        p, stk, att = run.fresh('pos', Int), run.fresh('stack', VSeq), run.fresh('attributes', Dict)
        run.set_prov(stk, lambda x: [Val.is_strv(x)])
        gi = run.fresh('gi', Str) if pend else EMPTY_S
        c = C_(mode, p, stk, att, pend, gi)
        for f in inv(run, W, c): run.fact(f)
        env.update(curr_state=EnumM('parser.state', mode), pos=S(p), element_stack=LObj(run, stk), attribs=DObj(run, att), need_input=False)
        if pend: env.update(pending_event=EnumM('parser.event', pend + '_element'), gi=S(gi))
        sofar = run.fresh('sent_before', VSeq)
        t, t0 = c.t, self.c0
        run.fact(z3.And(END(W, t) == END(W, t0), EVS(W, t0) == cat(sofar, EVS(W, t)), FAIL(W, t) == FAIL(W, t0)))
        self.out.t = sofar; self.out.given = []
        v0 = 1 + 2 * (LEN(W) - p) + (mode == 'complete_tag')
        def there(c1): return lambda x: x.mode == c1.mode and x.pend == c1.pend and run.entails(x.pos == c1.pos) and run.entails(x.t == c1.t)
        if not run.truth(run.ev(n.test, fr)): raise Unsupported('the loop does not begin')
        stop = False
        try: run.block(n.body, fr)
        except _Cont: pass
        except _Brk: stop = True
        except PyRaise as e:
            if e.exc.name in ('StopIteration', 'GeneratorExit'): raise Unsupported('exception the coroutine catches')
            unfold(run, W, c)
            run.oblige('raises only what the machine rejects (%s)' % e.exc.name, FAIL(W, t0))
            run.oblige('the events before are reported', EVS(W, t0) == self.out.t)
            self.unshared(run, env)
            raise PathEnd()
        ni = env['need_input']
        if not isinstance(ni, bool) or env.get('window') is not None and not env['window'].W.eq(W) : raise Unsupported('need_input')
        c1 = self.cfg(run, env); t1 = c1.t
        stop = stop or ni
        r = unfold(run, W, c, there(c1))
        if stop and r == 'there': unfold(run, W, c1)
        if stop: unfold(run, W, c1, most=1)
        run.oblige('goes where the machine goes', END(W, t1) == END(W, t0)); run.oblige('fails where the machine fails', FAIL(W, t1) == FAIL(W, t0))
        run.oblige('the events are those of the machine', EVS(W, t0) == cat(self.out.t, EVS(W, t1)))
        for f in inv(run, W, c1): run.oblige('the place is in the window', f, 'invariant')
        self.unshared(run, env)
        if stop:
            run.oblige('stops only where the machine has to rest', z3.And(END(W, t1) == t1, EVS(W, t1) == EMPTY_V, z3.Not(FAIL(W, t1))))
            if ni and not stop: pass
            for x in asg - set(STATE): env[x] = UNDEF
            return True
        v1 = 1 + 2 * (LEN(W) - c1.pos) + (c1.mode == 'complete_tag')
        run.oblige('a turn of the loop takes something off the measure', z3.And(v1 < v0, v0 >= 0), 'termination')
        raise PathEnd()
    def unshared(self, run, env):
        'what was sent stays as it was and is not part of the state'
        for o, t in self.out.given:
            run.oblige('a delivered event is not part of the state', o is not env.get('attribs') and o is not env.get('element_stack'), 'frame')
            run.oblige('a delivered event is not changed', (run.as_seq(o) if isinstance(o, LObj) else run.dict_t(o)) == t, 'frame')
    def after(self, run, fr, args):
        env = self.fr.env; fed = self.W2 is not None and run.grown is not None and run.grown[1] is self.W2
        run.oblige('waits for the next fragment', self.done or run.yieldnode is self.y1)
        if not fed and run.grown is None:
            # an empty fragment
            run.oblige('only an empty fragment changes nothing', self.frag.n == 0)
            run.oblige('an empty fragment changes nothing', self.out.t.eq(EMPTY_V) and all(env[k] is v for k, v in self.held.items()) and env['window'].W.eq(self.W) and run.norm(env['wlen']).t.eq(LEN(self.W)))
            return
        W = self.W2
        if W is None: raise Unsupported('the loop is not entered')
        if not env['window'].W.eq(W): raise Unsupported('window')
        c1 = self.cfg(run, env)
        run.oblige('the window has grown by the fragment', z3.And(LEN(W) == LEN(self.W) + self.frag.n, run.int_t(env['wlen']) == LEN(W)))
        run.oblige('rests where the machine rests', END(W, self.c0) == c1.t)
        run.oblige('has sent the events of the machine', EVS(W, self.c0) == self.out.t)
        run.oblige('the machine does not fail', z3.Not(FAIL(W, self.c0)))
    def close(self, run, fr, args): self.sent_at_close = self.out.t
    def closed(self, run, fr, args): run.oblige('close() sends nothing', self.out.t.eq(self.sent_at_close))
    def check_raise(self, run, args, exc): run.oblige('no exception outside the loop (%s)' % exc.name, False)
from pyvc.core import _Cont, _Brk
add(Parser('parser.parser'), 'C01', 'C02', 'C03', 'C04')

# ---------------------------------------------------------------------- a larger window
def scan_ext(run, cls, W, W2, i):
    'lemma.scan.larger'
    run.task.used.add('lemma.scan.larger')
    s, s2 = scan(run, cls, W, i), scan(run, cls, W2, i)
    return z3.Implies(z3.And(i >= 0, i <= LEN(W)), z3.And(scan(run, cls, W2, s) == s2, z3.Implies(s < LEN(W), s2 == s), s2 >= s))
def hex_ext(run, W, W2, a, b):
    'the value is that of the characters from a to b'
    return z3.Implies(z3.And(a >= 0, a <= b, b <= LEN(W)), HEXV(W, a, b) == HEXV(W2, a, b))
def sub_ext(run, W, W2, a, b):
    run.task.used.add('lemma.part.larger')
    return z3.Implies(z3.And(a >= 0, a <= b, b <= LEN(W)), sub(run, W2, a, b) == sub(run, W, a, b))
class ScanExt(Lemma):
    'a scan that ends in the window ends there in a larger one; one that reaches the end of the window goes on from there'
    cases = ('ws', 'name', 'hex', 'alnum'); light = True
    def steps(self, run):
        W, W2, i = run.fresh('W', Window), run.fresh('W2', Window), run.fresh('i', Int); larger(run, W, W2); run.fact(i >= 0); c = run.task.case
        if run.choose(2) == 0: run.fact(i >= LEN(W)); l = 'at the end'
        else: run.fact(i < LEN(W)); run.fact(scan_ext(run, c, W, W2, sim(i + 1))); l = 'before the end'
        run.oblige(l, scan_ext(run, c, W, W2, i), 'lemma')
add(ScanExt('lemma.scan.larger'), 'C01')
class SubExt(Lemma):
    'what a window reads from a to b does not depend on what follows; by induction over b'
    def steps(self, run):
        W, W2, a, b = run.fresh('W', Window), run.fresh('W2', Window), run.fresh('a', Int), run.fresh('b', Int); larger(run, W, W2); run.fact(z3.And(a >= 0, a <= b, b <= LEN(W)))
        if run.choose(2) == 0: run.fact(a == b); l = 'nothing'
        else: run.fact(a < b); run.fact(sub_ext(run, W, W2, a, sim(b - 1))); l = 'one more'
        run.oblige(l, sub_ext(run, W, W2, a, b), 'lemma')
add(SubExt('lemma.part.larger'), 'C01')
def cd_ext(run, q, W, W2, i, unfold=True):
    'lemma.cdata.larger'
    run.task.used.add('lemma.cdata.larger'); i = sim(i)
    E, E2 = (CDE[q](run, W, i), CDE[q](run, W2, i)) if unfold else (CDE[q].f(W, i), CDE[q].f(W2, i))
    T, T2 = (CDT[q](run, W, i), CDT[q](run, W2, i)) if unfold else (CDT[q].f(W, i), CDT[q].f(W2, i))
    ok = z3.And(i >= 0, i <= LEN(W))
    return [z3.Implies(z3.And(ok, E != -1), E2 == E), z3.Implies(z3.And(ok, E >= 0), T2 == T)]
class CdataExt(Lemma):
    'character data that ends in the window, or is found not to be well formed there, does so in a larger one, and stands for the same'
    cases = ('text', 'sgl', 'dbl'); light = True
    def steps(self, run):
        q = run.task.case; W, W2, i = run.fresh('W', Window), run.fresh('W2', Window), run.fresh('i', Int); larger(run, W, W2); run.fact(i >= 0)
        E = CDE[q](run, W, i); CDE[q](run, W2, i)
        if run.choose(2) == 0: run.fact(i >= LEN(W)); l = 'at the end'
        else:
            run.fact(i < LEN(W)); l = 'before the end'
            more, good, v, e = cd_parts(run, W, i); more2, good2, v2, e2 = cd_parts(run, W2, i)
            for k, cls in ((i + 1, 'alnum'), (i + 3, 'hex')): run.fact(scan_ext(run, cls, W, W2, sim(k)))
            run.fact(hex_ext(run, W, W2, sim(i + 3), scan(run, 'hex', W, i + 3)))
            for k in (i + 1, e + 1):
                for f in cd_ext(run, q, W, W2, k, False): run.fact(z3.Implies(k > i, f))
        for f in cd_ext(run, q, W, W2, i): run.oblige(l, f, 'lemma')
add(CdataExt('lemma.cdata.larger'), 'C01')
def config(run, W, case):
    'an arbitrary configuration'
    mode, pend = ('complete_tag', 'end') if case == 'complete_end' else (case, 'start' if case in ('complete_tag', 'attribute') else None)
    stk = run.fresh('stack', VSeq); run.set_prov(stk, lambda x: [Val.is_strv(x)])
    c = C_(mode, run.fresh('pos', Int), stk, run.fresh('attributes', Dict), pend, run.fresh('gi', Str) if pend else EMPTY_S)
    for f in inv(run, W, c): run.fact(f)
    return c
def measure(W, c): return 1 + 2 * (LEN(W) - c.pos) + (c.mode == 'complete_tag')
def define(run, W, c, r):
    'what END, EVS and FAIL are by definition, at c'
    t = c.t
    if r[0] == 'need': return z3.And(END(W, t) == r[1].t, EVS(W, t) == EMPTY_V, z3.Not(FAIL(W, t)))
    if r[0] == 'raise': return z3.And(EVS(W, t) == EMPTY_V, FAIL(W, t))
    t1 = r[1].t; return z3.And(END(W, t) == END(W, t1), EVS(W, t) == cat(*[unit(e) for e in r[2]], EVS(W, t1)), FAIL(W, t) == FAIL(W, t1))
def compose(W, W2, t):
    'lemma.machine.larger'
    return z3.If(FAIL(W, t), z3.And(FAIL(W2, t), EVS(W2, t) == EVS(W, t)), z3.And(EVS(W2, t) == cat(EVS(W, t), EVS(W2, END(W, t))), z3.Implies(z3.Not(FAIL(W2, t)), END(W2, t) == END(W2, END(W, t))), FAIL(W2, t) == FAIL(W2, END(W, t))))
class MachineExt(Lemma):
    """the machine on a larger window does what it does on the smaller one, and then goes on from where it came to rest there; where it fails on the smaller one
    it fails on the larger one, after the same events. By induction over the steps on the smaller window."""
    cases = MODES + ('complete_end',); light = True
    def steps(self, run):
        W, W2 = run.fresh('W', Window), run.fresh('W2', Window); larger(run, W, W2); c = config(run, W, run.task.case); p = c.pos
        # the scans and the character data that the step looks at
        def ext(W1, cls, i): run.fact(scan_ext(run, cls, W, W2, i)); return scan(run, cls, W, i)
        if c.mode == 'attribute':
            e = ext(W, 'name', sim(p + 1)); j = ext(W, 'ws', e); k = ext(W, 'ws', sim(j + 1)); run.fact(sub_ext(run, W, W2, p, e))
            for q in ('dbl', 'sgl'):
                for f in cd_ext(run, q, W, W2, sim(k + 1), False): run.fact(f)
        elif c.mode == 'in_element':
            for f in cd_ext(run, 'text', W, W2, p, False): run.fact(f)
        else:
            j = ext(W, 'ws', p)
            if 'gi' in c.mode: e = ext(W, 'name', sim(j + 1)); run.fact(sub_ext(run, W, W2, j, e))
        r = spec_step(run, W, c); run.fact(define(run, W, c, r))
        for f in (inv(run, W, r[1]) if len(r) > 1 else ()): run.oblige('the place is in the window', f, 'invariant')
        if r[0] == 'need':
            # on the larger window the step from where it rests is the step from c
            a = spec_step(run, W2, r[1]); run.fact(define(run, W2, r[1], a))
        b = spec_step(run, W2, c); run.fact(define(run, W2, c, b))
        if r[0] == 'go':
            run.oblige('the measure decreases', z3.And(measure(W, r[1]) < measure(W, c), measure(W, c) >= 0), 'termination')
            run.fact(compose(W, W2, r[1].t))
        run.oblige({'need': 'where the smaller window ends', 'raise': 'what is rejected', 'go': 'a step'}[r[0]], compose(W, W2, c.t), 'lemma')
add(MachineExt('lemma.machine.larger'), 'C01')

class Fragments(Lemma):
    """what the parser does to a document that comes in fragments, from what it does to each of them (parser.parser): after any number of fragments, of which the window is W, it rests at
    END(W, START), having sent EVS(W, START). By induction over the fragments. It raises while it gets a fragment exactly if the whole text is rejected, after the events of the whole text."""
    light = True
    def steps(self, run):
        W0 = run.fresh('nothing', Window); run.fact(LEN(W0) == 0); s = START.t; unfold(run, W0, START)
        run.oblige('before the first fragment', z3.And(END(W0, s) == s, EVS(W0, s) == EMPTY_V, z3.Not(FAIL(W0, s))), 'lemma')
        W, W2, Wall = run.fresh('W', Window), run.fresh('W2', Window), run.fresh('W_all', Window); larger(run, W, W2); larger(run, W2, Wall)
        run.task.used.add('lemma.machine.larger')
        run.fact(z3.Not(FAIL(W, s))); c = END(W, s); sent = EVS(W, s)
        run.fact(compose(W, W2, s))
        failed, sent2, c2 = FAIL(W2, c), cat(sent, EVS(W2, c)), END(W2, c)
        run.oblige('rejected with this fragment exactly if the text up to it is', failed == FAIL(W2, s), 'lemma')
        run.oblige('the events so far are those of the text so far', sent2 == EVS(W2, s), 'lemma')
        run.oblige('rests where it would after the text in one piece', z3.Implies(z3.Not(failed), c2 == END(W2, s)), 'lemma')
        run.fact(compose(W2, Wall, s))
        run.oblige('if it is rejected then so is the whole text, after the same events', z3.Implies(failed, z3.And(FAIL(Wall, s), EVS(Wall, s) == sent2)), 'lemma')
add(Fragments('lemma.fragments'), 'C01')
# ---------------------------------------------------------------------- tags and events
NEST = z3.Function('nested', VSeq, VSeq, Bool)
def nest_step(stk, x, rest):
    """NEST(stk, x rest), by definition: a start event has the open elements as its ancestors and opens one, an end event closes the innermost and has what remains, characters are
    not empty and in an element, nothing comes after the document element"""
    e = x.arg; n = x.decl().name()
    if n == 'start_event': return z3.And(e(2) == stk, NEST(cat(stk, unit(Val.strv(e(0)))), rest))
    if n == 'end_event': return z3.And(stk == cat(e(1), unit(Val.strv(e(0)))), z3.Implies(z3.Length(e(1)) == 0, rest == EMPTY_V), NEST(e(1), rest))
    return z3.And(z3.Length(e(0)) > 0, z3.Length(stk) > 0, NEST(stk, rest))
class Events(Lemma):
    'the events from any configuration on are nested as NEST says, the open elements being those on the stack; by induction over the steps of the machine'
    cases = MODES + ('complete_end',); light = True
    def steps(self, run):
        W = run.fresh('W', Window); run.fact(LEN(W) >= 0); c = config(run, W, run.task.case)
        if c.mode == 'in_element': run.fact(z3.Length(c.stk) > 0)
        r = spec_step(run, W, c); run.fact(define(run, W, c, r)); run.fact(NEST(c.stk, EMPTY_V))
        if r[0] == 'go':
            c1 = r[1]; rest = EVS(W, c1.t)
            for f in inv(run, W, c1) + ([z3.Length(c1.stk) > 0] if c1.mode == 'in_element' else []): run.oblige('the next configuration is of the kind', f, 'invariant')
            run.oblige('the measure decreases', z3.And(measure(W, c1) < measure(W, c), measure(W, c) >= 0), 'termination')
            run.fact(NEST(c1.stk, rest))
            if c1.mode == 'complete_doc': run.fact(define(run, W, c1, spec_step(run, W, c1)))
            if len(r[2]) > 1: raise Unsupported('two events in a step')
            if r[2]: run.fact(NEST(c.stk, cat(unit(r[2][0]), rest)) == nest_step(c.stk, r[2][0], rest))
            else: run.oblige('a step without event leaves the stack as it is', c1.stk == c.stk, 'lemma')
        run.oblige('nested', NEST(c.stk, EVS(W, c.t)), 'lemma')
add(Events('lemma.events'), 'C02')
# ---------------------------------------------------------------------- parse and parsefrags
class Collect(Step):
    'parser.handler puts each event into the list it was given'
    pure = False; checkonly = True; closes = True
    def setup(self, run):
        self.acc = LObj(run, run.fresh('before', VSeq)); self.t0 = self.acc.content; return [self.acc]
    def init(self, run, fr, args): run.oblige('nothing happens before the first event', run.known(run.as_seq(self.acc)) == self.t0)
    def state(self, run, fr, args):
        self.t = run.fresh('so_far', VSeq); run.set_content(self.acc, self.t); return ()
    def receive(self, run, fr, args): self.x = run.fresh('event', Val); return S(self.x)
    def after(self, run, fr, args): run.oblige('the event is put into the list', run.known(run.as_seq(self.acc)) == cat(self.t, unit(self.x)))
    def close(self, run, fr, args): self.t1 = run.known(run.as_seq(self.acc))
    def closed(self, run, fr, args): run.oblige('close() leaves the list as it is', run.known(run.as_seq(self.acc)) == self.t1)
add(Collect('parser.handler'), 'C01', 'C02', 'C03', 'C04')
class HandlerCoro(Abs):
    'a handler that puts events into a list'
    def __init__(self, acc): self.acc, self.state = acc, 'new'
    def next(self, run, default): raise Unsupported('the parser primes the handler')
    def attr(self, run, n): return Closer(self) if n == 'close' else self._no()
    def _no(self): raise Unsupported('handler')
class Closer(Abs):
    def __init__(self, o): self.o = o
    def call(self, run, args, kw): self.o.state = 'closed'; return None
    def attr(self, run, n): raise Unsupported(n)
class ParserCoro(Abs):
    'the parser, as contract parser.parser has it: the window, and the configuration it rests at'
    def __init__(self, h): self.h, self.W, self.c, self.state = h, None, START.t, 'waits'
    def attr(self, run, n):
        if n == 'send': return Feed(self)
        if n == 'close': return Closer(self)
        raise Unsupported('parser.' + n)
class Feed(Abs):
    def __init__(self, p): self.p = p
    def attr(self, run, n): raise Unsupported(n)
    def call(self, run, args, kw):
        p = self.p; run.task.used.add('parser.parser')
        if len(args) != 1 or kw or not isinstance(args[0], Tup) or len(args[0].items) != 2: raise Unsupported('what is sent to the parser')
        run.oblige('the parser still waits for input, and its handler too', p.state == 'waits' and p.h.state == 'running', 'precondition')
        x, done = args[0].items; done = run.norm(done)
        if not isinstance(done, bool): raise Unsupported('done')
        if done: p.state = 'at end'
        if run.norm(x) == '': return None
        if not isinstance(x, Text): raise Unsupported('fragment')
        if not x.truth(run): return None
        if p.W is None: W2 = x.W
        else:
            W2 = run.fresh('window', Window); larger(run, p.W, W2); run.fact(LEN(W2) == LEN(p.W) + LEN(x.W))
        if getattr(run, 'whole', None) is not None and not W2.eq(run.whole): larger(run, W2, run.whole)
        p.W = W2; run.last_fed = x
        c0 = p.c; acc = p.h.acc
        run.set_content(acc, cat(run.known(run.as_seq(acc)), EVS(W2, c0)))
        if run.branch(FAIL(W2, c0)):
            p.state = 'failed'; raise PyRaise(Exc('RuntimeError' if run.choose(2) == 0 else 'IndexError'))
        p.c = END(W2, c0)
        return None
class Text(Abs):
    'a str, of which the window is W'
    def __init__(self, W): self.W = W
    def attr(self, run, n): raise Unsupported('str.' + n)
    def truth(self, run): return run.branch(LEN(self.W) > 0)
    def len(self, run): return run.mk(LEN(self.W))
    def isinstance(self, run, cls):
        if isinstance(cls, Ext): return cls.name == 'str'
        raise Unsupported('isinstance')
    def is_(self, run, o):
        if o is None: return False
        raise Unsupported('is')
    def eq(self, run, o):
        if o == '': return run.mk(LEN(self.W) == 0)
        raise Unsupported('==')
class MakeHandler(Contract):
    def apply(self, run, f, args, kw):
        acc, = self.normargs(run, f, args, kw); run.task.used.add('parser.handler')
        if not isinstance(acc, LObj): raise Unsupported('accumulator')
        return HandlerCoro(acc)
class MakeParser(Contract):
    def apply(self, run, f, args, kw):
        h = self.normargs(run, f, args, kw)[0]; run.task.used.add('parser.parser')
        run.oblige('the handler is new', isinstance(h, HandlerCoro) and h.state == 'new', 'precondition')
        h.state = 'running'; p = ParserCoro(h)
        if hasattr(run, 'coros'): run.coros.append(p)
        return p
CALLS = {'parser.handler': MakeHandler('parser.handler'), 'parser.parser': MakeParser('parser.parser')}
class Parse(Contract):
    'parser.parse yields the events EVS(text, START), or raises if FAIL(text, START)'
    kind = 'gen'; checkonly = True; calls = CALLS; light = True
    def homs(self, run, *a): return [('ITEMS', lambda P: P)]
    def setup(self, run):
        self.W = W = run.fresh('text', Window); run.fact(LEN(W) >= 0); return [Text(W)]
    def whole(self, run):
        W = self.W
        if run.entails(LEN(W) == 0): unfold(run, W, START)
        return W
    def check(self, run, args, result):
        W = self.whole(run); run.oblige('yields the events of the text', run.known(run.seq_t(result)) == EVS(W, START.t)); run.oblige('the text is not rejected', z3.Not(FAIL(W, START.t)))
    def check_raise(self, run, args, exc):
        run.oblige('raises (%s) only if the text is rejected' % exc.name, FAIL(self.whole(run), START.t))
add(Parse('parser.parse'), 'C01', 'C02', 'C03', 'C04')
class Pieces(Abs):
    'the fragments: an iterable of str'
    def __init__(self, c): self.c = c
    def attr(self, run, n): raise Unsupported('fragments.' + n)
    def truth(self, run): raise Unsupported('truth of the fragments')
    def enumerate_(self, run): return Numbered(self)
    def loop(self, run, cb, fr, assigned): return self.turn(run, cb, fr, assigned, lambda x: x)
    def turn(self, run, cb, fr, assigned, f):
        c = self.c; s = START.t
        if c.looped: raise Unsupported('the fragments are gone through twice')
        c.looped = True
        hs = sorted([h for h in run.coros if isinstance(h, ParserCoro)], key=id)
        if len(hs) != 1: raise Unsupported('parser')
        p, = hs; acc = p.h.acc
        run.oblige('no event and no text before the first fragment', z3.And(z3.BoolVal(p.W is None and p.state == 'waits'), run.known(run.as_seq(acc)) == EMPTY_V), 'invariant')
        def havoc():
            for n in assigned:
                g = fr.find(n)
                if g: g.env[n] = UNDEF
        havoc()
        if run.choose(2) == 0:
            # the fragments up to this one: the window is W
            W = run.fresh('so_far', Window); run.whole = c.W; larger(run, W, c.W); run.fact(z3.Not(FAIL(W, s)))
            run.set_content(acc, EVS(W, s)); p.W, p.c = W, END(W, s)
            X = run.fresh('fragment', Window); run.fact(LEN(X) >= 0); x = Text(X); others = run.shape()
            c.before = W
            try: cb(f(x))
            except _Cont: pass
            except _Brk: raise Unsupported('break')
            W2 = p.W
            run.task.used.add('lemma.machine.larger')
            if W2.eq(W): run.oblige('only an empty fragment is left out', LEN(X) == 0)
            else:
                run.oblige('the fragment is fed once', run.last_fed is x and z3.simplify(LEN(W2)).eq(LEN(W2)) and run.entails(LEN(W2) == LEN(W) + LEN(X)))
                run.fact(compose(W, W2, s))
            run.oblige('the events of the text so far', run.known(run.as_seq(acc)) == EVS(W2, s), 'invariant')
            run.oblige('rests where it should', p.c == END(W2, s), 'invariant'); run.oblige('the text so far is not rejected', z3.Not(FAIL(W2, s)), 'invariant')
            run.oblige('the parser and the handler wait', p.state == 'waits' and p.h.state == 'running', 'invariant')
            raise PathEnd()
        run.set_content(acc, EVS(c.W, s)); p.W, p.c = c.W, END(c.W, s); run.fact(z3.Not(FAIL(c.W, s)))
        c.before = None
        return 'done'
class Numbered(Pieces):
    def __init__(self, p): self.p = p; self.c = p.c
    def loop(self, run, cb, fr, assigned): return self.turn(run, cb, fr, assigned, lambda x: Tup([S(run.fresh('number', Int)), x]))
class ParseFrags(Parse):
    'parser.parsefrags yields the events of all the fragments put together, or raises if that text is rejected'
    def setup(self, run):
        Parse.setup(self, run); self.looped = False; self.before = None; run.whole = None; run.last_fed = None; run.coros = []; return [Pieces(self)]
    def check(self, run, args, result):
        run.oblige('all the fragments are read', self.looped); Parse.check(self, run, args, result)
    def check_raise(self, run, args, exc):
        s = START.t; ps = [p for p in run.coros if isinstance(p, ParserCoro)]
        run.task.used.add('lemma.machine.larger')
        if self.before is not None and ps and ps[0].W is not self.before: run.fact(compose(self.before, ps[0].W, s)); run.fact(compose(ps[0].W, self.W, s))
        Parse.check_raise(self, run, args, exc)
add(ParseFrags('parser.parsefrags'), 'C01', 'C02', 'C03', 'C04')
