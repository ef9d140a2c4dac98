'''Contracts of the pattern machinery of amara3.uxml.treeutil (C10): states denote languages of paths.

A state is a function from a node to None, MATCHED_STATE or another state. LX(l, w) says that the language l holds the path w (a sequence of
elements, outermost first). The contract of calling a state with language l on x: MATCHED_STATE if l holds the path [x]; None only if no
longer path that starts with x is in l; another state only if its language is DER(l, x), the w with [x] ++ w in l. Every constructor is checked
for that against the language it is said to build, for an arbitrary node and an arbitrary continuation.'''
import ast
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
LX = z3.Function('in_language', Val, VSeq, Bool)
MATCHED = z3.Const('MATCHED', Val)
NAMEL = z3.Function('lang_name', Str, Val, Val)
ANYL = z3.Function('lang_any', Val, Val)
STARL = z3.Function('lang_star', Val, Val)
ALTL = z3.Function('lang_alternatives', VSeq, Val, Val)
EITHER = z3.Function('lang_union', Val, Val, Val)
DER = z3.Function('lang_derivative', Val, Val, Val)
ISEMPTY = z3.Function('lang_empty', Val, Bool)
def isel(x): return z3.And(Val.is_ref(x), KIND(Val.l(x)) == ELEMENT)
class NodeLetters:
    'paths of tree nodes'
    def matches(self, run, x, s): return z3.And(isel(x), z3.Select(run.harr('xml_name'), Val.l(x)) == s)
    def isel(self, run, x): return isel(x)
LET = NodeLetters()
ALTS = Hom('ALTS', [Val], Bool, lambda run, ps, f: LX(f, unit(ps[0])))
def unfold(run, L, x, w, let=LET):
    'what the definition of the language L says about the path x ++ w (w may be empty)'
    n = L.decl().name() if z3.is_app(L) else ''
    xw = cat(unit(x), w)
    if n == 'lang_name': return LX(L, xw) == z3.And(let.matches(run, x, L.arg(0)), tail(L.arg(1), w))
    if n == 'lang_any': return LX(L, xw) == z3.And(let.isel(run, x), tail(L.arg(0), w))
    if n == 'lang_star': return LX(L, xw) == z3.And(let.isel(run, x), z3.Or(LX(L.arg(0), xw), tail(L, w)))
    if n == 'lang_alternatives': return LX(L, xw) == z3.And(let.isel(run, x), ALTS.app(run, (x,), run.known(L.arg(0))), tail(L.arg(1), w))
    if n == 'lang_union': return LX(L, xw) == z3.Or(LX(L.arg(0), xw), LX(L.arg(1), xw))
    return z3.BoolVal(True)
def tail(l, w):
    if l.eq(MATCHED): return w == EMPTY_V
    return z3.And(w != EMPTY_V, LX(l, w))            # other states do not hold the empty path
def letters(run, t, x, let):
    run.axiom(('only elements', tid(t), tid(x)), z3.Implies(LX(t, unit(x)), let.isel(run, x))); run.keep += [t, x]

class StateFn(Abs):
    callable = True
    def __init__(self, t, let=LET): self.t, self.let = t, let
    def rewrap(self, run, t): return StateFn(t, self.let)
    def toval(self, run): return self.t
    def same(self, run, o): return self.t == lang(run, o)
    def truth(self, run): return True
    def matched(self): return self.t.eq(MATCHED)
    def eq(self, run, o): return self.is_(run, o)
    def is_(self, run, o):
        o = langor(run, o)
        if o is None: return False
        if o.eq(MATCHED) or self.matched(): return o.eq(self.t)
        return run.mk(self.t == o)
    def isinstance(self, run, cls): return False
    def attr(self, run, n): raise Unsupported('attribute of a state')
    def letter(self, run, a): return run.toval(a)
    def call(self, run, args, kw):
        if self.matched(): raise PyRaise(Exc('TypeError'))
        x = self.letter(run, args[0])
        return outcome(run, self.t, x, self.let)
def outcome(run, t, x, let):
    'result of calling a state with language t on x'
    letters(run, t, x, let); run.fact(DER(t, x) != MATCHED)
    ws = getattr(run, 'words', [])
    c = run.choose(3)
    if c == 0:
        run.fact(LX(t, unit(x)))
        return StateFn(MATCHED, let)
    run.fact(z3.Not(LX(t, unit(x))))
    if c == 1:
        for w in ws: run.fact(z3.Implies(let.isel(run, x), z3.Not(LX(t, cat(unit(x), w)))))
        run.fact(z3.Implies(let.isel(run, x), ISEMPTY(DER(t, x))))
        return None
    d = DER(t, x)
    for w in ws: run.fact(LX(d, w) == LX(t, cat(unit(x), w)))
    return StateFn(d, let)
def langor(run, v):
    if isinstance(v, StateFn): return v.t
    if isinstance(v, Sentinel) and v.name.endswith('MATCHED_STATE'): return MATCHED
    c = run.task.contract
    if isinstance(v, Fn) and getattr(run, 'selfstate', None) is not None and v.node is run.selfstate[0]: return run.selfstate[1]
    if isinstance(v, S) and v.t.sort() == Val: return v.t
    return None
def lang(run, v):
    r = langor(run, v)
    if r is None: raise Unsupported('not a state: %r' % (v,))
    return r
def sentinel(run, v):
    'the module constant MATCHED_STATE as a state'
    return StateFn(MATCHED) if v.name.endswith('MATCHED_STATE') else v
class Node(Abs): pass
class Factory(Contract):
    'a constructor of states: what it returns has the language spec says'
    pure = True
    cases = ('matched', 'state')
    let = LET
    sentinel_hook = staticmethod(sentinel)
    def nextarg(self, run): return StateFn(MATCHED if run.task.case == 'matched' else run.fresh('next', Val), self.let)
    def spec(self, run, *args): return StateFn(self.L(run, *args), self.let)
    def self_args(self, run): return []
    def letter(self, run):
        n = node_arg(run, 'x', [ELEMENT, TEXT])
        return n, R(run.loc(n))
    def setup(self, run):
        w = run.fresh('w', VSeq); run.fact(w != EMPTY_V); run.words = [w]
        return self.self_args(run) + self.args(run)
    def execute(self, run, fn, args):
        run.task.entering = False
        F = run.inline(fn, args, {})
        if not isinstance(F, Fn): raise Unsupported('not a function: %r' % (F,))
        L = self.L(run, *args)
        run.selfstate = (F.node, L)
        n, x = self.letter(run); w = run.words[0]
        letters(run, L, x, self.let)
        for l in [L] + list(self.more(run, *args)):
            run.fact(unfold(run, l, x, EMPTY_V, self.let)); run.fact(unfold(run, l, x, w, self.let))
        self.x, self.L_ = x, L
        run.factlist = [('none of the functions so far', lambda P: z3.Not(ALTS.app(run, (x,), P)))]
        run.task.inlined.add('the function that %s returns' % self.name)
        return run.inline(F, [n], {})
    def more(self, run, *args): return ()
    def check(self, run, args, result):
        x, L, w = self.x, self.L_, run.words[0]
        e, one, longer = self.let.isel(run, x), LX(L, unit(x)), LX(L, cat(unit(x), w))
        if result is None: return run.oblige('None only if nothing that starts with the node is in the language', z3.Implies(e, z3.And(z3.Not(one), z3.Not(longer))))
        r = lang(run, result)
        if r.eq(MATCHED): return run.oblige('MATCHED_STATE only for an element whose path is in the language', z3.And(e, one))
        f = z3.BoolVal(True)
        if z3.is_app(r) and r.decl().name() == 'lang_union': f = LX(r, w) == z3.Or(LX(r.arg(0), w), LX(r.arg(1), w))
        run.oblige('another state only with the language of the continuations', z3.Implies(z3.And(e, f), z3.And(z3.Not(one), LX(r, w) == longer)))
class NameTest(Factory):
    def args(self, run): return [self.nextarg(run), S(run.fresh('name', Str))]
    def L(self, run, *a): return NAMEL(run.str_t(a[-1]), lang(run, a[-2]))
class ElemTest(Factory):
    def args(self, run): return [self.nextarg(run)]
    def L(self, run, *a): return ANYL(lang(run, a[-1]))
class AnyUntil(Factory):
    cases = ('state',)
    def args(self, run): return [self.nextarg(run)]
    def L(self, run, *a): return STARL(lang(run, a[-1]))
    def requires(self, run, *a): return [('** is not the last step', z3.BoolVal(not lang(run, a[-1]).eq(MATCHED)))]
class Either(Factory):
    cases = ('state',)
    def args(self, run): return [StateFn(run.fresh('first', Val), self.let), StateFn(run.fresh('second', Val), self.let)]
    def L(self, run, *a): return EITHER(lang(run, a[-2]), lang(run, a[-1]))
class FuncSeq(Abs):
    'a tuple of alternatives: functions that are true of the elements to accept'
    def __init__(self, t, let=LET): self.t, self.let = t, let
    def iter_src(self, run): return run.src(self.t, lambda f, i: AltFn(f, self.let))
    def isinstance(self, run, cls): return isinstance(cls, Ext) and cls.name == 'tuple'
    def truth(self, run): return run.nonempty(self.t)
class AltFn(Abs):
    callable = True
    def __init__(self, t, let): self.t, self.let = t, let
    def call(self, run, args, kw):
        x = args[0].x if hasattr(args[0], 'x') else run.toval(args[0])
        letters(run, self.t, x, self.let)
        return run.mk(LX(self.t, unit(x)))
    def toval(self, run): return self.t
class AnyOf(Factory):
    def args(self, run):
        return [self.nextarg(run), FuncSeq(run.fresh('funcs', VSeq), self.let)]
    def L(self, run, *a):
        t = a[-1].t if isinstance(a[-1], FuncSeq) else run.as_seq(a[-1])
        return ALTL(t, lang(run, a[-2]))
    def more(self, run, *a):
        # alternatives accept elements only
        x = self.x_ = None
        return ()
    def check(self, run, args, result):
        Factory.check(self, run, args, result)
add(NameTest('treeutil.name_test'), 'C10')
add(ElemTest('treeutil.elem_test'), 'C10')
add(AnyUntil('treeutil.any_until'), 'C10')
add(Either('treeutil.either'), 'C10')
class AnyOfT(AnyOf):
    def execute(self, run, fn, args):
        return AnyOf.execute(self, run, fn, args)
add(AnyOfT('treeutil.any_'), 'C10')
# ---------------------------------------------------------------------- patterns
STAGEKIND = z3.Function('stage_is_tuple', Int, Bool)
STAGESEQ = z3.Function('stage_alternatives', Int, VSeq)
def NAMESOF(run):
    'the alternatives of a step as languages of one name each'
    th = run.task.theory
    if not hasattr(th, 'NAMESOF'): th.NAMESOF = Hom('NAMESOF', [], VSeq, lambda r, ps, s: unit(NAMEL(Val.s(s), MATCHED)))
    return th.NAMESOF
def stagelang(run, x, l):
    'language of the step x followed by the language l'
    s = Val.s(x)
    return z3.If(Val.is_strv(x), z3.If(s == strc('*'), ANYL(l), z3.If(s == strc('**'), STARL(l), NAMEL(s, l))), ALTL(NAMESOF(run).app(run, (), STAGESEQ(Val.o(x))), l))
def PLANG(run):
    th = run.task.theory
    if not hasattr(th, 'PLANG'): th.PLANG = Fold('PLANG', [], Val, lambda r, ps, acc, x: stagelang(r, x, acc))
    return th.PLANG
class Stage(Abs):
    'a step of a pattern: a string or a tuple of strings'
    def __init__(self, x): self.x = x
    def isinstance(self, run, cls):
        if isinstance(cls, Ext) and cls.name == 'str': return run.mk(Val.is_strv(self.x))
        if isinstance(cls, Ext) and cls.name == 'tuple': return run.mk(Val.is_opq(self.x))
        return False
    def toval(self, run): return self.x
    def str_t(self, run):
        if not run.entails(Val.is_strv(self.x)): raise Unsupported('step used as a string')
        return Val.s(self.x)
    def eq(self, run, o):
        if isinstance(o, str): return run.mk(z3.And(Val.is_strv(self.x), Val.s(self.x) == strc(o)))
        raise Unsupported('step compared')
    def iter_src(self, run):
        if not run.entails(Val.is_opq(self.x)): raise Unsupported('step iterated')
        t = STAGESEQ(Val.o(self.x)); run.set_prov(t, lambda s: [Val.is_strv(s)])
        return run.src(t)
class Pattern(Abs):
    'a tuple of steps; REV is the sequence of its steps from the last to the first'
    def __init__(self, rev): self.rev = rev; self.at = {}
    def len(self, run): return run.mk(z3.Length(self.rev))
    def isinstance(self, run, cls): return isinstance(cls, Ext) and cls.name == 'tuple'
    def range_(self, run, n):
        if not n.eq(z3.Length(self.rev)) : raise Unsupported('range')
        def conv(x, i):
            self.at[tid(z3.simplify(i))] = (x, i); run.keep.append(i)
            return run.mk(z3.simplify(i))
        return Src(self.rev, conv)
    def reversed_(self, run): return Src(self.rev, lambda x, i: Stage(x))
    def slice(self, run, lo, hi, st):
        if lo is None and hi is None and st == -1: return self.reversed_(run)
        raise Unsupported('slice')
    def item(self, run, i):
        i = run.int_t(i)
        k = z3.simplify(-1 - i)
        for x, j in self.at.values():
            if run.entails(k == j): return Stage(x)
        raise Unsupported('step of a pattern')
class Prep(Contract):
    sentinel_hook = staticmethod(sentinel)
    def setup(self, run):
        t = run.fresh('reversed_pattern', VSeq)
        run.set_prov(t, lambda x: [z3.Or(Val.is_strv(x), Val.is_opq(x))])
        p = Pattern(t); run.pattern = p
        self.last(run, t)
        return [p]
    def last(self, run, t):
        # the last step is not **
        x, r = run.fresh('laststep', Val), run.fresh('steps', VSeq)
        run.split(t, [unit(x), r]); run.fact(x != Val.strv(strc('**')))
        run.fact(z3.Or(Val.is_strv(x), Val.is_opq(x)))
    def spec(self, run, p): return StateFn(PLANG(run).app(run, (), MATCHED, run.known(p.rev)))
    def folds(self, run, *a): return [('PLANG', lambda acc, P: PLANG(run).app(run, (), acc, P) if acc.sort() == Val else None)]
    def homs(self, run, *a): return [('NAMESOF', lambda P: NAMESOF(run).app(run, (), P))]
    def facts(self, run, *a):
        return [('not only the empty path', lambda P: z3.BoolVal(True))]
add(Prep('treeutil._prep_pattern'), 'C10')
def SELS(run):
    th = run.task.theory
    if not hasattr(th, 'SELS'):
        def step(r, ps, x):
            l, h = ps
            return z3.If(LX(l, unit(x)), unit(x), z3.If(isel(x), th.SELP(r, DER(l, x), h, Val.l(x)), EMPTY_V))
        th.SELS = Hom('SELS', [Val, HArr], VSeq, step)
        th.SELP = Rec('SELP', [Val, HArr, Loc], VSeq, lambda r, l, h, n: th.SELS.app(r, (l, h), z3.Select(h, n)))
        th.SELP.depth = 1
    return th.SELS
class SelectPattern(Contract):
    kind = 'gen'
    sentinel_hook = staticmethod(sentinel)
    cases = ('pattern', 'state')
    def setup(self, run):
        n = node_arg(run, 'node', [ELEMENT, TEXT])
        if run.task.case == 'state': return [n, None, StateFn(run.fresh('state', Val))]
        p = Pattern(run.fresh('reversed_pattern', VSeq)); Prep.last(self, run, p.rev)
        return [n, p, None]
    measure = staticmethod(lambda run, n, p, s: HT(run.loc(n)))
    def L(self, run, n, p, s): return lang(run, s) if s is not None else Prep.spec(None, run, p).t
    def spec(self, run, n, p, s):
        l = run.loc(n); L = self.L(run, n, p, s); h = run.harr('xml_children'); SELS(run)
        return z3.If(KIND(l) == ELEMENT, SELS(run).app(run, (L, h), run.known(run.children(l))), EMPTY_V)
    def homs(self, run, n, p, s):
        L = self.L(run, n, p, s); h = run.harr('xml_children'); SELS(run)
        def f(P):
            for x in parts_of(P):
                if is_unit(x):
                    x = x.arg(0); letters(run, L, x, LET)
                    th = run.task.theory; d = DER(L, x)
                    run.task.used.add('lemma.nothing_selected_with_empty_language')
                    run.axiom(('nothing', tid(x), tid(L)), z3.Implies(ISEMPTY(d), th.SELS.app(run, (d, h), run.known(run.children(Val.l(x)))) == EMPTY_V))
            return SELS(run).app(run, (L, h), P)
        return [('SELS', f)]
add(SelectPattern('treeutil.select_pattern'), 'C10')

class NothingSelected(Lemma):
    'a language that holds no path selects nothing: by induction over the height of the trees and the length of the sequence'
    def steps(self, run):
        th = run.task.theory; SELS(run)
        L, P, x, h = run.fresh('L', Val), run.fresh('P', VSeq), run.fresh('x', Val), run.harr('xml_children')
        run.fact(ISEMPTY(L))
        run.oblige('no element', SELS(run).app(run, (L, h), EMPTY_V) == EMPTY_V, 'lemma')
        run.fact(SELS(run).app(run, (L, h), P) == EMPTY_V)
        # ISEMPTY(l): no w is in l; DER(l, x) holds w exactly if l holds [x] ++ w
        run.fact(z3.Not(LX(L, unit(x)))); run.fact(ISEMPTY(DER(L, x)))
        run.fact(SELS(run).app(run, (DER(L, x), h), z3.Select(h, Val.l(x))) == EMPTY_V)      # the subtrees are less high
        run.oblige('one element more', SELS(run).app(run, (L, h), cat(P, unit(x))) == EMPTY_V, 'lemma')
add(NothingSelected('lemma.nothing_selected_with_empty_language'), 'C10')
