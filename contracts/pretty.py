"""Contract of treeutil.make_pretty (C14).

For an arbitrary element y of the tree (the witness): below the element given, y's children afterwards are y's children before, without the text that is
only white space, in the same order, and new text nodes with the indentation of y's level; all of them have y as parent. Outside nothing changes.
For the element itself this is shown from the code, for elements below from the contract of the recursive calls (same statement, smaller tree)."""
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *

CONTRACTS = []
INSUB = z3.Function('in_subtree', Loc, Loc, Bool)       # in the tree as it was given
DONE = z3.Function('is_pretty', Loc, VSeq, Bool)         # what is shown for the element itself
LEVEL = z3.Function('level', Loc, Int)
MADEFOR = z3.Function('made_for', Loc, Val)              # the parent a new node gets when it is made
C0, P0 = z3.Const('H0_xml_children', HArr), z3.Const('H0__xml_parent', PArr)
INDENT = z3.Const('indent_string', Str)
def th_(run):
    th = run.task.theory
    if not hasattr(th, 'SUBS'):
        old = lambda x: z3.And(Val.is_ref(x), BORN(Val.l(x)) == -1)
        th.SUBS = Hom('SUBS', [Loc], Bool, lambda r, ps, x: z3.And(KIND(Val.l(x)) == ELEMENT, INSUB(ps[0], Val.l(x))))   # elements below
        th.KEEPALL = Hom('KEEPALL', [], VSeq, lambda r, ps, x: z3.If(z3.And(KIND(Val.l(x)) == TEXT, SPACE(SVAL(Val.l(x)))), EMPTY_V, unit(x)))
        th.OLD = Hom('OLD', [], VSeq, lambda r, ps, x: z3.If(old(x), unit(x), EMPTY_V))
        def indentation(r, l, level): return z3.And(KIND(l) == TEXT, SVAL(l) == cat(strc('\n'), th.repeat(r, INDENT, level)))
        th.indentation = indentation
        th.BADNEW = Hom('BADNEW', [Int], Bool, lambda r, ps, x: z3.And(z3.Not(old(x)), z3.Not(indentation(r, Val.l(x), ps[0]))))
        th.STRAY = Hom('STRAY', [Loc], Bool, lambda r, ps, x: z3.Not(z3.And(Val.is_ref(x), z3.If(BORN(Val.l(x)) == -1, z3.Select(P0, Val.l(x)), MADEFOR(Val.l(x))) == R(ps[0]))))
        th.on_split = lambda run, St, P, x, R_: setattr(run, 'lastsplit', (P, x))
    return th
def settle(run):
    'the parent a new node has when it is first looked at; from then on nobody may change it'
    for l in run.news:
        if tid(l) not in run.settled:
            run.settled.add(tid(l)); run.keep.append(l)
            run.fact(MADEFOR(l) == z3.simplify(z3.Select(run.harr('_xml_parent'), l)))
def forall(run, f, guard=True):
    'f(y) holds for every node y that existed before: used at the witness, at the element, and where asked for'
    run.allw.append(f)
    for y in run.wits: run.fact(f(y))
def newwit(run, y):
    run.fact(BORN(y) == -1); run.fact(KIND(y) == ELEMENT); run.wits.append(y)
    for f in run.allw: run.fact(f(y))
def heapinv_children(run, v0, A, P):
    return [inv_children(run, v0, A, P)(y) for y in run.wits]
def inv_children(run, v0, A, P):
    th = th_(run)
    return lambda y: z3.And(z3.Implies(th.SUBS.app(run, (y,), P), DONE(y, z3.Select(A, y))), z3.Implies(z3.Not(th.SUBS.app(run, (y,), P)), z3.Select(A, y) == z3.Select(v0, y)))
heapinv_children.onmake = lambda run, v0, A, P: forall(run, inv_children(run, v0, A, P))
def heapinv_other(run, v0, A, P): return [z3.Select(A, y) == z3.Select(v0, y) for y in run.wits]
heapinv_other.onmake = lambda run, v0, A, P: forall(run, lambda y: z3.Select(A, y) == z3.Select(v0, y))
def listinv(run, t0, L, P):
    th = th_(run); settle(run)
    return [th.OLD.app(run, (), L) == cat(th.OLD.app(run, (), t0), th.KEEPALL.app(run, (), P)), th.BADNEW.app(run, (run.level,), L) == th.BADNEW.app(run, (run.level,), t0), th.STRAY.app(run, (run.elem,), L) == th.STRAY.app(run, (run.elem,), t0)]
class Pretty(Contract):
    pure = False; heap_used = ('xml_children', '_xml_parent', 'xml_name')
    assumes = ('the indentation given to make_pretty is the same string in all calls of one run',)
    def setup(self, run):
        run.settled = set(); run.allw = []; run.wits = []
        e = node_arg(run, 'elem', [ELEMENT]); run.elem = run.loc(e); th_(run)
        run.witness = run.fresh('y', Loc)
        newwit(run, run.elem); newwit(run, run.witness)
        run.fact(z3.Implies(INSUB(run.witness, run.elem), z3.Or(run.witness == run.elem, HT(run.witness) < HT(run.elem))))
        run.facts_only = True
        t = run.children(run.elem)
        d = run.fresh('depth', Int); run.fact(d == LEVEL(run.elem)); run.level = z3.simplify(d + 1)
        return [e, S(d), S(INDENT)]
    measure = staticmethod(lambda run, e, *a: HT(run.loc(e)))
    def facts(self, run, e, *a):
        th = th_(run)
        return [('the element is not below its children', lambda P: z3.Not(th.SUBS.app(run, (run.elem,), P)))]
    def heapinv(self, run, f, v0):
        if f == 'xml_children': return [('pretty so far', heapinv_children)]
        return [('nodes that existed keep it', heapinv_other)]
    def listinv(self, run): return [('kept and indentation', listinv)]
    def apply(self, run, f, args, kw):
        e, d, i = self.normargs(run, f, args, kw)
        e = run.concretize(e); x = run.loc(e); self.used = True
        cur = run.task.contract
        run.oblige('call of %s: indentation handed on' % self.name, run.proved_same(i, S(INDENT)), 'precondition')
        run.oblige('call of %s: an element' % self.name, z3.And(KIND(x) == ELEMENT, z3.Select(P0, x) == R(run.elem)), 'precondition')
        run.fact(LEVEL(x) == LEVEL(run.elem) + 1); run.fact(HT(x) < HT(run.elem))      # definition of the level; a tree
        run.oblige('call of %s: depth' % self.name, run.int_t(d) == LEVEL(x), 'precondition')
        m1, m0 = self.measure(run, e), run.m0
        run.oblige('call of %s: measure decreases' % self.name, z3.And(m1 < m0, m0 >= 0), 'termination')
        # nothing below x has been touched: the parts of the tree below different children are apart
        th = th_(run); y = run.fresh('below', Loc); newwit(run, y)
        self.tree(run, y, x); self.tree(run, run.witness, x); self.tree(run, run.elem, x)
        run.oblige('call of %s: the subtree is as it was' % self.name, z3.Implies(INSUB(y, x), z3.Select(run.harr('xml_children'), y) == z3.Select(C0, y)), 'precondition')
        settle(run)
        for fl in self.heap_used:
            v0 = run.harr(fl); A = run.fresh('H_' + fl, v0.sort())
            run.heap[fl] = A
            if fl == 'xml_children': forall(run, lambda y, A=A, v0=v0: z3.And(z3.Implies(INSUB(y, x), DONE(y, z3.Select(A, y))), z3.Implies(z3.Not(INSUB(y, x)), z3.Select(A, y) == z3.Select(v0, y))))
            else:
                forall(run, lambda y, A=A, v0=v0: z3.Select(A, y) == z3.Select(v0, y))
                for l in run.news: run.fact(z3.Select(A, l) == z3.Select(v0, l))
        run.task.used.add(self.name)
        return e
    def tree(self, run, y, x):
        th = th_(run)
        if hasattr(run, 'lastsplit') and run.entails(R(x) == run.lastsplit[1]):
            run.fact(z3.Not(z3.And(th.SUBS.app(run, (y,), run.lastsplit[0]), INSUB(y, x))))
        run.fact(z3.Implies(INSUB(y, x), HT(y) <= HT(x)))
    def on_hset(self, run, f, loc, t):
        if f in ('_xml_parent', 'xml_name') :
            ok = any(loc.eq(l) and tid(l) not in run.settled for l in run.news)
            run.oblige('only nodes in the making get a %s' % f, ok, 'frame')
    def check(self, run, args, result):
        th = th_(run); e, w = run.elem, run.witness; settle(run)
        run.oblige('returns the element', run.proved_same(result, args[0]))
        h = run.harr('xml_children'); s = run.known(z3.simplify(z3.Select(h, e)))
        t0 = run.known(z3.Select(C0, e))
        run.oblige('keeps elements and other text, in order', th.OLD.app(run, (), s) == th.KEEPALL.app(run, (), t0))
        lv = run.level; ps = parts_of(s)
        good = z3.Not(th.BADNEW.app(run, (lv,), s))
        if ps and is_unit(ps[-1]):
            z = Val.l(ps[-1].arg(0)); rest = cat(*ps[:-1]) if ps[:-1] else EMPTY_V
            good = z3.Or(good, z3.And(z3.Not(th.BADNEW.app(run, (lv,), rest)), BORN(z) != -1, th.indentation(run, z, z3.simplify(lv - 1))))
        run.oblige('what is new is indentation', good)
        run.oblige('all have the element as parent', z3.Not(th.STRAY.app(run, (e,), s)))
        below = th.SUBS.app(run, (w,), z3.Select(C0, e))
        run.oblige('the same below', z3.Implies(z3.And(below, w != e), DONE(w, z3.Select(h, w))))
        run.oblige('nothing else changes', z3.Implies(z3.And(z3.Not(below), w != e), z3.Select(h, w) == z3.Select(C0, w)), 'frame')
        for f in sorted(FIELD):
            if f in run.heap and f not in ('xml_children', '_xml_root_node'): run.oblige('unchanged: ' + f, z3.Select(run.heap[f], w) == z3.Select(z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f])), w), 'frame')
c = Pretty('treeutil.make_pretty'); c.props = ('C14',); CONTRACTS.append(c)
