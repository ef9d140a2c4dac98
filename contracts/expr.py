"""Contracts of XPath expressions (C16, C17). The parts of an expression are any expressions: of each it is known only that what it
yields is determined by the context item, the position and the rest of the context (induction over expressions)."""
import z3
from .values import NAMES, EV, env_of, results, first, ctx_, Expr, CMP, OPS, NONE
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from .axes import *
from .axes import BADK, step_facts, tree_facts2, par_
from .treeutil import split_at_child, BEFORE
from .values import *
from .values import ev, hv, item_facts, PURE, FLOATS, V_, B_, opt_item, FREE, Parse, PARSED, CTXF, PARSE

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
E0 = z3.IntVal(0)
def node_items(x): return [V_.is_ref(x), z3.Or(*[KIND(V_.l(x)) == k for k in ALLK]), BORN(V_.l(x)) == -1, HT(V_.l(x)) >= 0]
# ---------------------------------------------------------------------- what the operators mean
SLASH = Hom('SLASH', [Int, Val, Int], VSeq, lambda run, ps, x: ev(run, ps[0], x, ps[1], ps[2]))        # the results of an expression for each item in turn

SEQUENCE = Hom('SEQUENCE', [Val, Val, Int], VSeq, lambda run, ps, x: z3.If(V_.is_opq(x), ev(run, V_.o(x), *ps), unit(x)))
def any_right(op): return Hom('ANY_R_' + NAMES[op], [HArr, SArr, Val], Bool, lambda run, ps, y: CMP[op](run, ps[0], ps[1], ps[2], y))
ANYR = {op: any_right(op) for op in OPS}
def any_left(op): return Hom('ANY_L_' + NAMES[op], [HArr, SArr, VSeq], Bool, lambda run, ps, x: ANYR[op].app(run, (ps[0], ps[1], x), ps[2]))
ANYL = {op: any_left(op) for op in OPS}
def FIRST(t, default): return z3.If(z3.Length(t) > 0, t[0], default)
def pass_(run, h, hx, x, pred, off, env):
    "is the item kept by the predicate, at this place?"
    v = z3.If(V_.is_opq(pred), FIRST(ev(run, V_.o(pred), x, V_.intv(off + 1), env), V_.boolv(z3.BoolVal(False))), pred)
    return z3.If(V_.is_intv(v), V_.i(v) == off + 1, z3.If(V_.is_fltv(v), run.task.theory.num_eq(run, off + 1, V_.f(v)), B_(run, v)))
PASSES = Rec('PASSES', [HArr, SArr, Val, Val, Int, Int], Bool, pass_, recursive=False)
FILTER = IHom('FILTER', [HArr, SArr, Val, Int, Int], VSeq, lambda run, ps, x: z3.If(PASSES(run, ps[0], ps[1], x, ps[2], ps[4], ps[3]), unit(x), EMPTY_V))
FILTERS = Fold('FILTERS', [HArr, SArr], VSeq, lambda run, ps, acc, x: FILTER.app(run, (ps[0], ps[1], x, E0, E0), run.known(acc)))
INORDER = z3.Function('in_document_order', VSeq, VSeq)                # the nodes of the sequence, each once, in document order
FREE.update({'in_document_order', 'identity', 'step_axis'})
def conv_(run):
    def f(x, i):
        if run.branch(V_.is_opq(x)): return Expr(run, V_.o(x))
        return run.fromval(x)
    return f
class OtherExpr(Expr):
    'any expression which is not a step along the child axis'
    def __init__(self, run):
        Expr.__init__(self, run); self.isstep = run.fresh('is_a_step', Bool); self.axis = run.fresh('axis', Str); run.fact(self.axis != strc('child'))
    def isinstance(self, run, cls):
        if isinstance(cls, ClassInfo) and cls.qual == 'uxpath.xast.step': return run.branch(self.isstep)
        return Expr.isinstance(self, run, cls)
    def attr(self, run, name):
        if name == 'axis' and run.branch(self.isstep): return S(self.axis)
        return Expr.attr(self, run, name)
class XE(Step_):
    'an expression: contract of compute(self, ctx)'
    cases = (None,); assumes = (PURE, KNOWN_ROOT)
    def wfacts(self, run, *a): return []
    def variants(self, run, *a): return []
    def class_hook(self, run, cls, args, kw): return None
    def homs(self, run, *a): return []
    def conts(self, run, *a): return []
    def requires(self, run, *a): return []
    def ctx(self, run, node=False):
        c = ctx_(run)
        if node:
            n = node_arg(run, 'item'); run.hget('_xml_parent', run.loc(n)); run.fact(DP(run.loc(n)) >= 0)
            c.content['item'] = n; run.ctx0_fields = dict(c.content); run.inputs[-1] = (c, dict(c.content))
        return c
    def step(self, run, e): return self.mkstep(run, *e.split('::'))
def at(run, ctx): return run.toval(ctx.content['item']), run.toval(ctx.content['pos'])
def RES(run, e, ctx):
    'what the part of an expression yields'
    if isinstance(e, Expr): return results(run, e, ctx)
    ax = Axes(run, e.content['node_test']); return ax.spec(run, e.content['axis'], run.loc(run.concretize(ctx.content['item'])))
class Binary(XE):
    assumes = (PURE, KNOWN_ROOT, FLOATS, 'the left side of // yields nodes')
    cases = ('/', '// child::name', '// child::node', '// child::text', '//', '|', 'and', 'or') + OPS
    rank = lambda self, e: 1 if e.content['op'] == '//' else 0
    measure = lambda self, run, e, ctx: z3.IntVal(self.rank(e))
    def setup(self, run):
        op, *right = run.task.case.split(' ')
        r = self.step(run, right[0]) if right else OtherExpr(run) if op == '//' else Expr(run)
        l = Expr(run); c = self.ctx(run)
        if op in ('//', '|'): run.set_prov(EV(l.i, *at(run, c), E0), node_items)
        if op == '|': run.set_prov(EV(r.i, *at(run, c), E0), node_items)
        return [obj(run, 'uxpath.xast.binary_expression', left=l, op=op, right=r), c]
    def emptydict_hook(self, run):
        if run.task.case == '|': return KMap(run)
        return DObj(run, {})
    def spec(self, run, e, ctx):
        op, l, r = (e.content[k] for k in ('op', 'left', 'right')); item, pos = at(run, ctx)
        if op not in self.cases: raise Unsupported('operator')
        L = run.known(RES(run, l, ctx))
        if op == '/':
            return SLASH.app(run, (r.i, pos, env_of(run, ctx)), L)
        if op == '//': return self.dslash(run, r, pos).app(run, self.dparams(run, r, pos), L)
        if op == '|': return INORDER(cat(L, run.known(RES(run, r, ctx))))
        if op in OPS: return unit(V_.boolv(ANYL[op].app(run, hv(run) + (RES(run, r, ctx),), L)))
        a, b = (B_(run, first(run, RES(run, x, ctx), NONE)) for x in (l, r))
        return unit(V_.boolv(z3.And(a, b) if op == 'and' else z3.Or(a, b)))
    def dparams(self, run, r, pos): return (run.harr('xml_name'),) + ((run.str_t(r.content['node_test'].content['name']),) if isinstance(r, MObj) else (r.i, pos, E0))
    def dslash(self, run, r, pos):
        d = run.task.theory.__dict__.setdefault('_dslash', {}); k = testkey(r.content['node_test']) if isinstance(r, MObj) else 'any'
        if k in d: return d[k]
        if isinstance(r, MObj):
            ax = Axes(run, r.content['node_test'])        # the descendants that pass the test, in document order
            d[k] = Hom('DSLASH_' + '_'.join(k), [SArr, Str], VSeq, lambda run, ps, x: ax.f['PRE'].app(run, ps, run.known(z3.Select(C0, V_.l(x)))))
        else:
            test = obj(run, 'uxpath.xast.node_type_test', name='node'); ax = Axes(run, test); node = strc('node')
            def one(run, ps, x):
                l = V_.l(x); return SLASH.app(run, ps[1:], cat(TESTED(run, test, unit(R(l))), ax.f['PRE'].app(run, (ps[0], node), run.known(z3.Select(C0, l)))))
            d[k] = Hom('DSLASH', [SArr, Int, Val, Int], VSeq, one)
        return d[k]
    def homs(self, run, e, ctx):
        op, r = e.content['op'], e.content['right']; item, pos = at(run, ctx)
        if op == '/': return [('SLASH', lambda P: SLASH.app(run, (r.i, pos, E0), P))]
        if op == '//': return [('DSLASH', lambda P: self.dslash(run, r, pos).app(run, self.dparams(run, r, pos), P))]
        if op == '|': return [('ITEMS', lambda P: P)]
        if op in OPS:
            def right(P):
                if not run.loopxs: raise Unsupported('no item on the left')
                return ANYR[op].app(run, hv(run) + (run.loopxs[-1],), P)
            return [('ANYR', right), ('ANYL', lambda P: ANYL[op].app(run, hv(run) + (RES(run, r, ctx),), P))]
        return []
    def facts(self, run, e, ctx):
        op, r = e.content['op'], e.content['right']
        if op not in OPS: return []
        out = [('none yet', lambda P: z3.Not(ANYL[op].app(run, hv(run) + (RES(run, r, ctx),), P)))]
        out.append(('none on the right yet', lambda P: z3.Not(ANYR[op].app(run, hv(run) + (run.loopxs[-1],), P)) if run.loopxs else z3.BoolVal(True)))
        return out
class KMap(Mut, Abs):
    """a dictionary from places in document order to nodes. Content: the nodes put into it, in turn. Nodes with equal keys are the same (contract
    of docorder), so it holds each of them once, and its sorted keys are those of the nodes in document order."""
    def __init__(self, run): self.content = EMPTY_V; run.mut.append(self)
    def put(self, run, key, v):
        if not isinstance(key, Key) or not run.entails(R(key.l) == run.toval(v)): raise Unsupported('a key of another node')
        self.content = cat(self.content, unit(R(key.l)))
    def attr(self, run, name):
        if name == 'setdefault': return KMapPut(self)
        raise Unsupported('dict.' + name)
    def setitem(self, run, k, v): self.put(run, k, v)
    def contains(self, run, k):
        if not isinstance(k, Key): raise Unsupported('in')
        return run.mk(run.task.theory.MEMBER.app(run, (R(k.l),), run.known(self.content)))
    def item(self, run, k):
        if not isinstance(k, Key) or k.of is not self: raise Unsupported('item')
        return S(R(k.l))
    def sorted_(self, run): return SortedKeys(self, INORDER(run.known(self.content)))
    def truth(self, run): return run.nonempty(self.content)
    def isinstance(self, run, cls): raise Unsupported('isinstance')
class KMapPut(Abs):
    def __init__(self, m): self.m = m
    def call(self, run, args, kw):
        if len(args) != 2 or kw: raise Unsupported('setdefault')
        self.m.put(run, *args); return args[1]
class SortedKeys(Abs):
    def __init__(self, m, t): self.m, self.t = m, t
    def iter_src(self, run):
        run.set_prov(self.t, node_items); return run.src(self.t, lambda x, i: Key(V_.l(x), self.m))
    def truth(self, run): return self.m.truth(run)
class Key(Abs):
    'the place of a node in document order'
    def __init__(self, l, of=None): self.l, self.of = l, of
    def same(self, run, o): return self.l == o.l if isinstance(o, Key) else None
    def eq(self, run, o): return run.mk(self.l == o.l) if isinstance(o, Key) else False
add(Binary('uxpath.xast.binary_expression.compute'), 'C16', 'C17')
# ---------------------------------------------------------------------- document order
POS = z3.Function('place_in_parent', Loc, Int)
def DONE(run, l): return cat(z3.If(KIND(l) == ROOT, EMPTY_V, unit(V_.pairv(1, 0))), unit(V_.pairv(1, IDOF(ROOTOF(run, l)))))
PLACE = Rec('PLACE', [Loc], VSeq, lambda run, l: z3.If(Val.is_none(par_(l)), DONE(run, l), cat(unit(V_.pairv(z3.If(KIND(l) == ATTR, 0, 1), POS(l))), PLACE(run, Val.l(par_(l))))))
class DocOrder(XC):
    """The key of a node, from the root down: which tree, then for each step the place among the children of the parent, by identity, or of
    the attribute among the attributes, which come first. Such keys are equal for the same node only, and in lexicographic order are in document order (that is the definition of it)"""
    assumes = (KNOWN_ROOT, 'an attribute node has the name of one of the attributes of its element')
    def setup(self, run):
        n = node_arg(run, 'item'); l = run.loc(n); run.hget('_xml_parent', l); run.fact(DP(l) >= 0); self.l = l; self.cut = {}
        return [n]
    def on_hget(self, run, f, loc, t):
        tree_facts2(run, f, loc, t)
        if not run._is_initial(f) or run.task.contract is not self: return
        if f in ('xml_children', 'xml_attributes'):
            # loc is the parent of some node: that node is among its children or attributes, once
            if z3.is_app(loc) and loc.decl().name() == 'l' and z3.is_app(loc.arg(0)) and loc.arg(0).decl().kind() == z3.Z3_OP_SELECT and loc.arg(0).arg(0).eq(P0):
                me = loc.arg(0).arg(1); key = (f, tid(loc))
                if key in run.axdone: return
                run.axdone.add(key)
                if f == 'xml_children':
                    if run.branch(KIND(me) == ATTR): return
                    split_at_child(run, loc, me); run.fact(POS(me) == z3.Length(BEFORE(C0, loc, me)))
                else:
                    if not run.branch(KIND(me) == ATTR): return
                    ks = run.keys(t); a, b = run.fresh('before', VSeq), run.fresh('after', VSeq); nm = V_.strv(z3.Select(run.harr('xml_name'), me))
                    run.split(ks, [a, unit(nm), b]); run.fact(z3.Not(run.task.theory.EQMEM(run, S(nm)).app(run, (nm,), a))); run.fact(POS(me) == z3.Length(a))
    def requires(self, run, n): return [('a node', run.kind_in(run.loc(n), ALLK))]
    def result(self, run, args): return Key(run.loc(run.concretize(args[0])))
    def conts(self, run, n): return [('PLACE', lambda w: PLACE(run, Val.l(w) if w.sort() == Val else w) if w.sort() in (Val, Loc) else None)]
    def wfacts(self, run, n):
        def ref(w):
            if w.sort() == Loc: w = R(w)
            if w.sort() != Val: return None
            l = Val.l(w); return z3.And(Val.is_ref(w), run.kind_in(l, ALLK), BORN(l) == -1, DP(l) >= 0)
        def same(w):
            if w.sort() == Loc: w = R(w)
            if w.sort() != Val: return None
            return z3.Implies(Val.is_ref(w), TOPF(run, Val.l(w)) == TOPF(run, self.l))
        return [('a node', ref), ('in the same tree', same)]
    def variants(self, run, n):
        def v(w):
            if w.sort() == Loc: return DP(w) + 1
            if w.sort() == Val: return z3.If(Val.is_ref(w), DP(Val.l(w)) + 1, 0)
        return [('depth', v)]
    def facts(self, run, n):
        def f(P):
            # nothing equal to the item looked for, in what came before
            return z3.BoolVal(True)
        return []
    def check(self, run, args, r):
        th = run.task.theory
        run.oblige('returns', th.REV.app(run, (), run.known(run.as_seq(r))) == PLACE(run, self.l))
add(DocOrder('uxpath.xast.docorder'), 'C16')
# ---------------------------------------------------------------------- predicates, sequences
def parts(run, name):
    'a list of expressions and plain values'
    t = run.fresh(name, VSeq); run.set_prov(t, exprs_)
    l = LObj(run, t); l.conv = conv_(run); return l
def exprs_(x): return [z3.Or(V_.is_opq(x), *item_facts(x))]
class Filter(XE):
    """keeps the items whose value for the predicate is true or, where it is a number, equal to the place of the item"""
    cases = ('expression', 'value'); assumes = (PURE, FLOATS)
    def setup(self, run):
        self.t = items(run); c = self.ctx(run)
        if run.task.case == 'expression': p = Expr(run)
        else: v = item(run, 'predicate'); run.fact(z3.Not(V_.is_ref(v))); p = S(v)
        return [obj(run, 'uxpath.xast.predicated_expression'), It(run, self.t), p, c]
    def seq(self, run, it): return self.t if run.task.contract is self else run.known(run.as_seq(it))
    def F(self, run, p, ctx, t): return FILTER.app(run, hv(run) + (run.toval(p), env_of(run, ctx), E0), t)
    def spec(self, run, e, its, p, ctx): return self.F(run, p, ctx, self.seq(run, its))
    def homs(self, run, e, its, p, ctx): return [('FILTER', lambda P: self.F(run, p, ctx, P))]
add(Filter('uxpath.xast.predicated_expression._filter'), 'C17', 'C16')
class Predicated(XE):
    'each predicate filters what the ones before it leave, with places counted anew'
    assumes = (PURE, FLOATS)
    def setup(self, run): return [obj(run, 'uxpath.xast.predicated_expression', lhs=Expr(run), predicates=parts(run, 'predicates')), self.ctx(run)]
    def spec(self, run, e, ctx): return FILTERS.app(run, hv(run), RES(run, e.content['lhs'], ctx), run.known(e.content['predicates'].content))
    def folds(self, run, e, ctx): return [('FILTERS', lambda acc, P: FILTERS.app(run, hv(run), acc, P))]
add(Predicated('uxpath.xast.predicated_expression.compute'), 'C17', 'C16')
class Seq_(XE):
    'the results of the parts, one after the other'
    def setup(self, run): return [obj(run, 'uxpath.xast.Sequence', items=parts(run, 'items')), self.ctx(run)]
    def F(self, run, ctx, t): return SEQUENCE.app(run, at(run, ctx) + (env_of(run, ctx),), t)
    def spec(self, run, e, ctx): return self.F(run, ctx, run.known(e.content['items'].content))
    def homs(self, run, e, ctx): return [('SEQUENCE', lambda P: self.F(run, ctx, P))]
add(Seq_('uxpath.xast.Sequence.compute'), 'C17', 'C16')
class Unary(XE):
    'the number of the first item, with its sign changed'
    assumes = (PURE, FLOATS)
    def setup(self, run): return [obj(run, 'uxpath.xast.unary_expression', op='-', right=Expr(run)), self.ctx(run)]
    def spec(self, run, e, ctx):
        n = N_(run, FIRST(RES(run, e.content['right'], ctx), V_.none))
        return unit(z3.If(V_.is_intv(n), V_.intv(-V_.i(n)), V_.fltv(z3.fpNeg(V_.f(n)))))
add(Unary('uxpath.xast.unary_expression.compute'), 'C16', 'C17')
# ---------------------------------------------------------------------- absolute paths
class Absolute(XE):
    """/ is the root node; /p the results of p for it; //p those of p for it and for each of its descendants, in document order. A first step
    child::node() yields the root node first"""
    cases = ('', '/', '//') + tuple('%s child::%s' % (op, t) for op in ('/', '//') for t in ('name', 'node', 'text'))
    assumes = (PURE, KNOWN_ROOT); on_hget = staticmethod(step_facts)
    def setup(self, run):
        op, *right = run.task.case.split(' ')
        r = None if not op else self.step(run, right[0]) if right else OtherExpr(run)
        return [obj(run, 'uxpath.xast.absolute_path', op=op or '/', relative=r), self.ctx(run, node=True)]
    def one(self, run, r, params, x):
        'what the relative path yields for a node'
        if isinstance(r, MObj): ax = Axes(run, r.content['node_test']); return TESTED(run, ax.test, run.known(z3.Select(C0, V_.l(x))))
        return ev(run, params[0], x, *params[1:])
    def all(self, run, r):
        'for the nodes of a sequence and their descendants'
        d = run.task.theory.__dict__.setdefault('_absolute', {}); k = '_'.join(testkey(r.content['node_test'])) if isinstance(r, MObj) else 'any'
        if k not in d:
            f = {}; ps = [SArr, Str] if isinstance(r, MObj) else [Int, Val, Int]
            f['H'] = Hom('EVERY_' + k, ps, VSeq, lambda run, p, x: f['R'](run, *p, V_.l(x)))
            f['R'] = Rec('EVERY1_' + k, ps + [Loc], VSeq, lambda run, *a: cat(self.one(run, r, a[:-1], R(a[-1])), f['H'].app(run, tuple(a[:-1]), run.known(z3.Select(C0, a[-1])))))
            f['M'] = Hom('EACH_' + k, ps, VSeq, lambda run, p, x: self.one(run, r, p, x))
            fuse_preorder(f['M'], f['H'], f['R'])
            d[k] = f['H']; run.task.theory.__dict__.setdefault('_each', {})[k] = f['M']
        return d[k]
    def each(self, run, r):
        'for the nodes of a sequence'
        k = '_'.join(testkey(r.content['node_test'])) if isinstance(r, MObj) else 'any'
        self.all(run, r); return run.task.theory._each[k]
    def params(self, run, r, ctx): return Axes(run, r.content['node_test']).p if isinstance(r, MObj) else (r.i, run.toval(ctx.content['pos']), env_of(run, ctx))
    def spec(self, run, e, ctx):
        op, r = e.content['op'], e.content['relative']
        root = R(ROOTOF(run, run.loc(run.concretize(ctx.content['item']))))
        if r is None: return unit(root)
        if op not in ('/', '//'): raise Unsupported('operator')
        out = []
        if isinstance(r, MObj) and r.content['axis'] == 'child' and r.content['node_test'].cls.qual.endswith('node_type_test') and r.content['node_test'].content['name'] == 'node': out.append(unit(root))
        p = self.params(run, r, ctx)
        out.append(self.one(run, r, p, root))
        if op == '//': out.append(self.all(run, r).app(run, p, run.known(z3.Select(C0, V_.l(root)))))
        return cat(*out)
    def homs(self, run, e, ctx):
        op, r = e.content['op'], e.content['relative']
        return [] if op != '//' else [(n, lambda P, f=f: f(run, r).app(run, self.params(run, r, ctx), P)) for n, f in (('EACH', self.each), ('EVERY', self.all))]
    def conts(self, run, e, ctx):
        op, r = e.content['op'], e.content['relative']
        way = lambda turn: lambda w: self.all(run, r).app(run, self.params(run, r, ctx), run.known(turn(run.known(w)))) if w.sort() == VSeq else None
        return [] if op != '//' else [('EVERY', way(lambda t: t)), ('EVERY, last first', way(lambda t: run.task.theory.REV.app(run, (), t)))]
    def wfacts(self, run, e, ctx): return [(n, lambda w, f=f: z3.Not(f(run, run.known(w))) if w.sort() == VSeq else None) for n, f in (('nodes', BADN), ('nodes of any kind', BADK))]
    def variants(self, run, e, ctx): return [('size', lambda w: run.task.theory.SIZE.app(run, (C0,), run.known(w)) if w.sort() == VSeq else None)]
add(Absolute('uxpath.xast.absolute_path.compute'), 'C15', 'C16', 'C17')
# ---------------------------------------------------------------------- variables, functions, literals
VARHAS, VARVAL = z3.Function('variable_given', Str, Bool), z3.Function('variable', Str, Val)
FUNHAS, FUNRES = z3.Function('function_known', Str, Bool), z3.Function('results_of_function', Str, VSeq, Val, Val, VSeq)
FREE.update({'variable_given', 'variable', 'function_known', 'results_of_function'})
class Variables(Abs):
    'the variables: values by name'
    def truth(self, run): return run.branch(run.fresh('any_variables', Bool))
    def same(self, run, o): return True if o is self else None
    def contains(self, run, k): return run.mk(VARHAS(run.str_t(k)))
    def item(self, run, k):
        if not run.branch(VARHAS(run.str_t(k))): raise PyRaise(Exc('KeyError'))
        return S(VARVAL(run.str_t(k)))
    def isinstance(self, run, cls): raise Unsupported('isinstance')
    def attr(self, run, name):
        if name == 'get': return Lookup(self)
        raise Unsupported('%s of the variables or functions' % name)
class Lookup(Abs):
    'get: None or the default for what is not there'
    def __init__(self, of): self.of = of
    def call(self, run, args, kw):
        if len(args) not in (1, 2) or kw: raise Unsupported('get')
        if not run.truth(self.of.contains(run, args[0])): return args[1] if len(args) == 2 else None
        return self.of.item(run, args[0])
class Functions(Variables):
    'the functions: by name'
    def contains(self, run, k): return run.mk(FUNHAS(run.str_t(k)))
    def item(self, run, k):
        if not run.branch(FUNHAS(run.str_t(k))): raise PyRaise(Exc('KeyError'))
        return Function(run.str_t(k))
class Function(Abs):
    callable = takes_star = True
    def __init__(self, name): self.name = name
    def truth(self, run): return True
    def same(self, run, o): return True if o is self else None
    def isinstance(self, run, cls): raise Unsupported('isinstance')
    def call(self, run, args, kw):
        if len(args) != 2 or kw or not isinstance(args[1], Star): raise Unsupported('call of a function')
        ctx, a = args[0], args[1].t
        if not isinstance(ctx, MObj) or any(ctx.content.get(f) is not run.ctx0_fields[f] for f in CTXF): raise Unsupported('a function called with another context')
        return It(run, FUNRES(self.name, a, run.toval(ctx.content['item']), run.toval(ctx.content['pos'])))
class Variable(XE):
    def setup(self, run): return [obj(run, 'uxpath.xast.variable_reference', name=S(run.fresh('name', Str))), self.ctx2(run)]
    def ctx2(self, run):
        c = self.ctx(run); c.content['variables'] = Variables(); c.content['functions'] = Functions()
        run.ctx0_fields = dict(c.content); run.inputs[-1] = (c, dict(c.content)); return c
    def spec(self, run, e, ctx): return unit(VARVAL(run.str_t(e.content['name'])))
    def check_raise(self, run, args, exc): run.oblige('no exception (%s) but for a variable that is not given' % exc.name, z3.And(z3.Not(VARHAS(run.str_t(args[0].content['name']))), exc.name in ('KeyError', 'RuntimeError')))
add(Variable('uxpath.xast.variable_reference.compute'), 'C16', 'C17')
class Call(Variable):
    'what the function of that name yields for the context and the arguments, as they are'
    def setup(self, run): return [obj(run, 'uxpath.xast.function_call', name=S(run.fresh('name', Str)), args=parts(run, 'arguments')), self.ctx2(run)]
    def spec(self, run, e, ctx): return FUNRES(run.str_t(e.content['name']), e.content['args'].content, *at(run, ctx))
    def check_raise(self, run, args, exc): run.oblige('no exception (%s) but for an unknown function' % exc.name, z3.And(z3.Not(FUNHAS(run.str_t(args[0].content['name']))), exc.name in ('KeyError', 'RuntimeError')))
add(Call('uxpath.xast.function_call.compute'), 'C16', 'C17')
class Literal(XE):
    def setup(self, run):
        v = run.fresh('literal', Val); run.fact(z3.Or(V_.is_intv(v), V_.is_fltv(v), V_.is_strv(v)))
        return [obj(run, 'uxpath.xast.literal_wrapper', obj=S(v)), self.ctx(run)]
    def spec(self, run, e, ctx): return unit(run.toval(e.content['obj']))
add(Literal('uxpath.xast.literal_wrapper.compute'), 'C16', 'C17')
# ---------------------------------------------------------------------- contexts and queries
class Logged(Expr):
    'an expression that records the contexts it is computed in'
    def attr(self, run, name):
        if name == 'compute': return LoggedCompute(self)
        return Expr.attr(self, run, name)
class LoggedCompute(Abs):
    def __init__(self, e): self.e = e
    def truth(self, run): return True
    def call(self, run, args, kw):
        if len(args) != 1 or kw or not isinstance(args[0], MObj): raise Unsupported('compute')
        run.computed.append((self.e, args[0], dict(args[0].content)))
        t = z3.Const('results', VSeq); run.set_prov(t, item_facts)
        return It(run, t)
class Context(XE):
    """a new context: where a root is asked for, that of the tree of the node; the values given, and for functions the built-in ones by default"""
    checkonly = True; cases = tuple('%s%s' % (i, f) for i in ('node', 'value') for f in ('', '/no root', '/root'))
    pure = False
    def setup(self, run):
        i, _, f = run.task.case.partition('/')
        self.table = Opaque('BUILTIN_FUNCTIONS')
        if i == 'node': n = node_arg(run, 'item'); run.hget('_xml_parent', run.loc(n)); run.fact(DP(run.loc(n)) >= 0)
        else: v = item(run, 'value'); run.fact(z3.Not(V_.is_ref(v))); n = S(v)
        self.given = {k: Opaque(k, run.fresh(k + '_given', Bool)) for k in CTXF}
        c = MObj(run, cls_of(run, 'uxpath.context'), {})
        g = self.given; self.pos = S(run.fresh('pos', Int))
        return [c, n, self.pos, g['variables'], g['functions'], g['lookuptables'], g['extras'], g['parent']] + ([] if not f else [f == 'root'])
    def globals_hook(self, run, mod, nm):
        if nm == 'BUILTIN_FUNCTIONS' and mod.short in ('uxpath', 'uxpath.functions'): return self.table
    def execute(self, run, fn, args): run.task.entering = False; run.inline(fn, args, {}); return args[0]
    def check(self, run, args, c):
        n = args[1]; got = run.concretize(c.content.get('item', UNDEF)); isnode = run.task.case.startswith('node')
        if isnode: want = R(run.loc(n)) if 'no root' in run.task.case else R(ROOTOF(run, run.loc(n)))
        run.oblige('item', run.loc(got) == V_.l(want) if isnode else run.proved_same(got, n))
        run.oblige('position', c.content.get('pos', UNDEF) is self.pos or run.proved_same(c.content.get('pos', UNDEF), self.pos))
        for k, g in self.given.items():
            v = c.content.get(k, UNDEF); yes = run.entails(g.t)
            if k == 'parent' and not yes: continue
            run.oblige(k, v is g if yes else v is self.table if k == 'functions' else isinstance(v, DObj) and v.content == {})
        run.oblige('no other fields', set(c.content) == set(CTXF) | {'item', 'pos'})
add(Context('uxpath.context.__init__'), 'C16', 'C17')
class Query(XE):
    """the results, in turn, of the expression for the node, or, for the top of a tree, for its root node; with the variables and functions given"""
    kind = 'gen'; cases = tuple('%s, %s' % (e, v) for e in ('text', 'expression') for v in ('given', 'none')) + ('neither',)
    calls = {'uxpath.parse': Parse('uxpath.parse', cls=Logged)}; assumes = (PURE, KNOWN_ROOT, PARSED)
    def setup(self, run):
        e, _, v = run.task.case.partition(', '); run.computed = []; self.table = Opaque('BUILTIN_FUNCTIONS')
        n = node_arg(run, 'node'); self.l = run.loc(n); run.hget('_xml_parent', self.l); run.fact(DP(self.l) >= 0)
        self.s = run.fresh('xpath', Str); self.e = Logged(run)
        x = S(self.s) if e == 'text' else self.e if e == 'expression' else 1
        self.v, self.f = (Opaque('variables', z3.BoolVal(True)), Opaque('functions', z3.BoolVal(True))) if v == 'given' else (None, None)
        return [n, x, self.v, self.f]
    globals_hook = Context.globals_hook
    def check_raise(self, run, args, exc): run.oblige('no exception (%s)' % exc.name, run.task.case == 'neither' and not run.computed)
    def check(self, run, args, r):
        if run.task.case == 'neither': run.oblige('an exception', False); return
        run.oblige('one computation', len(run.computed) == 1)
        if len(run.computed) != 1: return
        e, c, f = run.computed[0]
        run.oblige('of the expression', e.i == (PARSE(self.s) if run.task.case.startswith('text') else self.e.i))
        run.oblige('yields its results', run.seq_t(r) == z3.Const('results', VSeq))
        self.ctxcheck(run, f)
    def ctxcheck(self, run, f):
        top = z3.Select(P0, self.l)
        run.oblige('context item', run.loc(run.concretize(f['item'])) == z3.If(V_.is_none(top), ROOTOF(run, self.l), self.l))
        run.oblige('no position', f['pos'] is None)
        run.oblige('functions', f['functions'] is (self.f or self.table))
        run.oblige('variables', f['variables'] is self.v if self.v else isinstance(f['variables'], DObj) and f['variables'].content == {})
add(Query('tree.node.xml_xpath'), 'C16', 'C17')
TREEOF, UTF8 = z3.Function('tree_of', Str, Loc), z3.Function('utf8', Int, Str); FREE.update({'tree_of', 'utf8'})
class Bytes(Abs):
    def __init__(self, i): self.i = i
    def truth(self, run): raise Unsupported('truth of bytes')
    def isinstance(self, run, cls): return isinstance(cls, Ext) and cls.name == 'bytes'
    def attr(self, run, n):
        if n == 'decode': return Decode(self)
        raise Unsupported('bytes.' + n)
class Decode(Abs):
    def __init__(self, b): self.b = b
    def call(self, run, args, kw):
        if [run.norm(a) for a in args] not in ([], ['utf-8']) or kw: raise Unsupported('decode')
        return S(UTF8(self.b.i))
class Builder(Abs):
    def attr(self, run, n):
        if n == 'parse': return self
        raise Unsupported('treebuilder.' + n)
    def call(self, run, args, kw):
        if len(args) != 1 or kw: raise Unsupported('parse')
        l = TREEOF(run.str_t(args[0])); run.fact(z3.And(KIND(l) == ELEMENT, BORN(l) == -1, HT(l) >= 0, V_.is_none(run.hget('_xml_parent', l)), DP(l) >= 0)); return S(R(l))
class QQuery(Query):
    'as for xml_xpath, with the tree that parsing gives for text, or for bytes in UTF-8'
    cases = tuple('%s, %s, %s' % (e, v, x) for e in ('text', 'expression') for v in ('given', 'none') for x in ('node', 'str', 'bytes'))
    assumes = (PURE, KNOWN_ROOT, PARSED, 'parsing of documents: contracts of C05', 'not given an empty text node')
    def setup(self, run):
        e, v, x = run.task.case.split(', '); run.task.case, c = e + ', ' + v, run.task.case
        try: a = Query.setup(self, run)
        finally: run.task.case = c
        if x == 'node': run.fact(z3.Or(KIND(self.l) != TEXT, z3.Length(SVAL(self.l)) > 0)); return a
        if x == 'str': s = run.fresh('document', Str); a[0] = S(s)
        else: i = run.fresh('document', Int); s = UTF8(i); a[0] = Bytes(i)
        self.l = TREEOF(s); return a
    def class_hook(self, run, cls, args, kw):
        if cls.qual == 'tree.treebuilder' and not args and not kw: return Builder()
add(QQuery('uxpath.qquery'), 'C16', 'C17')
