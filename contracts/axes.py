"""Contracts of amara3.uxml.uxpath.xast: node tests, axes, steps (C15), root node, context."""
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from .treeutil import split_at_child, after, before, BEFORE, AFTER

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
ALLK = [ELEMENT, TEXT, ROOT, ATTR]
C0, P0, N0, A0 = z3.Const('H0_xml_children', HArr), z3.Const('H0__xml_parent', PArr), z3.Const('H0_xml_name', SArr), z3.Const('H0_xml_attributes', DArr)
RN = z3.Function('root_node_of', Loc, Loc)               # the root node above a top node; made when first asked for
TOPF = Rec('TOPF', [Loc], Loc, lambda run, l: z3.If(Val.is_none(z3.Select(P0, l)), l, TOPF(run, Val.l(z3.Select(P0, l)))))
ANODE = z3.Function('attribute_node', Loc, Str, Str, Loc)     # owner, name, value
KNOWN_ROOT = 'root nodes are made on demand and kept in the top node; the specification has them exist all the time'
def node_facts(run, l):
    run.fact(run.kind_in(l, ALLK)); run.fact(BORN(l) == -1)
def tree_facts2(run, f, loc, t):
    tree_facts(run, f, loc, t)
    if f == '_xml_root_node' and run._is_initial(f):
        run.axiom(('rn', tid(t)), z3.Implies(Val.is_ref(t), z3.And(Val.l(t) == RN(loc), KIND(RN(loc)) == ROOT, z3.Select(C0, RN(loc)) == unit(R(loc)), Val.is_none(z3.Select(P0, RN(loc)))))); run.keep.append(t)
def ROOTOF(run, l):
    'the root node of the tree that l is in'
    top = TOPF(run, l)
    r = z3.If(KIND(l) == ROOT, l, RN(top))
    run.axiom(('rootof', tid(l)), z3.And(KIND(RN(top)) == ROOT, z3.Select(C0, RN(top)) == unit(R(top)), Val.is_none(z3.Select(P0, RN(top))), BORN(RN(top)) == -1, z3.Implies(z3.And(KIND(l) != ROOT), KIND(top) != ROOT))); run.keep.append(l)
    return r
class XC(Contract):
    on_hget = staticmethod(tree_facts2)
    def check_frame(self, run):
        for f, t in sorted(run.heap.items()):
            if f == '_xml_root_node': continue
            t0 = z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f]))
            if not t.eq(t0): run.oblige('unchanged: ' + f, t == t0, 'frame')
        for o, c0 in getattr(run, 'inputs', ()): run.oblige('arguments unchanged', run.same(o.content, c0) is not None and run.proved_same(o.content, c0), 'frame')
def cls_of(run, q):
    m, c = q.rsplit('.', 1); return run.prog.lookup(run.prog.module('amara3.uxml.' + m), c)
def obj(run, q, **f):
    o = MObj(run, cls_of(run, q), f); o.partial = True
    run.inputs = getattr(run, 'inputs', []) + [(o, dict(f))]
    return o
# ---------------------------------------------------------------------- evaluation context
class Opaque(Abs):
    'variables, functions and the like: handed on'
    def __init__(self, name, t=None): self.name, self.t = name, t
    def truth(self, run): return True if self.t is None else run.branch(self.t)
    def same(self, run, o): return True if o is self else None
def make_ctx(run, item, pos=None):
    c = MObj(run, cls_of(run, 'uxpath.context'), {}); c.partial = True
    c.content = {'item': item, 'pos': pos}
    for f in ('variables', 'extras', 'lookuptables'): c.content[f] = Opaque(f, run.fresh(f + '_given', Bool))
    for f in ('functions', 'parent'): c.content[f] = Opaque(f)
    run.inputs = getattr(run, 'inputs', []) + [(c, dict(c.content))]
    run.ctx0 = c
    return c
class Copy(XC):
    'a new context, other in item and position if given, else the same'
    cases = ('item', 'item/pos')
    def setup(self, run):
        ctx = make_ctx(run, S(run.fresh('item0', Val)), S(run.fresh('pos0', Val)))
        v = run.fresh('item', Val); run.fact(z3.Not(Val.is_none(v)))
        return [ctx, S(v)] + ([S(run.fresh('pos', Int))] if 'pos' in run.task.case else [])
    def apply(self, run, f, args, kw):
        ctx, item, pos, *rest = self.normargs(run, f, args, kw)
        if any(r is not None for r in rest) or not isinstance(ctx, MObj) or ctx.cls is None or ctx.cls.qual != 'uxpath.context': raise Unsupported('context.copy of this kind')
        run.task.used.add(self.name)
        c = MObj(run, ctx.cls, dict(ctx.content)); c.partial = True
        if isinstance(item, S) and item.t.sort() == Val:
            if run.branch(Val.is_none(item.t)): item = None
        if item is not None: c.content['item'] = item
        pos = run.norm(pos)
        if isinstance(pos, S) and pos.t.sort() == Val: pos = run.concretize(pos)
        if pos is not None: c.content['pos'] = pos
        return c
    def check(self, run, args, r):
        ctx = args[0]
        run.oblige('a new context', isinstance(r, MObj) and r is not ctx and r.cls is ctx.cls)
        run.oblige('item', run.proved_same(r.content.get('item', UNDEF), args[1]))
        run.oblige('position', run.proved_same(r.content.get('pos', UNDEF), args[2] if len(args) > 2 else ctx.content['pos']))
        for f in ('variables', 'extras', 'lookuptables', 'functions', 'parent'):
            v, w = r.content.get(f, UNDEF), ctx.content[f]
            run.oblige(f, v is w or (w.t is not None and run.entails(z3.Not(w.t)) and isinstance(v, DObj) and v.content == {}))
add(Copy('uxpath.context.copy'), 'C15', 'C16', 'C17', 'C18')
# ---------------------------------------------------------------------- root node
class RootGet(XC):
    pure = False; assumes = (KNOWN_ROOT,)
    def setup(self, run):
        n = node_arg(run, 'item'); self.l = run.loc(n); run.hget('_xml_parent', self.l); run.fact(DP(self.l) >= 0)
        return [n]
    def requires(self, run, n): return [('a node', run.kind_in(run.loc(n), ALLK))]
    def spec(self, run, n): return S(R(ROOTOF(run, run.loc(n))))
    def wfacts(self, run, n):
        top = TOPF(run, run.loc(n)); l0 = run.loc(n)
        def ref(w):
            if w.sort() == Loc: w = R(w)
            if w.sort() != Val: return z3.BoolVal(True)
            l = Val.l(w)
            return z3.And(Val.is_ref(w), run.kind_in(l, ALLK), BORN(l) == -1, DP(l) >= 0, z3.Or(l == l0, KIND(l) == ELEMENT))
        def opt(w):
            if w.sort() != Val: return z3.BoolVal(True)
            l = Val.l(w)
            return z3.Or(Val.is_none(w), z3.And(Val.is_ref(w), KIND(l) == ELEMENT, BORN(l) == -1, DP(l) >= 0))
        def same(w):
            if w.sort() == Loc: w = R(w)
            if w.sort() != Val: return z3.BoolVal(True)
            return z3.Implies(Val.is_ref(w), TOPF(run, Val.l(w)) == top)
        return [('a node', ref), ('an element or None', opt), ('in the same tree', same)]
    def wfacts2(self, run, n):
        def par(a, b):
            if a.sort() not in (Loc, Val) or b.sort() != Val: return None
            if a.sort() == Val: a = Val.l(a)
            return z3.Select(P0, a) == b
        return [('parent', par)]
    def variants(self, run, n):
        def v(w):
            if w.sort() == Loc: return DP(w) + 1
            if w.sort() == Val: return z3.If(Val.is_ref(w), DP(Val.l(w)) + 1, 0)
        return [('depth', v)]
    def check(self, run, args, r):
        l = self.l; top = TOPF(run, l)
        r = run.concretize(r); x = run.loc(r)
        cache0 = z3.Select(z3.Const('H0__xml_root_node', PArr), top)
        run.hget('_xml_root_node', top) if run._is_initial('_xml_root_node') else None
        if not run.news:
            run.oblige('the root node itself, or that of the tree', z3.Or(z3.And(KIND(l) == ROOT, x == l), z3.And(KIND(l) != ROOT, cache0 == R(x))))
            for f, t in sorted(run.heap.items()):
                if f != '_xml_root_node' or True: run.oblige('unchanged: ' + f, t == z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f])), 'frame')
            return
        run.oblige('makes one node', len(run.news) == 1)
        run.oblige('only if there is none yet', z3.And(Val.is_none(cache0), KIND(l) != ROOT, x == run.news[0]))
        run.oblige('a root node above the top', z3.And(KIND(x) == ROOT, z3.Select(run.harr('xml_children'), x) == unit(R(top)), Val.is_none(z3.Select(run.harr('_xml_parent'), x))))
        for f, t in sorted(run.heap.items()):
            t0 = z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f])); want = z3.Store(t0, x, z3.Select(t, x))
            if f == '_xml_root_node': want = z3.Store(want, top, R(x))
            run.oblige('changed only as stated: ' + f, t == want, 'frame')
add(RootGet('uxpath.xast.root_node.get'), 'C15', 'C16', 'C17')
class RootVal(Contract):
    def setup(self, run):
        n = node_arg(run, 'root', [ROOT]); l = run.loc(n); t = run.hget('xml_children', l)
        x = run.fresh('top', Val); run.split(t, [unit(x)]); run.fact(Val.is_ref(x))
        return [n]
    def spec(self, run, n): return run.mk(run.task.theory.VALof(run, run.loc(n)))
add(RootVal('uxpath.xast.root_node.xml_value'), 'C07', 'C18')
class AttrInit(Contract):
    'an attribute node has the name, the value, the element as parent and no children'
    checkonly = True; pure = False
    def setup(self, run):
        self.x = run.new_loc(ATTR, 'attr'); p = node_arg(run, 'owner', [ELEMENT]); return [S(self.x), S(run.fresh('name', Str)), S(run.fresh('value', Str)), p]
    def check(self, run, args, r):
        x = self.x
        run.oblige('its fields', z3.And(z3.Select(run.harr('xml_name'), x) == run.str_t(args[1]), z3.Select(run.harr('xml_value'), x) == run.str_t(args[2]), z3.Select(run.harr('_xml_parent'), x) == R(run.loc(args[3])), z3.Select(run.harr('xml_children'), x) == EMPTY_V))
        for f, t in sorted(run.heap.items()):
            t0 = z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f])); run.oblige('changed only as stated: ' + f, t == z3.Store(t0, x, z3.Select(t, x)), 'frame')
add(AttrInit('uxpath.xast.attribute_node.__init__'), 'C15')
# ---------------------------------------------------------------------- node tests
def PASS(run, test, l):
    'does the node pass the test?'
    q = test.cls.qual; n = test.content['name']
    if q == 'uxpath.xast.name_test':
        t = run.str_t(n)
        return z3.And(KIND(l) == ELEMENT, z3.Or(t == strc('*'), z3.Select(run.harr('xml_name'), l) == t))
    if n == 'node': return run.kind_in(l, ALLK)
    if n == 'text': return KIND(l) == TEXT
    raise Unsupported('node test %s' % n)
def testkey(test): return (test.cls.qual, 'n' if isinstance(test.content['name'], S) else test.content['name'])
def TESTED(run, test, t):
    'the nodes of the sequence that pass the test'
    th = run.task.theory; d = th.__dict__.setdefault('_tested', {}); k = testkey(test)
    if k not in d: d[k] = Hom('TESTED_' + '_'.join(k), [SArr, Str], VSeq, lambda r, ps, x: z3.If(PASS(r, test, Val.l(x)), unit(x), EMPTY_V))
    return d[k].app(run, (run.harr('xml_name'), run.str_t(test.content['name'])), t)
class NodeTest(XC):
    kind = 'gen'; cases = ('name', 'node', 'text')
    def __init__(self, name, cases): Contract.__init__(self, name); self.cases = cases
    def setup(self, run):
        test = obj(run, self.name.rsplit('.', 1)[0], name=S(run.fresh('name', Str)) if run.task.case == 'name' else run.task.case)
        n = node_arg(run, 'item'); return [test, make_ctx(run, n, S(run.fresh('pos', Val)))]
    def spec(self, run, test, ctx):
        l = run.loc(ctx.content['item'])
        return z3.If(PASS(run, test, l), unit(R(l)), EMPTY_V)
    def requires(self, run, test, ctx): return [('the context item is a node', z3.And(run.kind_in(run.loc(run.concretize(ctx.content['item'])), ALLK)))]
    def result(self, run, args):
        test, ctx = args
        ctx.content['item'] = run.concretize(ctx.content['item'])
        return It(run, TESTED(run, test, unit(R(run.loc(ctx.content['item'])))))
add(NodeTest('uxpath.xast.name_test.compute', ('name',)), 'C15')
add(NodeTest('uxpath.xast.node_type_test.compute', ('node', 'text')), 'C15')
# ---------------------------------------------------------------------- helpers
class Subtree(XC):
    kind = 'gen'
    measure = staticmethod(lambda run, n: HT(run.loc(n)))
    def setup(self, run): return [node_arg(run, 'item')]
    def requires(self, run, n): return [('a node', run.kind_in(run.loc(n), ALLK))]
    def spec(self, run, n):
        t = run.task.theory.PRE_(run, run.harr('xml_children'), run.loc(n))
        if run.task.contract is not self: run.set_prov(t, lambda x: [Val.is_ref(x), run.kind_in(Val.l(x), ALLK), BORN(Val.l(x)) == -1])
        return t
    def homs(self, run, n): return [('PRE', lambda P: run.task.theory.PRE.app(run, (run.harr('xml_children'),), P))]
add(Subtree('uxpath.xast.subtree'), 'C15')
class PrecSib(XC):
    cases = ('child', 'attribute')
    def setup(self, run):
        n = node_arg(run, 'item', [ELEMENT, TEXT] if run.task.case == 'child' else [ATTR])
        par = run.hget('_xml_parent', run.loc(n)); p = Val.l(par); run.fact(Val.is_ref(par)); run.fact(KIND(p) == ELEMENT)
        if run.task.case == 'child': split_at_child(run, p, run.loc(n))
        return [n]
    def requires(self, run, n):
        par = run.hget('_xml_parent', run.loc(n))
        return [('the node has a parent', z3.And(Val.is_ref(par), KIND(Val.l(par)) == ELEMENT))]
    def spec(self, run, n):
        l = run.loc(n)
        if run.branch(KIND(l) == ATTR): return LObj(run, EMPTY_V)
        return LObj(run, run.task.theory.REV.app(run, (), before(run, Val.l(z3.Select(run.harr('_xml_parent'), l)), l)))
    def check(self, run, args, r): run.oblige('returns', run.as_seq(r) == run.as_seq(self.spec(run, *args)))
    def facts(self, run, n):
        me = R(run.loc(n)); th = run.task.theory
        return [('not yet', lambda P: z3.Not(th.MEMBER.app(run, (me,), P)))]
add(PrecSib('uxpath.xast.preceding_siblings'), 'C15')
# ---------------------------------------------------------------------- axes
def par_(l): return z3.Select(P0, l)
def BADN(run, t):
    'is there anything in the sequence that is not an element or text of the tree?'
    th = run.task.theory
    if not hasattr(th, 'BADN'): th.BADN = Hom('BADN', [], Bool, lambda r, ps, x: z3.Not(z3.And(Val.is_ref(x), r.kind_in(Val.l(x), [ELEMENT, TEXT]), BORN(Val.l(x)) == -1)))
    return th.BADN.app(run, (), t)
def BADK(run, t):
    'is there anything in the sequence that is not a node?'
    th = run.task.theory
    if not hasattr(th, 'BADK'): th.BADK = Hom('BADK', [], Bool, lambda r, ps, x: z3.Not(z3.And(Val.is_ref(x), r.kind_in(Val.l(x), ALLK), BORN(Val.l(x)) == -1)))
    return th.BADK.app(run, (), t)
def fuse_preorder(M, H, one):
    'M goes over a sequence item by item; H and one: the same over the nodes below, and a node and those below it, with M inside. M of the nodes in document order is H: lemma.preorder'
    def fuse(run, ps, p):
        n = p.decl().name()
        if getattr(run, 'nofuse', False) or n not in ('PRE', 'PRE_') or not p.arg(0).eq(C0): return None
        run.task.used.add('lemma.preorder')
        return H.app(run, ps, run.known(p.arg(1))) if n == 'PRE' else one(run, *ps, p.arg(1))
    M.fuse = fuse; M.pre = (H, one)
class PreorderLemma(Lemma):
    'going over the nodes in document order one by one is the same as going down the tree and doing so on the way; by induction over the height of the tree and over the children'
    cases = tuple('test/' + t for t in ('name', 'node', 'text')) + tuple('each/' + t for t in ('any', 'name', 'node', 'text'))
    on_hget = None
    def hom(self, run, kind, t):
        from . import expr
        if t != 'any': test = Step_.mkstep(None, run, 'child', t).content['node_test']
        if kind == 'test':
            ax = Axes(run, test); TESTED(run, test, EMPTY_V); return run.task.theory._tested[testkey(test)], ax.p
        r = expr.OtherExpr(run) if t == 'any' else Step_.mkstep(None, run, 'child', t); a = expr.Absolute('')
        return a.each(run, r), (r.i, run.fresh('pos', Val), expr.E0) if t == 'any' else Axes(run, test).p
    def steps(self, run):
        M, ps = self.hom(run, *run.task.case.split('/')); H, one = M.pre; th = run.task.theory; run.nofuse = True
        k = run.choose(3)
        if k == 0: run.oblige('no nodes', M.app(run, ps, th.PRE.app(run, (C0,), EMPTY_V)) == H.app(run, ps, EMPTY_V), 'lemma')
        elif k == 1:
            l, s = run.fresh('l', Loc), run.fresh('s', VSeq)
            run.fact(M.uf(ps, th.PRE_.f(C0, l)) == one.f(*ps, l)); run.fact(M.uf(ps, th.PRE.uf((C0,), s)) == H.uf(ps, s)); run.unf = 9
            t = cat(unit(R(l)), s); run.oblige('one more subtree', M.app(run, ps, th.PRE.app(run, (C0,), t)) == H.app(run, ps, t), 'lemma')
        else:
            l = run.fresh('l', Loc); s = z3.Select(C0, l)
            run.fact(M.uf(ps, th.PRE.uf((C0,), s)) == H.uf(ps, s)); run.unf = 9
            run.oblige('a node and what is below it', M.app(run, ps, th.PRE_.unfold(run, C0, l)) == one.unfold(run, *ps, l), 'lemma')
add(PreorderLemma('lemma.preorder'), 'C15', 'C16', 'C17')
class Axes:
    """The nodes on each axis that pass the test, in the order of the axis. T is the test as a filter on sequences; functions over the tree
    are given with the filter inside, which is the same because it goes over the parts of a sequence one by one."""
    def __init__(self, run, test):
        self.test = test; th = run.task.theory; k = '_'.join(testkey(test)); self.p = (run.harr('xml_name'), run.str_t(test.content['name']))
        d = th.__dict__.setdefault('_axes', {})
        if k not in d:
            ps = [SArr, Str]; T = lambda r, t: TESTED(r, test, t)
            f = d[k] = {}
            f['PRE'] = Hom('TPRE_' + k, ps, VSeq, lambda r, p, x: f['PRE_'](r, *p, Val.l(x)))
            f['PRE_'] = Rec('TPRE1_' + k, ps + [Loc], VSeq, lambda r, a, b, l: cat(T(r, unit(R(l))), f['PRE'].app(r, (a, b), z3.Select(C0, l))))
            f['PREV'] = Hom('TPREV_' + k, ps, VSeq, lambda r, p, x: T(r, th.REV.app(r, (), th.PRE_(r, C0, Val.l(x)))))
            f['ANCS'] = Rec('TANCS_' + k, ps + [Val], VSeq, lambda r, a, b, v: z3.If(Val.is_ref(v), cat(T(r, unit(v)), f['ANCS'](r, a, b, par_(Val.l(v)))), EMPTY_V))
            f['FOLL'] = Rec('TFOLL_' + k, ps + [Loc], VSeq, lambda r, a, b, l: z3.If(Val.is_none(par_(l)), EMPTY_V,
                cat(z3.If(KIND(l) == ATTR, f['PRE'].app(r, (a, b), z3.Select(C0, Val.l(par_(l)))), f['PRE'].app(r, (a, b), AFTER(C0, Val.l(par_(l)), l))), f['FOLL'](r, a, b, Val.l(par_(l))))))
            f['PREC'] = Rec('TPREC_' + k, ps + [Loc], VSeq, lambda r, a, b, l: z3.If(Val.is_none(par_(l)), EMPTY_V,
                cat(z3.If(KIND(l) == ATTR, EMPTY_V, f['PREV'].app(r, (a, b), th.REV.app(r, (), BEFORE(C0, Val.l(par_(l)), l)))), f['PREC'](r, a, b, Val.l(par_(l))))))
            def attr(r, p, x):
                l, dd, nm = p; q, n = test.cls.qual, test.content['name']
                hit = z3.Or(nm == strc('*'), nm == Val.s(x)) if q.endswith('name_test') else z3.BoolVal(n == 'node')
                return z3.If(hit, unit(R(ANODE(l, Val.s(x), GET(dd, Val.s(x))))), EMPTY_V)
            f['ATTR'] = Hom('TATTR_' + k, [Loc, Dict, Str], VSeq, attr)
            T(run, EMPTY_V); fuse_preorder(th._tested[testkey(test)], f['PRE'], f['PRE_'])
        self.f = d[k]
    def T(self, run, t): return TESTED(run, self.test, t)
    def H(self, n, run, t): return self.f[n].app(run, self.p, t)
    def R(self, n, run, x): return self.f[n](run, *self.p, x)
    def spec(self, run, axis, l):
        par = par_(l); rev = lambda t: run.task.theory.REV.app(run, (), t)
        kids = lambda: run.known(run.children(l))
        def root(): return EMPTY_V if run.branch(KIND(l) == ROOT) else self.T(run, unit(R(ROOTOF(run, l))))
        def sib(f): return EMPTY_V if run.branch(z3.Or(Val.is_none(par), KIND(l) == ATTR)) else f(Val.l(par))
        if axis == 'self': return self.T(run, unit(R(l)))
        if axis == 'child': return self.T(run, kids())
        if axis == 'descendant': return self.H('PRE', run, kids())
        if axis == 'descendant-or-self': return cat(self.T(run, unit(R(l))), self.H('PRE', run, kids()))
        if axis == 'parent': return self.T(run, unit(par)) if run.branch(Val.is_ref(par)) else root()
        if axis == 'ancestor': return cat(self.R('ANCS', run, par), root())
        if axis == 'ancestor-or-self': return cat(self.T(run, unit(R(l))), self.R('ANCS', run, par), root())
        if axis == 'following-sibling': return sib(lambda p: self.T(run, after(run, p, l)))
        if axis == 'preceding-sibling': return sib(lambda p: self.T(run, rev(before(run, p, l))))
        if axis == 'following': return self.R('FOLL', run, l)
        if axis == 'preceding': return self.R('PREC', run, l)
        if axis == 'attribute':
            if not run.branch(KIND(l) == ELEMENT) or self.test.content['name'] == 'text': return EMPTY_V
            d = run.hget('xml_attributes', l)
            return self.f['ATTR'].app(run, (l, d, self.p[1]), run.known(run.keys(d)))
AXES = ('self', 'child', 'parent', 'ancestor', 'ancestor-or-self', 'descendant', 'descendant-or-self', 'following-sibling', 'preceding-sibling', 'following', 'preceding', 'attribute')
def step_facts(run, f, loc, t):
    tree_facts2(run, f, loc, t)
    if f == 'xml_children' and run._is_initial(f):
        run.axiom(('badn', tid(t)), lambda: z3.And(z3.Not(BADN(run, t)), z3.Not(BADK(run, t)))); run.keep.append(t)
class Step_(XC):
    kind = 'gen'; cases = tuple('%s/%s' % (a, t) for a in AXES for t in ('name', 'node', 'text')); on_hget = staticmethod(step_facts)
    assumes = (KNOWN_ROOT, 'attribute nodes are identified by owner, name and value')
    def mkstep(self, run, axis, test):
        t = obj(run, 'uxpath.xast.name_test', name=S(run.fresh('name', Str))) if test == 'name' else obj(run, 'uxpath.xast.node_type_test', name=test)
        return obj(run, 'uxpath.xast.step', axis=axis, node_test=t)
    def setup(self, run):
        axis, test = run.task.case.split('/')
        s = self.mkstep(run, axis, test); n = node_arg(run, 'item'); l = run.loc(n)
        run.hget('_xml_parent', l); run.fact(DP(l) >= 0)
        return [s, make_ctx(run, n, S(run.fresh('pos', Val)))]
    def requires(self, run, s, ctx): return [('the context item is a node', run.kind_in(run.loc(run.concretize(ctx.content['item'])), ALLK))]
    def ax(self, run, s):
        if not hasattr(run, '_ax'): run._ax = {}
        t = s.content['node_test']
        return run._ax.setdefault(id(t), Axes(run, t))
    def spec(self, run, s, ctx):
        item = run.concretize(ctx.content['item'])
        return self.ax(run, s).spec(run, s.content['axis'], run.loc(item))
    def homs(self, run, s, ctx):
        a = self.ax(run, s); l = run.loc(ctx.content['item']); axis = s.content['axis']
        out = [('T', lambda P: a.T(run, P))]
        if axis in ('preceding',): out.append(('PREV', lambda P: a.H('PREV', run, P)))
        if axis.startswith('desc') or axis == 'following': out.append(('PRE', lambda P: a.H('PRE', run, P)))
        if axis == 'attribute': d = z3.Select(A0, l); out = [('ATTR', lambda P: a.f['ATTR'].app(run, (l, d, a.p[1]), P))]
        return out
    def conts(self, run, s, ctx):
        a = self.ax(run, s); axis = s.content['axis']
        def onseq(n): return lambda w: a.H(n, run, run.known(w)) if w.sort() == VSeq else None
        def onnode(n): return lambda w: a.R(n, run, Val.l(w) if w.sort() == Val else w) if w.sort() in (Val, Loc) else None
        if axis.startswith('desc'): return [('PRE', onseq('PRE')), ('PRE, last first', lambda w: a.H('PRE', run, run.known(run.task.theory.REV.app(run, (), run.known(w)))) if w.sort() == VSeq else None)]
        if axis.startswith('anc'): return [('ANCS', lambda w: a.R('ANCS', run, w) if w.sort() == Val else None)]
        if axis == 'following': return [('PRE', onseq('PRE')), ('FOLL', onnode('FOLL'))]
        if axis == 'preceding': return [('PREC', onnode('PREC'))]
        return []
    def wfacts(self, run, s, ctx):
        def ref(w):
            if w.sort() == Loc: w = R(w)
            if w.sort() != Val: return None
            l = Val.l(w); return z3.And(Val.is_ref(w), run.kind_in(l, ALLK), BORN(l) == -1, DP(l) >= 0)
        def opt(w):
            if w.sort() != Val: return None
            l = Val.l(w); return z3.Or(Val.is_none(w), z3.And(Val.is_ref(w), KIND(l) == ELEMENT, BORN(l) == -1, DP(l) >= 0))
        return [('a node', ref), ('an element or None', opt), ('nodes', lambda w: z3.Not(BADN(run, run.known(w))) if w.sort() == VSeq else None),
            ('nodes of any kind', lambda w: z3.Not(BADK(run, run.known(w))) if w.sort() == VSeq else None)]
    def variants(self, run, s, ctx):
        th = run.task.theory
        def v(w):
            if w.sort() == Loc: return DP(w) + 1
            if w.sort() == Val: return z3.If(Val.is_ref(w), DP(Val.l(w)) + 1, 0)
            if w.sort() == VSeq: return th.SIZE.app(run, (C0,), run.known(w))
        return [('size', v)]
    def class_hook(self, run, cls, args, kw):
        if cls.qual == 'uxpath.xast.attribute_node':
            if len(args) != 3 or kw: raise Unsupported('attribute_node()')
            return S(R(ANODE(run.loc(run.concretize(args[2])), run.str_t(args[0]), run.str_t(args[1]))))
add(Step_('uxpath.xast.step.compute'), 'C15', 'C16', 'C17')
class Abbrev(XC):
    kind = 'gen'; cases = ('.', '..'); on_hget = staticmethod(step_facts); assumes = (KNOWN_ROOT,)
    def setup(self, run):
        a = obj(run, 'uxpath.xast.abbreviated_step', abbr=run.task.case); n = node_arg(run, 'item'); run.hget('_xml_parent', run.loc(n))
        return [a, make_ctx(run, n, S(run.fresh('pos', Val)))]
    def spec(self, run, a, ctx):
        l = run.loc(run.concretize(ctx.content['item'])); par = par_(l)
        if a.content['abbr'] == '.': return unit(R(l))
        if run.branch(Val.is_ref(par)): return unit(par)
        return EMPTY_V if run.branch(KIND(l) == ROOT) else unit(R(ROOTOF(run, l)))
add(Abbrev('uxpath.xast.abbreviated_step.compute'), 'C15', 'C16', 'C17')
