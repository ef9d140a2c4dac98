'''Contracts of amara3.uxml.treeutil (C09) and string values (C07)'''
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *

def setup_elem(run): return [node_arg(run, 'elem', [ELEMENT])]
H0 = lambda run: run.harr('xml_children')

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c

add(Contract('treeutil.descendants', kind='gen', setup=setup_elem,
    spec=lambda run, e: run.task.theory.DESC.app(run, (H0(run),), run.known(run.children(run.loc(e)))),
    homs=lambda run, e: [('DESC', lambda P: run.task.theory.DESC.app(run, (H0(run),), P))],
    conts=lambda run, e: [('DESC', lambda w: run.task.theory.DESC.app(run, (H0(run),), run.known(w)) if w.sort() == VSeq else None), ('DESC, last first', lambda w: run.task.theory.DESC.app(run, (H0(run),), run.known(run.task.theory.REV.app(run, (), run.known(w)))) if w.sort() == VSeq else None)],
    requires=lambda run, e: [('elem is an element', KIND(run.loc(e)) == ELEMENT)],
    measure=lambda run, e: HT(run.loc(e))), 'C09', 'C10')

def filt(name, cond):
    'hom that keeps the elements for which cond(run, params, loc)'
    return lambda run, params: Hom(name, [p.sort() for p in params], VSeq, lambda r, ps, x: z3.If(z3.And(Val.is_ref(x), KIND(Val.l(x)) == ELEMENT, cond(r, ps, Val.l(x))), unit(x), EMPTY_V))
FILT = {}
def filt_app(run, name, cond, params, t):
    th = run.task.theory
    d = th.__dict__.setdefault('_filt', {})
    if name not in d: d[name] = filt(name, cond)(run, params)
    return d[name].app(run, tuple(params), t)

class Select(Contract):
    kind = 'gen'
    cases = ('element', 'sequence')
    def setup(self, run):
        if run.task.case == 'element': src = node_arg(run, 'source', [ELEMENT])
        else:
            t = run.fresh('source', VSeq)
            run.set_prov(t, lambda x: [Val.is_ref(x), z3.Or(KIND(Val.l(x)) == ELEMENT, KIND(Val.l(x)) == TEXT), BORN(Val.l(x)) == -1])
            src = It(run, t); src.init = t
        return [src] + self.extra(run)
    def extra(self, run): return []
    def base(self, run, src):
        if run.isloc(run.norm(src)): return run.known(run.children(run.loc(src)))
        if hasattr(src, 'init') and run.task.contract is self: return src.init
        if isinstance(src, Gen): 
            c = run.force(src); src.content = It(run, run.seq_t(c)); return run.seq_t(c)
        return run.known(run.as_seq(src))
    def spec(self, run, src, *ex): return self.F(run, self.base(run, src), *ex)
    def homs(self, run, src, *ex): return [('F', lambda P: self.F(run, P, *ex))]
class SelElements(Select):
    def F(self, run, P): return filt_app(run, 'SEL_E', lambda r, ps, l: True, [], P)
    inline_if = lambda self, run, *a: True
add(SelElements('treeutil.select_elements'), 'C09')
class SelName(Select):
    def extra(self, run): return [S(run.fresh('name', Str))]
    def F(self, run, P, name): return filt_app(run, 'SEL_N', lambda r, ps, l: z3.Select(ps[0], l) == ps[1], [run.harr('xml_name'), run.str_t(name)], P)
add(SelName('treeutil.select_name'), 'C09')
class SelValue(Select):
    def extra(self, run): return [S(run.fresh('val', Str))]
    def F(self, run, P, val): return filt_app(run, 'SEL_V', lambda r, ps, l: run.task.theory.VAL(r, ps[0], ps[1], l) == ps[2], [H0(run), run.harr('xml_value'), run.str_t(val)], P)
add(SelValue('treeutil.select_value'), 'C09')
MATCH = RMATCH
class PatObj(Abs):
    'a compiled regular expression: match(s) says whether it matches s at the start'
    def __init__(self, i): self.i = i
    def attr(self, run, name):
        if name == 'match': return PatMatch(self)
        raise Unsupported('pattern.' + name)
class PatMatch(Abs):
    def __init__(self, p): self.p = p
    def call(self, run, args, kw): return MatchRes(MATCH(self.p.i, run.str_t(args[0])))
class SelPat(Select):
    def extra(self, run): return [PatObj(run.fresh('pat', Int))]
    def F(self, run, P, pat): return filt_app(run, 'SEL_P', lambda r, ps, l: MATCH(ps[1], z3.Select(ps[0], l)), [run.harr('xml_name'), pat.i], P)
add(SelPat('treeutil.select_name_pattern'), 'C09')
class SelAttr(Select):
    cases = ('element/value', 'sequence/value', 'element/any', 'sequence/any')
    def setup(self, run):
        run.task.case, how = run.task.case.split('/') if '/' in run.task.case else (run.task.case, run.task.how)
        run.task.how = how
        return Select.setup(self, run)
    def extra(self, run): return [S(run.fresh('name', Str)), S(run.fresh('val', Str)) if run.task.how == 'value' else None]
    def F(self, run, P, name, val=None):
        D = run.harr('xml_attributes')
        if run.norm(val) is None: return filt_app(run, 'SEL_A', lambda r, ps, l: HAS(z3.Select(ps[0], l), ps[1]), [D, run.str_t(name)], P)
        return filt_app(run, 'SEL_AV', lambda r, ps, l: z3.And(HAS(z3.Select(ps[0], l), ps[1]), GET(z3.Select(ps[0], l), ps[1]) == ps[2]), [D, run.str_t(name), run.str_t(val)], P)
add(SelAttr('treeutil.select_attribute'), 'C09')

class FollSib(Contract):
    kind = 'gen'
    cases = ('child', 'attribute')
    def setup(self, run):
        e = node_arg(run, 'elem', [ELEMENT, TEXT] if run.task.case == 'child' else [ATTR])
        par = z3.Select(run.harr('_xml_parent'), run.loc(e)); p = Val.l(par)
        run.fact(Val.is_ref(par)); run.fact(KIND(p) == ELEMENT)
        if run.task.case == 'child': split_at_child(run, p, run.loc(e))
        return [e]
    def requires(self, run, e):
        return [('the node has a parent', Val.is_ref(z3.Select(run.harr('_xml_parent'), run.loc(e))))]
    def spec(self, run, e):
        if run.branch(KIND(run.loc(e)) == ATTR): return EMPTY_V
        p = Val.l(z3.Select(run.harr('_xml_parent'), run.loc(e)))
        return after(run, p, run.loc(e))
    def facts(self, run, e):
        th = run.task.theory; me = R(run.loc(e))
        return [('not yet', lambda P: z3.Not(th.MEMBER.app(run, (me,), P)))]
add(FollSib('treeutil.following_siblings'), 'C09', 'C15')

BEFORE = z3.Function('before', HArr, Loc, Loc, VSeq)
AFTER = z3.Function('after', HArr, Loc, Loc, VSeq)
def split_at_child(run, p, l):
    'children of p == before ++ [l] ++ after, where l occurs once'
    h = run.harr('xml_children')
    t = run.children(p); b, a = BEFORE(h, p, l), AFTER(h, p, l)
    me = R(l); th = run.task.theory
    if ('child', tid(p), tid(l)) in run.axdone: return
    run.axdone.add(('child', tid(p), tid(l))); run.keep += [p, l, b, a]
    run.fact(t == cat(b, unit(me), a))
    run.splits[tid(t)] = cat(b, unit(me), a); run.keep.append(t)
    for key, hom, params in list(run.homapps.get(tid(t), [])): run._split_eq(hom, params, t, cat(b, unit(me), a))
    pv = run.prov.get(tid(t))
    if pv:
        run.prov[tid(b)] = pv; run.prov[tid(a)] = pv
        for f in pv(me): run.fact(f)
    run.fact(z3.Not(th.MEMBER.app(run, (me,), b))); run.fact(z3.Not(th.MEMBER.app(run, (me,), a)))
def after(run, p, l):
    split_at_child(run, p, l)
    return AFTER(run.harr('xml_children'), p, l)
def before(run, p, l):
    split_at_child(run, p, l)
    return BEFORE(run.harr('xml_children'), p, l)

# ---------------------------------------------------------------------- string values
valhoms = lambda run, *a: [('VALS', lambda P: run.task.theory.VALS.app(run, (H0(run), run.harr('xml_value')), P))]
add(Contract('tree.element.xml_value', setup=setup_elem, spec=lambda run, e: run.mk(run.task.theory.VALof(run, run.loc(e))), homs=valhoms), 'C07', 'C09')
add(Contract('tree.text.xml_value', setup=lambda run: [node_arg(run, 't', [TEXT])], spec=lambda run, e: run.mk(run.task.theory.VALof(run, run.loc(e)))), 'C07')
add(Contract('tree.text.xml_children', setup=lambda run: [node_arg(run, 't', [TEXT])], spec=lambda run, e: EmptyList(), check=lambda run, args, r: run.oblige('returns no children', run.as_seq(r) == EMPTY_V)), 'C07', 'C09', 'C15')
class EmptyList: pass
class StrVal(Contract):
    cases = ('outermost', 'inner')
    def setup(self, run): return [node_arg(run, 'node'), run.task.case == 'outermost']
    measure = staticmethod(lambda run, n, o: HT(run.loc(n)))
    homs = staticmethod(valhoms)
    def spec(self, run, n, outermost):
        return run.mk(run.task.theory.VALof(run, run.loc(n)))
    def result(self, run, args):
        v = self.spec(run, *args)
        if run.truth(args[1]): return v
        L = run.fresh('acc', VSeq); run.fact(run.task.theory.JOIN.app(run, (), L) == run.str_t(v))
        return LObj(run, L)
    def check(self, run, args, r):
        v = run.str_t(self.spec(run, *args))
        if args[1]: run.oblige('returns', run.str_t(r) == v)
        else: run.oblige('returns the parts of', run.task.theory.JOIN.app(run, (), run.known(run.as_seq(r))) == v)
add(StrVal('tree.strval'), 'C07', 'C18')
