'''Contracts of amara3.uxml.tree: encoding (C06, C13), editing (C08), the tree builder (C05)'''
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from pyvc.task import Step
from .treeutil import split_at_child, BEFORE, AFTER, H0

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
NARR = SArr
# ---------------------------------------------------------------------- encoding
QA = z3.Function('quoteattr', Str, Str)       # amara3.uxml.tree.quoteattr; what it is made of: see contract of quoteattr
def spec_theory(th):
    'the serialization of a node as functions of the fields: children, names, attributes'
    if hasattr(th, 'ENCS'): return th
    th.ATTRS = Hom('ATTRS', [Dict], Str, lambda run, ps, x: cat(strc(' '), Val.s(x), strc('='), QA(GET(ps[0], Val.s(x)))))
    def enc(run, h, n, a, l):
        return z3.If(KIND(l) == ELEMENT, cat(strc('<'), z3.Select(n, l), th.ATTRS.app(run, (z3.Select(a, l),), run.keys(z3.Select(a, l))), strc('>'),
            th.ENCS.app(run, (h, n, a), z3.Select(h, l)), strc('</'), z3.Select(n, l), strc('>')), charmap(ESCAPES).app(run, (), SVAL(l)))
    th.ENCN = Rec('ENCN', [HArr, NARR, DArr, Loc], Str, enc)
    th.ENCS = Hom('ENCS', [HArr, NARR, DArr], Str, lambda run, ps, x: th.ENCN(run, *ps, Val.l(x)))
    return th
def ENCP(run): return (run.harr('xml_children'), run.harr('xml_name'), run.harr('xml_attributes'))
def ENC(run, l): return spec_theory(run.task.theory).ENCN(run, *ENCP(run), l)
def enchoms(run, e, *a):
    th = spec_theory(run.task.theory)
    at = run.hget('xml_attributes', run.loc(e))
    return [('ENCS', lambda P: th.ENCS.app(run, ENCP(run), P)), ('ATTRS', lambda P: th.ATTRS.app(run, (at,), P))]
QTABLE = dict(ESCAPES, **{'\n': '&#xA;', '\r': '&#xD;', '\t': '&#x9;'})
class Quote(Contract):
    """the characters of the value in order, between quotation marks, or apostrophes if it has quotation marks and no apostrophe; markup characters, tabs, newlines and, if they are the ones
    outside, quotation marks as references, all of them named or hexadecimal"""
    quoting = True; assumes = ('xml.sax.saxutils.quoteattr does what its documentation says (quoted, in pyvc/theory.py)',)
    def setup(self, run): return [S(run.fresh('val', Str))]
    def spec(self, run, v):
        if run.task.contract is not self: return run.mk(QA(run.str_t(v)))
        q, f = quoted(run, run.str_t(v), QTABLE); return run.mk(cat(strc(q), f.app(run, (), run.str_t(v)), strc(q)))
add(Quote('tree.quoteattr'), 'C06', 'C13')
class Encode(Contract):
    homs = staticmethod(enchoms)
    def setup(self, run): return [node_arg(run, 'elem', [ELEMENT]), None, S(run.fresh('depth', Int))]
    measure = staticmethod(lambda run, e, *a: HT(run.loc(e)))
    def requires(self, run, e, indent, depth): return [('no indentation', z3.BoolVal(run.norm(indent) is None))]
    def spec(self, run, e, indent, depth): return run.mk(ENC(run, run.loc(e)))
add(Encode('tree.element.xml_encode'), 'C06', 'C13', 'C14')
# ---------------------------------------------------------------------- editing
class Edit(Contract):
    pure = False
    checkonly = True
    def children_at(self, run): return z3.Const('H0_xml_children', HArr)
    def parent_at(self, run): return z3.Const('H0__xml_parent', PArr)
    def frame(self, run, **changed):
        for f in sorted(set(FIELD)):
            if f not in run.heap: continue
            if f == '_xml_root_node': continue        # a cache of the query engine, not part of the tree
            t0 = z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f]))
            want = changed.get(f, t0)
            for l in getattr(self, 'fresh', ()):       # a new node's own fields are free except where stated
                if f not in changed: want = z3.Store(want, l, z3.Select(run.heap[f], l))
            run.oblige('changed only as stated: ' + f, run.heap[f] == want, 'frame')
    def links(self, run, e, child, want):
        'class invariant: members of x.xml_children have x as parent; kept for the element and for any other one'
        h0, p0, p1 = self.children_at(run), self.parent_at(run), run.harr('_xml_parent')
        th = run.task.theory; t0 = z3.Select(h0, e)
        o, y = run.fresh('other', Loc), run.fresh('y', Val)
        mem = lambda t: th.MEMBER.app(run, (y,), t)
        if z3.is_app(want) and len(parts_of(want)) == 3:
            k = [p for p in parts_of(want) if not is_unit(p)]
            run.fact(z3.Implies(t0 == cat(*k), th.MEMBER.uf((y,), t0) == z3.Or(*[mem(p) for p in k])))
        for x, t, pre in ((e, want, True), (o, z3.Select(h0, o), o != e)):
            inv0 = z3.Implies(mem(z3.Select(h0, x)), z3.Select(p0, Val.l(y)) == R(x))
            apart = z3.Implies(mem(z3.Select(h0, x)), z3.And(*[y != R(c) for c in {tid(c): c for c in (child,) + tuple(getattr(self, 'fresh', ()))}.values()]))     # a node that is put in, or new, is not a child anywhere
            run.oblige('children have their element as parent', z3.Implies(z3.And(pre, Val.is_ref(y), inv0, apart, mem(t)), z3.Select(p1, Val.l(y)) == R(x)), 'invariant')
class Insert(Edit):
    'xml_insert, xml_append: the node given, or a new text node, ends up at the index; its parent is the element; nothing else changes'
    def __init__(self, name, append): Contract.__init__(self, name); self.append = append; self.cases = ('node', 'str') if append else ('node/index', 'str/index', 'node/end', 'str/end')
    def setup(self, run):
        e = node_arg(run, 'elem', [ELEMENT])
        run.children(run.loc(e))
        if run.task.case.startswith('node'):
            c = node_arg(run, 'child', [ELEMENT]) if False else node_arg(run, 'child', [ELEMENT, TEXT])
            run.fact(z3.Not(run.loc(c) == run.loc(e)))
        else: c = S(run.fresh('characters', Str))
        a = [e, c]
        if run.task.case.endswith('/index'):
            i = run.fresh('index', Int); run.fact(i != -1); a.append(S(i))
        elif run.task.case.endswith('/end'): a.append(-1)
        return a
    def check(self, run, args, result):
        e, c = run.loc(args[0]), args[1]
        h0 = self.children_at(run); p0 = self.parent_at(run); t0 = z3.Select(h0, e)
        run.oblige('returns None', result is None)
        if run.task.case.startswith('node') : x = run.loc(c)
        if run.task.case.startswith('node') and not run.entails(KIND(x) == TEXT): new = False
        elif run.task.case.startswith('node'): new = len(run.news) > 0
        else: new = True
        if new:
            run.oblige('makes one text node', len(run.news) == 1)
            x = run.news[0]
            run.oblige('the new node is a text node with the characters', z3.And(KIND(x) == TEXT, SVAL(x) == run.str_t(c)))
            self.fresh = (x,)
        else:
            run.oblige('makes no node', not run.news); self.fresh = ()
        if len(args) == 3 and not isinstance(args[2], int):
            i = args[2].t; L = z3.Length(t0)
            k = z3.simplify(z3.If(i < 0, z3.If(i + L < 0, z3.IntVal(0), i + L), z3.If(i > L, L, i)))
            want = run.task.theory.insert_at(run, t0, k, R(x))
        else: want = cat(t0, unit(R(x)))
        self.frame(run, xml_children=z3.Store(h0, e, want) if not new else z3.Store(z3.Store(h0, x, z3.Select(run.harr('xml_children'), x)), e, want), _xml_parent=z3.Store(p0, x, R(e)))
        self.links(run, e, x, want)
add(Insert('tree.element.xml_append', True), 'C08')
add(Insert('tree.element.xml_insert', False), 'C08')
class Remove(Edit):
    cases = ('child', 'element that is not a child')
    def setup(self, run):
        e = node_arg(run, 'elem', [ELEMENT]); c = node_arg(run, 'child', [ELEMENT, TEXT] if run.task.case == 'child' else [ELEMENT])
        t = run.children(run.loc(e))
        if run.task.case == 'child': split_at_child(run, run.loc(e), run.loc(c))
        else: run.fact(z3.Not(run.task.theory.MEMBER.app(run, (R(run.loc(c)),), t)))
        return [e, c]
    def facts(self, run, e, c):
        me = R(run.loc(c)); th = run.task.theory
        return [('not yet', lambda P: z3.Not(th.MEMBER.app(run, (me,), P)))]
    def check(self, run, args, result):
        if run.task.case != 'child': return run.oblige('raises ValueError', False)
        e, c = run.loc(args[0]), run.loc(args[1])
        h0, p0 = self.children_at(run), self.parent_at(run)
        run.oblige('returns None', result is None)
        want = cat(BEFORE(h0, e, c), AFTER(h0, e, c))
        self.frame(run, xml_children=z3.Store(h0, e, want), _xml_parent=z3.Store(p0, c, Val.none))
        th = run.task.theory; y = run.fresh('y', Val); mem = lambda t: th.MEMBER.app(run, (y,), t)
        run.oblige('the other children keep their parent', z3.Implies(z3.And(mem(want), Val.is_ref(y), z3.Implies(mem(z3.Select(h0, e)), z3.Select(p0, Val.l(y)) == R(e))), z3.Select(run.harr('_xml_parent'), Val.l(y)) == R(e)), 'invariant')
    def check_raise(self, run, args, exc):
        if run.task.case == 'child': return run.oblige('no exception (%s)' % exc.name, False)
        run.oblige('raises ValueError', exc.name == 'ValueError')
        self.frame(run)
add(Remove('tree.element.xml_remove'), 'C08')

# ---------------------------------------------------------------------- tree builder
def event(name): return EnumM('parser.event', name)
class EvTup(Abs):
    'an event as the handler gets it: a tuple whose last part may be missing or whatever'
    def __init__(self, items): self.items = items
class Builder(Step):
    """treebuilder._handler and the like: between two events the state is (root, open element).
    start: a new empty element with the name and attributes becomes last child of the open element, if there is one, and is open;
    characters: a new text node becomes last child of the open element; end: the parent of the open element is open."""
    pure = False
    checkonly = True
    cases = tuple('%s/%s' % (e, s) for e in ('start_element', 'characters', 'end_element') for s in ('open', 'outside'))
    evcls = 'parser.event'; base = (event,)
    def setup(self, run):
        cls = run.prog.func(self.name).cls
        b = MObj(run, cls, {}); self.b = b; b.partial = True
        return [b]
    def init(self, run, fr, args): pass
    def state(self, run, fr, args):
        how = run.task.case.split('/')[1]
        b = args[0]
        self.root = Val.none
        if how == 'open':
            self.p = run.loc(node_arg(run, 'open', [ELEMENT])); self.root = R(run.loc(node_arg(run, 'root', [ELEMENT])))
            b.content = {'_root': S(self.root), '_parent': S(self.p)}
        else:
            self.p = None
            if run.choose(2): self.root = R(run.loc(node_arg(run, 'root', [ELEMENT])))       # after the document element
            b.content = {'_root': run.mk(self.root), '_parent': None}
    def receive(self, run, fr, args):
        k = run.task.case.split('/')[0]
        ev = EnumM(self.evcls, k)
        self.name_, self.chars = S(run.fresh('name', Str)), S(run.fresh('chars', Str))
        self.attrs = S(run.fresh('attrs', Dict)); d = DObj(run, self.attrs.t)
        anc = LObj(run, run.fresh('ancestors', VSeq))
        if k == 'start_element': return Tup([ev, self.name_, d, anc])
        if k == 'characters': return Tup([ev, self.chars])
        return Tup([ev, self.name_, anc])
    def after(self, run, fr, args):
        b = args[0]; k = run.task.case.split('/')[0]; p = self.p
        h0, p0, a0, n0 = (z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f])) for f in ('xml_children', '_xml_parent', 'xml_attributes', 'xml_name'))
        root, cur = run.toval(b.content['_root']), run.toval(b.content['_parent'])
        val = (lambda l: Val.none if l is None else R(l))
        self.fresh = tuple(run.news)
        if k == 'end_element':
            run.oblige('makes no node', not run.news)
            run.oblige('the parent is open', cur == (z3.Select(p0, p) if p is not None else Val.none))
            run.oblige('root stays', root == self.root)
            self.frame(run); return
        run.oblige('makes one node', len(run.news) == 1)
        x = run.news[0]
        if k == 'characters':
            run.oblige('the new node is text with these characters', z3.And(KIND(x) == TEXT, SVAL(x) == run.str_t(self.chars)))
            run.oblige('open element stays', cur == val(p)); run.oblige('root stays', root == self.root)
        else:
            run.oblige('the new node is an element', KIND(x) == ELEMENT)
            run.oblige('it has the name', z3.Select(run.harr('xml_name'), x) == run.str_t(self.name_))
            run.oblige('it has the attributes', z3.Or(z3.Select(run.harr('xml_attributes'), x) == self.attrs.t, z3.And(z3.Select(run.harr('xml_attributes'), x) == EMPTYD, z3.Length(KEYS(self.attrs.t)) == 0)))
            run.oblige('it is empty', z3.Select(run.harr('xml_children'), x) == EMPTY_V)
            run.oblige('it is open', cur == R(x))
            run.oblige('the first element is the root', root == z3.If(Val.is_none(self.root), R(x), self.root))
        run.oblige('its parent is the open element', z3.Select(run.harr('_xml_parent'), x) == val(p))
        hx = z3.Store(h0, x, z3.Select(run.harr('xml_children'), x))
        self.frame(run, xml_children=z3.Store(hx, p, cat(z3.Select(h0, p), unit(R(x)))) if p is not None else hx, _xml_parent=z3.Store(p0, x, val(p)))
    frame = Edit.frame
add(Builder('tree.treebuilder._handler'), 'C05', 'C12')
