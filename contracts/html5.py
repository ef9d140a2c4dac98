"""Contracts of amara3.uxml.html5 (C19): what html5lib asks of the nodes of a tree (html5lib.treebuilders.base.Node), stated on the tree.

An element made by the builder is an html5.element (kind ELEMENT here), a comment an html5.comment (COMMENT), the document type a plain element (PLAIN).
Text is tree.text. A comment put into a tree leaves an empty text node in its place. html5lib itself is not verified."""
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from .tree import Edit
from .treeutil import split_at_child, BEFORE, AFTER

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
COMMENT, PLAIN = 6, 7
H5 = ('xml_html5lib_name', 'xml_html5lib_namespace')       # attributes an element may or may not have
for f in H5: FIELD[f] = Val
ABSENT = Val.opq(z3.IntVal(-77))
LASTPIECE = z3.Function('last_piece', Str, Str)              # s.split(':')[-1]: what follows the last colon
class Pieces(Abs):
    def __init__(self, t): self.t = t
    def item(self, run, i):
        c = const_str(self.t)
        if i == -1: return S(LASTPIECE(self.t)) if c is None else c.split(':')[-1]
        raise Unsupported('piece')
    shape = (2, 0)
    def unpack(self, run, n, star):
        if (n, star) == self.shape: return [Abs()] * (n - 1) + [self.item(run, -1)]
        raise Unsupported('pieces')
class Triple(Pieces):
    shape = (3, None)
    def item(self, run, i):
        if i in (-1, 2): return Pieces.item(self, run, -1)
        raise Unsupported('piece')
class H5Theory(Theory):
    def strmethod(self, run, o, name, a, kw):
        if name == 'split' and a == [':'] and not kw: return Pieces(run.str_t(o))
        if name == 'rsplit' and a in ([':'], [':', 1]) and not kw: return Pieces(run.str_t(o))
        if name == 'rpartition' and a == [':']: return Triple(run.str_t(o))
        return Theory.strmethod(self, run, o, name, a, kw)
def member(prog, cls, name, which):
    'the function behind a property: getter or setter'
    m = prog.module('amara3.uxml.html5'); ci = m and prog.lookup(m, cls)
    if not isinstance(ci, ClassInfo): return None
    c, st = ci.find(prog, name)
    if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'property':
        args = list(st.value.args); kw = {k.arg: k.value for k in st.value.keywords}
        e = kw.get(('fget', 'fset')[which]) or (args[which] if len(args) > which else None)
        if isinstance(e, ast.Name): name = e.id; c, st = ci.find(prog, name)
    if isinstance(st, ast.FunctionDef): return Fn(st, c.module, cls=c, qual=c.qual + '.' + name)
class Adapter(Edit):
    kind_classes = {ELEMENT: 'html5.element', TEXT: 'tree.text', COMMENT: 'html5.comment', PLAIN: 'tree.element'}; strkinds = [TEXT, COMMENT]
    @property
    def theory(self): return H5Theory()
    def hasattr_hook(self, run, l, name):
        if name not in H5: return NotImplemented
        return run.mk(z3.simplify(run.hget(name, l) != ABSENT))
    def setattr_hook(self, run, l, name, v): return name in ('_flags', 'type', 'data', 'attributes', 'name')     # of no importance to the tree
    def field_hook(self, run, l, name, ks):
        if name in H5:
            t = run.hget(name, l)
            if run.branch(t == ABSENT): raise PyRaise(Exc('AttributeError'))
            return run.mk(t)
        return NotImplemented
    newfields = [(f, ABSENT) for f in H5]
    def typed(self, run, l):
        for f in H5:
            t = z3.Select(run.harr(f), l); run.fact(z3.Or(Val.is_none(t), Val.is_strv(t), t == ABSENT))
    def el(self, run, name='self'):
        e = node_arg(run, name, [ELEMENT]); self.typed(run, run.loc(e)); return e
    def same_lists(self, run, *a): pass
class Child(Adapter):
    'one node, old or new, becomes a child at a place, and its parent is the element; nothing else changes'
    def want(self, run, args): pass
    def put(self, run, e, x, want, new, chars=None):
        h0, p0 = self.children_at(run), self.parent_at(run)
        self.fresh = tuple(run.news)
        run.oblige('makes a node' if new else 'makes no node', bool(run.news) == new)
        if new: run.oblige('the new node is a text node with the characters', z3.And(KIND(x) == TEXT, SVAL(x) == chars))
        for l in run.news:           # the last one is put in; others are on the way to it
            h0 = z3.Store(h0, l, z3.Select(run.harr('xml_children'), l)); p0 = z3.Store(p0, l, z3.Select(run.harr('_xml_parent'), l))
        self.frame(run, xml_children=z3.Store(h0, e, want), _xml_parent=z3.Store(p0, x, R(e)))
        self.links(run, e, x, want)
class Append(Child):
    'element: becomes the last child; comment or text: a text node with the characters shown (none for a comment) becomes the last child'
    cases = ('element', 'comment', 'text')
    def setup(self, run):
        e = self.el(run); run.children(run.loc(e)); k = run.task.case
        c = node_arg(run, 'child', [{'element': ELEMENT, 'comment': COMMENT, 'text': TEXT}[k]])
        run.fact(run.loc(c) != run.loc(e))
        return [e, c]
    def check(self, run, args, result):
        e, c = run.loc(args[0]), run.loc(args[1]); t0 = z3.Select(self.children_at(run), e); k = run.task.case
        new = k != 'element' and not (k == 'text' and not run.news)
        x = (run.news or [c])[-1] if new else c
        if k == 'comment' and not run.news: raise Unsupported('a comment in the tree')
        self.put(run, e, x, cat(t0, unit(R(x))), new, EMPTY_S if k == 'comment' else SVAL(c))
add(Append('html5.element.appendChild'), 'C19')
class InsText(Child):
    'a new text node with the characters becomes the last child, or stands right before the child given'
    cases = ('end', 'None', 'before')
    def setup(self, run):
        e = self.el(run); a = [e, S(run.fresh('data', Str))]; run.children(run.loc(e))
        if run.task.case == 'None': a.append(None)
        if run.task.case == 'before':
            r = self.el(run, 'ref'); split_at_child(run, run.loc(e), run.loc(r)); a.append(r)
        return a
    def check(self, run, args, result):
        e = run.loc(args[0]); h0 = self.children_at(run); t0 = z3.Select(h0, e)
        if not run.news: return run.oblige('makes a node', False)
        x = run.news[-1]
        if len(args) == 3 and args[2] is not None: r = run.loc(args[2]); want = cat(BEFORE(h0, e, r), unit(R(x)), unit(R(r)), AFTER(h0, e, r))
        else: want = cat(t0, unit(R(x)))
        self.put(run, e, x, want, True, run.str_t(args[1]))
    def facts(self, run, e, d, r=None):
        if r is None: return []
        th = run.task.theory; me = R(run.loc(r))
        return [('not yet', lambda P: z3.Not(th.MEMBER.app(run, (me,), P)))]
add(InsText('html5.element.insertText'), 'C19')
class InsBefore(Child):
    'the element stands right before the child given; if that is no child, ValueError, and nothing changes'
    cases = ('child', 'no child')
    def setup(self, run):
        e, c, r = self.el(run), self.el(run, 'node'), self.el(run, 'ref')
        run.fact(run.loc(c) != run.loc(e)); t = run.children(run.loc(e))
        if run.task.case == 'child': split_at_child(run, run.loc(e), run.loc(r))
        else: run.fact(z3.Not(run.task.theory.MEMBER.app(run, (R(run.loc(r)),), t)))
        return [e, c, r]
    def facts(self, run, e, c, r):
        th = run.task.theory; me = R(run.loc(r))
        return [('not yet', lambda P: z3.Not(th.MEMBER.app(run, (me,), P)))]
    def check(self, run, args, result):
        if run.task.case != 'child': return run.oblige('raises ValueError', False)
        e, c, r = (run.loc(x) for x in args); h0 = self.children_at(run)
        self.put(run, e, c, cat(BEFORE(h0, e, r), unit(R(c)), unit(R(r)), AFTER(h0, e, r)), False)
    def check_raise(self, run, args, exc):
        if run.task.case == 'child': return run.oblige('no exception (%s)' % exc.name, False)
        run.oblige('raises ValueError', exc.name == 'ValueError'); self.fresh = (); self.frame(run)
add(InsBefore('html5.element.insertBefore'), 'C19')
class RemChild(Adapter):
    'the child given, and no other, is no longer among the children; the others keep their parent'
    def setup(self, run):
        e, c = self.el(run), self.el(run, 'child'); split_at_child(run, run.loc(e), run.loc(c)); return [e, c]
    def facts(self, run, e, c):
        th = run.task.theory; me = R(run.loc(c))
        return [('not yet', lambda P: z3.Not(th.MEMBER.app(run, (me,), P)))]
    def check(self, run, args, result):
        e, c = (run.loc(x) for x in args); h0, p0 = self.children_at(run), self.parent_at(run)
        self.fresh = (); run.oblige('makes no node', not run.news)
        self.frame(run, xml_children=z3.Store(h0, e, cat(BEFORE(h0, e, c), AFTER(h0, e, c))), _xml_parent=z3.Store(p0, c, z3.Select(run.harr('_xml_parent'), c)))
add(RemChild('html5.element.removeChild'), 'C19')
class HasContent(Adapter):
    'true exactly if there are children'
    pure = True
    def setup(self, run): e = self.el(run); run.children(run.loc(e)); return [e]
    def check(self, run, args, result):
        t = run.children(run.loc(args[0]))
        run.oblige('true exactly if there are children', z3.BoolVal(run.truth(result)) == (z3.Length(t) > 0))
add(HasContent('html5.element.hasContent'), 'C19')
class SetChildren(Adapter):
    'the children are those given, and their parent is the element; no other parent changes'
    cases = ('none', 'elements'); heap_used = ('xml_children', '_xml_parent')
    def func(self, prog): return member(prog, 'element', 'childNodes', 1)
    def setup(self, run):
        e = self.el(run); l = run.loc(e); run.children(l)
        self.y = run.fresh('y', Loc); run.fact(self.y != l)
        if run.task.case == 'none': self.t = EMPTY_V; return [e, LObj(run, [])]
        self.t = t = run.fresh('nodes', VSeq)
        run.set_prov(t, lambda x: [Val.is_ref(x), KIND(Val.l(x)) == ELEMENT, BORN(Val.l(x)) == -1, Val.l(x) != l])
        o = LObj(run, t); o.frozen = True
        return [e, o]
    def homs(self, run, e, o): return [('ITEMS', lambda P: P)]
    def heapinv(self, run, f, v0):
        e = run.loc(self.args_[0]) if hasattr(self, 'args_') else None
        th = run.task.theory; y = self.y; e = self.e
        if f == 'xml_children': return [('appended', lambda run, v0, A, P: [A == z3.Store(v0, e, cat(z3.Select(v0, e), P))])]
        if f == '_xml_parent': return [('parents', lambda run, v0, A, P: [z3.Select(A, y) == z3.If(th.MEMBER.app(run, (R(y),), P), R(e), z3.Select(v0, y))])]
        return []
    def execute(self, run, fn, args):
        self.e = run.loc(args[0])
        return run.call_fn(fn, list(args), {})
    def check(self, run, args, result):
        e, y = self.e, self.y; h0, p0, p1 = self.children_at(run), self.parent_at(run), run.harr('_xml_parent')
        th = run.task.theory; self.fresh = ()
        run.oblige('makes no node', not run.news)
        self.frame(run, xml_children=z3.Store(h0, e, self.t), _xml_parent=p1)
        run.oblige('parents', z3.Select(p1, y) == z3.If(th.MEMBER.app(run, (R(y),), run.known(self.t)), R(e), z3.Select(p0, y)))
add(SetChildren('html5.element.childNodes (set)'), 'C19')
class GetChildren(Adapter):
    'the list of the children itself'
    pure = True
    def func(self, prog): return member(prog, 'element', 'childNodes', 0)
    def setup(self, run): e = self.el(run); run.children(run.loc(e)); return [e]
    def check(self, run, args, result): run.oblige('the list of children', isinstance(result, HList) and result.loc.eq(run.loc(args[0])))
add(GetChildren('html5.element.childNodes (get)'), 'C19')
class GetAttributes(GetChildren):
    'the mapping of the attributes itself'
    def func(self, prog): return member(prog, 'element', 'attributes', 0)
    def check(self, run, args, result): run.oblige('the mapping of attributes', isinstance(result, HDict) and result.loc.eq(run.loc(args[0])))
add(GetAttributes('html5.element.attributes (get)'), 'C19')
# keys as html5lib gives them: strings, or triples of prefix, local name, namespace
ISTRIPLE = z3.Function('is_triple', Val, Bool); KEYSTR = z3.Function('key_string', Val, Str); KEYLOCAL = z3.Function('key_local', Val, Str); KEYVAL = z3.Function('key_value', Val, Str)
class Key(Abs):
    def __init__(self, x): self.x = x
    def isinstance(self, run, cls):
        if isinstance(cls, Ext) and cls.name in ('tuple', 'str'): return run.mk(ISTRIPLE(self.x) if cls.name == 'tuple' else z3.Not(ISTRIPLE(self.x)))
        raise Unsupported('isinstance of a key')
    def string(self, run):
        if run.branch(ISTRIPLE(self.x)): raise Unsupported('a triple as a string')
        return S(KEYSTR(self.x))
    def str_t(self, run): return self.string(run).t
    def item(self, run, i):
        if run.branch(z3.Not(ISTRIPLE(self.x))): raise Unsupported('character of a key')
        if i == 1: return S(KEYLOCAL(self.x))
        raise Unsupported('part of a key')
    def attr(self, run, name): return run.attr(self.string(run), name)
    def eq(self, run, o):
        o = run.norm(o)
        if isinstance(o, str): return run.mk(z3.And(z3.Not(ISTRIPLE(self.x)), KEYSTR(self.x) == strc(o)))
        raise Unsupported('== of a key')
class Given(Abs):
    'the attributes html5lib gives'
    def __init__(self, t): self.t = t
    def truth(self, run): return run.nonempty(self.t)
    def attr(self, run, name):
        if name == 'items': return GivenItems(self.t)
        raise Unsupported('mapping of html5lib: ' + name)
class GivenItems(Abs):
    def __init__(self, t): self.t = t
    def call(self, run, args, kw):
        from pyvc.builtins_ import Src2
        return Src2(self.t, lambda x, i: Tup([Key(x), S(KEYVAL(x))]))
ATTS = Fold('ATTS', [], Dict, lambda run, ps, acc, x: z3.If(ISTRIPLE(x), STORE(acc, LASTPIECE(KEYLOCAL(x)), KEYVAL(x)), z3.If(z3.Or(KEYSTR(x) == strc('xmlns'), z3.PrefixOf(strc('xmlns:'), KEYSTR(x))), acc, STORE(acc, KEYSTR(x), KEYVAL(x)))))
class SetAttributes(Adapter):
    'each attribute given is set under its local name, except namespace declarations (xmlns and xmlns:...) written on HTML elements'
    def func(self, prog): return member(prog, 'element', 'attributes', 1)
    def setup(self, run):
        e = self.el(run); self.e = run.loc(e); self.t = run.fresh('given', VSeq); return [e, Given(self.t)]
    def heapinv(self, run, f, v0):
        e = self.e
        if f == 'xml_attributes': return [('set', lambda run, v0, A, P: [A == z3.Store(v0, e, ATTS.app(run, (), z3.Select(v0, e), P))])]
        return []
    def folds(self, run, *a): return [('ATTS', lambda acc, P: ATTS.app(run, (), acc, P) if acc.sort() == Dict else None)]
    def check(self, run, args, result):
        a0 = z3.Const('H0_xml_attributes', DArr); self.fresh = ()
        run.oblige('makes no node', not run.news)
        self.frame(run, xml_attributes=z3.Store(a0, self.e, ATTS.app(run, (), z3.Select(a0, self.e), run.known(self.t))))
add(SetAttributes('html5.element.attributes (set)'), 'C19')
class Clone(Adapter):
    'a new element with the same name, attributes of its own with the same values, known to html5lib as the same, without children or parent'
    def setup(self, run): self.aliases = []; return [self.el(run)]
    def check(self, run, args, result):
        run.oblige('attributes and children of its own', not self.aliases)
        e = run.loc(args[0]); run.oblige('makes one node', len(run.news) == 1 and run.isloc(result))
        x = run.news[0]; run.oblige('the new element', run.loc(result) == x); run.oblige('an element', KIND(x) == ELEMENT)
        g = lambda f, l: z3.Select(run.harr(f), l)
        run.oblige('same name', g('xml_name', x) == g('xml_name', e))
        run.oblige('same attributes', z3.Or(g('xml_attributes', x) == g('xml_attributes', e), z3.And(g('xml_attributes', x) == EMPTYD, z3.Length(KEYS(g('xml_attributes', e))) == 0)))
        run.oblige('no children', g('xml_children', x) == EMPTY_V); run.oblige('no parent', g('_xml_parent', x) == Val.none)
        for f in H5: run.oblige('same ' + f, g(f, x) == g(f, e))
        self.fresh = (x,); self.frame(run)
add(Clone('html5.element.cloneNode'), 'C19')
class Names(Adapter):
    'what html5lib knows the element by: the name and namespace it gave'
    pure = True
    def setup(self, run):
        e = self.el(run)
        return [e]
    def func(self, prog): return member(prog, 'element', self.name.rsplit('.', 1)[1], 0)
    def check(self, run, args, result):
        e = run.loc(args[0]); n, ns = (z3.Select(run.harr(f), e) for f in H5); k = self.name.rsplit('.', 1)[1]
        n = z3.If(n == ABSENT, Val.strv(z3.Select(run.harr('xml_name'), e)), n); ns = z3.If(ns == ABSENT, Val.none, ns)
        if k == 'nameTuple':
            run.oblige('a pair', isinstance(result, Tup) and len(result.items) == 2)
            run.oblige('namespace and name', z3.And(run.toval(result.items[0]) == ns, run.toval(result.items[1]) == n))
        else: run.oblige('the ' + k, run.toval(result) == (n if k == 'name' else ns))
for k in ('name', 'namespace', 'nameTuple'): add(Names('html5.element.' + k), 'C19')
class MakeElement(Adapter):
    """the element class given to html5lib: a new element without attributes, children or parent whose name is the local part of the name given (or the
    stand-in for none), known to html5lib by the name and namespace it gave"""
    cases = ('elementClass', 'fragmentClass')
    def setup(self, run):
        self.m = MObj(run, run.prog.func(self.name).cls, {}); self.m.partial = True
        return [self.m]
    def ext_hook(self, run, name, args, kw):
        if name == 'html5lib.treebuilders.base.TreeBuilder.__init__':
            run.oblige('html5lib puts HTML elements into the XHTML namespace', len(args) == 2 and args[1] is True); return None
        return NotImplemented
    def execute(self, run, fn, args):
        run.task.entering = False
        run.inline(fn, list(args) + ([True] if run.choose(2) else []), {})
        F = self.m.content.get(run.task.case)
        if not isinstance(F, (Fn, BM)): raise Unsupported('not a function')
        name, ns = S(run.fresh('name', Val)), S(run.fresh('namespace', Val))
        for x in (name, ns): run.fact(z3.Or(Val.is_none(x.t), Val.is_strv(x.t)))
        self.n, self.ns = name.t, ns.t
        run.news.clear()
        return run.inline(F, [name, ns], {}) if isinstance(F, Fn) else run.call(F, [name, ns], {})
    def check(self, run, args, result):
        run.oblige('makes one node', len(run.news) == 1 and run.isloc(result))
        x = run.news[0]; run.oblige('the new element', run.loc(result) == x); run.oblige('an element', KIND(x) == ELEMENT)
        g = lambda f: z3.Select(run.harr(f), x)
        empty = z3.Or(Val.is_none(self.n), z3.Length(Val.s(self.n)) == 0)
        run.oblige('the local name', g('xml_name') == z3.If(empty, strc('UNNAMED_BY_HTML5LIB'), LASTPIECE(Val.s(self.n))))
        run.oblige('no attributes', g('xml_attributes') == EMPTYD); run.oblige('no children', g('xml_children') == EMPTY_V); run.oblige('no parent', g('_xml_parent') == Val.none)
        run.oblige('the name html5lib gave', g(H5[0]) == self.n); run.oblige('the namespace html5lib gave', g(H5[1]) == self.ns)
        self.fresh = (x,); self.frame(run)
add(MakeElement('html5.treebuilder.__init__'), 'C19')
class DocAppend(Adapter):
    'the node is kept as the last one of the document'
    def setup(self, run):
        self.m = MObj(run, run.prog.func(self.name).cls, {}); self.m.partial = True
        self.t = run.fresh('nodes', VSeq); self.l = LObj(run, self.t); self.m.content = {'root_nodes': self.l}
        return [self.m, node_arg(run, 'node', [ELEMENT, COMMENT, PLAIN])]
    def check(self, run, args, result):
        if self.m.content.get('root_nodes') is not self.l: raise Unsupported('state of the document')
        self.fresh = (); run.oblige('makes no node', not run.news)
        run.oblige('the last of the nodes', run.seq_t(self.l.content) == cat(self.t, unit(run.toval(args[1]))))
        self.frame(run)
add(DocAppend('html5.document.appendChild'), 'C19')
class Doctype(Adapter):
    'the document type becomes a plain element, which html5.parse does not take for the document element'
    def setup(self, run):
        self.m = MObj(run, run.prog.func(self.name).cls, {}); self.m.partial = True
        return [self.m] + [S(run.fresh(n, Str)) for n in ('name', 'public', 'system')]
    def check(self, run, args, result):
        run.oblige('makes one node', len(run.news) == 1 and run.isloc(result)); x = run.news[0]
        run.oblige('a plain element', z3.And(run.loc(result) == x, KIND(x) == PLAIN)); self.fresh = (x,); self.frame(run)
add(Doctype('html5.treebuilder.doctypeClass'), 'C19')
class H5Parser(Abs):
    def __init__(self, c, tree): self.c, self.tree = c, tree
    def attr(self, run, name):
        if name == 'parse': return H5Parse(self)
        raise Unsupported('HTMLParser.' + name)
class H5Parse(Abs):
    def __init__(self, p): self.p = p
    def call(self, run, args, kw):
        c = self.p.c
        if len(args) != 1 or kw: raise Unsupported('options of html5lib')
        run.oblige('html5lib gets the source', run.proved_same(args[0], S(c.src))); c.parsed += 1
        b = run.call(self.p.tree, [run.mk(run.fresh('namespaceHTMLElements', Bool))], {})
        run.oblige('with a new tree builder of this module', isinstance(b, MObj) and b.cls is not None and b.cls.qual == 'html5.treebuilder')
        d = MObj(run, run.prog.lookup(run.prog.module('amara3.uxml.html5'), 'document'), {}); d.partial = True
        d.content = {'root_nodes': LObj(run, c.roots)}
        return d
class ParseTheory(H5Theory):
    def __init__(self, c): H5Theory.__init__(self); self.c = c
    def on_split(self, run, St, P, x, R_): run.splits_ = getattr(run, 'splits_', []) + [(P, x, R_)]
class Parse(Adapter):
    @property
    def theory(self): return ParseTheory(self)
    'html5lib parses the source with a new builder; the first element of the document it gives is returned, or None'
    def setup(self, run):
        self.src = run.fresh('source', Str); self.parsed = 0
        self.roots = run.fresh('nodes', VSeq)
        run.set_prov(self.roots, lambda x: [Val.is_ref(x), run.kind_in(Val.l(x), [ELEMENT, COMMENT, PLAIN]), BORN(Val.l(x)) == -1])
        return [S(self.src)]
    def ext_hook(self, run, name, args, kw):
        if name == 'html5lib.HTMLParser':
            t = kw.get('tree', args[0] if args else None)
            if t is None or set(kw) - {'tree'} or len(args) > 1: raise Unsupported('options of html5lib')
            return H5Parser(self, t)
        if name == 'html5lib.treebuilders.base.TreeBuilder.__init__': return None
        return NotImplemented
    FIRST = Fold('FIRSTEL', [], Val, lambda run, ps, acc, x: z3.If(z3.And(Val.is_none(acc), KIND(Val.l(x)) == ELEMENT), x, acc))
    def facts(self, run, src): return [('no element yet', lambda P: Val.is_none(self.FIRST.app(run, (), Val.none, P)))]
    def folds(self, run, src): return [('FIRSTEL', lambda acc, P: self.FIRST.app(run, (), acc, P) if acc.sort() == Val else None)]
    def check(self, run, args, result):
        run.oblige('html5lib parses once', self.parsed == 1)
        r = run.toval(result); self.fresh = tuple(run.news)
        if getattr(run, 'splits_', None):
            P, x, Rst = run.splits_[-1]
            # what is found stays what is found
            run.fact(z3.Implies(z3.Not(Val.is_none(self.FIRST.app(run, (), Val.none, cat(P, unit(x))))), self.FIRST.app(run, (), Val.none, cat(P, unit(x), Rst)) == self.FIRST.app(run, (), Val.none, cat(P, unit(x)))))
        run.oblige('the first element of the document', r == self.FIRST.app(run, (), Val.none, run.known(self.roots)))
        self.frame(run)
add(Parse('html5.parse'), 'C19')
