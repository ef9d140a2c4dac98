"""Contracts of amara3.uxml.writer (C13).

The writer's state that matters is what has been written to the file so far. Without indentation each call adds exactly its tag or text; with
indentation it may also add white space before and after. write() makes exactly the calls for the tree."""
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from .tree import ENC, ENCP, QA, spec_theory

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
class Fp(Abs, Mut):
    'a file open for writing; content: what has been written'
    def __init__(self, run, t): self.content = t; run.mut.append(self)
    def attr(self, run, n):
        if n == 'write': return FpWrite(self)
        raise Unsupported('file.' + n)
class FpWrite(Abs):
    def __init__(self, fp): self.fp = fp
    def call(self, run, args, kw):
        if len(args) != 1 or kw: raise PyRaise(Exc('TypeError'))
        if run.sortof(args[0]) not in ('str', 'loc') and not (isinstance(args[0], S) and args[0].t.sort() == Val): raise PyRaise(Exc('TypeError'))
        self.fp.content = cat(self.fp.content, run.str_t(args[0])); return S(run.fresh('written', Int))
def isspace_part(run, p):
    if is_unit(p): return z3.is_int_value(p.arg(0)) and chr(p.arg(0).as_long()).isspace()
    return run.entails(SPACE(p))
def strip_space(run, t):
    ps = parts_of(run.known(t))
    while ps and isspace_part(run, ps[0]): ps = ps[1:]
    while ps and isspace_part(run, ps[-1]): ps = ps[:-1]
    return cat(*ps) if ps else EMPTY_S
class WTheory(Theory):
    def repeat(self, run, s, n):
        t = Theory.repeat(self, run, s, n)
        run.axiom(('repeat', tid(t)), z3.Implies(SPACE(s), SPACE(t))); run.keep += [s, t]
        return t
class Writer(Contract):
    pure = False; checkonly = False; indent = False; cls = 'writer.raw'
    @property
    def theory(self): return WTheory()
    def writer(self, run):
        m, c = self.cls.rsplit('.', 1)
        w = MObj(run, run.prog.lookup(run.prog.module('amara3.uxml.' + m), c), {}); w.partial = True
        self.out = run.fresh('written_before', Str); self.fp = Fp(run, self.out)
        self.ind = None
        if run.task.case and 'indented' in run.task.case: self.ind = S(run.fresh('indent', Str)); run.fact(SPACE(self.ind.t)); run.fact(z3.Length(self.ind.t) > 0)
        w.content = {'_fp': self.fp, '_whandler': w, '_indent': self.ind, '_depth': S(run.fresh('depth', Int)), '_awaiting_indent': S(run.fresh('awaiting', Bool))}
        return w
    def is_raw(self, run, w):
        return isinstance(w, MObj) and w.cls is not None and w.cls.qual == 'writer.raw' and w.content.get('_whandler') is w and isinstance(w.content.get('_fp'), Fp)
    def inline_if(self, run, w, *a): return not (self.is_raw(run, w) and w.content.get('_indent') is None)
    def result(self, run, args):
        w = args[0]; fp = w.content['_fp']
        fp.content = cat(fp.content, self.adds(run, *args[1:]))
        self.forget(run, w)
        return None
    def forget(self, run, w):
        # what the writer remembers about indentation is its own business
        for f, v in w.content.items():
            if f in ('_fp', '_whandler', '_indent'): continue
            w.content[f] = S(run.fresh(f, Int)) if f == '_depth' else S(run.fresh(f, Bool)) if f == '_awaiting_indent' else UNDEF
    def check(self, run, args, result):
        w = args[0]
        run.oblige('the file, the handler and the indentation stay', w.content.get('_fp') is self.fp and w.content.get('_whandler') is w and run.same(w.content.get('_indent'), self.ind) in (True,), 'state')
        out = run.known(self.fp.content); ps = parts_of(out)
        want = self.adds(run, *args[1:])
        if self.ind is None: run.oblige('adds exactly this', out == cat(self.out, want)); return
        if not (ps and ps[0].eq(self.out)): raise Unsupported('what was written')
        run.oblige('adds this, with white space around it at most', strip_space(run, cat(*ps[1:]) if ps[1:] else EMPTY_S) == want)
def esc(run, v): return run.str_t(run.task.theory.sax(run, 'escape', v))
class Write(Writer):
    cases = ('text', 'text/indented') + tuple('string/' + c for c in ('element_name', 'attribute_name', 'attribute_text')) + tuple('token/' + c for c in ('start_open', 'start_close', 'end_open', 'end_close', 'empty_close', 'between_attr', 'pre_attr', 'attr_equals'))
    TOK = {'start_open': '<', 'start_close': '>', 'end_open': '</', 'end_close': '>', 'empty_close': '/>', 'pre_attr': ' ', 'between_attr': ' ', 'attr_equals': '='}
    def setup(self, run):
        w = self.writer(run); k, x = (run.task.case + '/').split('/')[:2]
        if k == 'text': return [w, EnumM('writer.context', 'text'), S(run.fresh('text', Str))]
        if k == 'string': return [w, EnumM('writer.context', x), S(run.fresh('text', Str))]
        return [w, EnumM('writer.context', 'end_element' if x.startswith('end') else 'start_element'), EnumM('writer.token', x)]
    def inline_if(self, run, w, ctx, text): return not (self.is_raw(run, w) and isinstance(ctx, EnumM) and (isinstance(text, EnumM) and text.name in self.TOK or run.sortof(text) in ('str', 'loc')))
    def adds(self, run, ctx, text):
        if ctx == EnumM('writer.context', 'text'): return esc(run, text)
        if isinstance(text, EnumM): return strc(self.TOK[text.name])
        return run.str_t(text)
    def forget(self, run, w): pass
    def check(self, run, args, result):
        self.ind_ = self.ind; self.ind = None
        c = dict(args[0].content); c['_indent'] = None if self.ind_ is None or c['_indent'] is self.ind_ else c['_indent']
        run.oblige('nothing else changes', set(c) == {'_fp', '_whandler', '_indent', '_depth', '_awaiting_indent'} and c['_fp'] is self.fp and c['_whandler'] is args[0] and c['_indent'] is None, 'state')
        run.oblige('adds exactly this', run.known(self.fp.content) == cat(self.out, self.adds(run, *args[1:])))
add(Write('writer.raw.write'), 'C13')
def attrs_of(run, at):
    th = spec_theory(run.task.theory)
    if run.norm(at) is None: return EMPTY_S
    d = run.dict_t(at); return th.ATTRS.app(run, (d,), run.known(run.keys(d)))
class StartTag(Writer):
    cases = tuple('%s%s%s' % (a, e, i) for a in ('attributes', 'none') for e in ('', '/empty') for i in ('', '/indented'))
    def setup(self, run):
        w = self.writer(run); a = [w, S(run.fresh('name', Str)), DObj(run, run.fresh('attributes', Dict)) if 'attributes' in run.task.case else None]
        if 'empty' in run.task.case: a.append(True)
        return a
    def adds(self, run, name, at=None, empty=False): return cat(strc('<'), run.str_t(name), attrs_of(run, at), strc('/>' if empty is True else '>'))
    def inline_if(self, run, w, name, at=None, empty=False): return Writer.inline_if(self, run, w) or not isinstance(empty, bool)
    def homs(self, run, w, name, at=None, *a):
        if run.norm(at) is None: return []
        th = spec_theory(run.task.theory); d = run.dict_t(at)
        return [('ATTRS', lambda P: th.ATTRS.app(run, (d,), P))]
add(StartTag('writer.raw.start_element'), 'C13')
class EndTag(Writer):
    cases = ('plain', 'indented')
    def setup(self, run): return [self.writer(run), S(run.fresh('name', Str))]
    def adds(self, run, name): return cat(strc('</'), run.str_t(name), strc('>'))
add(EndTag('writer.raw.end_element'), 'C13')
class TextCall(Writer):
    cases = ('plain', 'indented')
    def setup(self, run): return [self.writer(run), S(run.fresh('text', Str))]
    def adds(self, run, t): return esc(run, t)
add(TextCall('writer.raw.text'), 'C13')
class Init(Contract):
    'the file is the one given; without a handler the writer is its own'
    pure = False; checkonly = True; cases = ('indent', 'none')
    def setup(self, run):
        m = MObj(run, run.prog.func(self.name).cls, {}); self.fp = Fp(run, run.fresh('written_before', Str)); self.out = self.fp.content
        self.ind = S(run.fresh('indent', Str)) if run.task.case == 'indent' else None
        if self.ind: run.fact(z3.Length(self.ind.t) > 0)
        return [m, self.fp, None, self.ind]
    def check(self, run, args, result):
        c = args[0].content
        run.oblige('file and handler', c.get('_fp') is self.fp and c.get('_whandler') is args[0], 'state')
        run.oblige('indentation', run.proved_same(c.get('_indent', UNDEF), self.ind), 'state')
        run.oblige('nothing written', self.fp.content == self.out)
add(Init('writer.raw.__init__'), 'C13')
# ---------------------------------------------------------------------- a whole tree
CSTART, CEND, CTEXT = (z3.Function(n, Loc, Val) for n in ('call_start_element', 'call_end_element', 'call_text'))
def CALLS(run):
    'the calls for a tree, in order'
    th = run.task.theory
    if not hasattr(th, 'CALLS'):
        th.CALLN = Rec('CALLN', [HArr, Loc], VSeq, lambda r, h, l: z3.If(KIND(l) == ELEMENT, cat(unit(CSTART(l)), th.CALLS.app(r, (h,), z3.Select(h, l)), unit(CEND(l))), z3.If(KIND(l) == TEXT, unit(CTEXT(l)), EMPTY_V)))
        th.CALLS = Hom('CALLS', [HArr], VSeq, lambda r, ps, x: th.CALLN(r, ps[0], Val.l(x)))
    return th
class AnyWriter(Abs):
    'a writer of which nothing is known: the calls are recorded'
    def __init__(self, run, t): self.log = LObj(run, t)
    def attr(self, run, n):
        if n in ('start_element', 'end_element', 'text'): return AnyCall(self, n)
        raise Unsupported('writer.' + n)
class AnyCall(Abs):
    def __init__(self, w, n): self.w, self.n = w, n
    def call(self, run, args, kw):
        e = run.e0
        if self.n == 'text':
            x = run.concretize(run.norm(args[0])) if len(args) == 1 and not kw else None
            if not run.isloc(x): raise Unsupported('text()')
            run.append(self.w.log, S(CTEXT(run.loc(x)))); return None
        a = list(args)
        if self.n == 'start_element':
            at = kw.get('attribs', a[1] if len(a) > 1 else None)
            if set(kw) - {'attribs'} or len(a) > 2 or not isinstance(at, HDict): raise Unsupported('start_element()')
            run.oblige('start_element gets name and attributes of the element', z3.And(run.str_t(a[0]) == z3.Select(run.harr('xml_name'), at.loc), at.loc == e), 'precondition')
        else:
            if len(a) != 1 or kw: raise Unsupported('end_element()')
            run.oblige('end_element gets the name of the element', run.str_t(a[0]) == z3.Select(run.harr('xml_name'), e), 'precondition')
        run.append(self.w.log, S((CSTART if self.n == 'start_element' else CEND)(e))); return None
class WriteTree(Writer):
    cases = ('raw', 'any writer')
    measure = staticmethod(lambda run, e, w: HT(run.loc(e)))
    def setup(self, run):
        e = node_arg(run, 'elem', [ELEMENT]); run.e0 = run.loc(e)
        if run.task.case == 'raw': w = self.writer(run); return [e, w]
        self.before = run.fresh('calls_before', VSeq); self.w = AnyWriter(run, self.before)
        return [e, self.w]
    def inline_if(self, run, e, w): return not (isinstance(w, AnyWriter) or self.is_raw(run, w) and w.content.get('_indent') is None)
    def requires(self, run, e, w): return [('a node of a tree', z3.Or(KIND(run.loc(e)) == ELEMENT, KIND(run.loc(e)) == TEXT) if isinstance(w, AnyWriter) else KIND(run.loc(e)) == ELEMENT)]
    def result(self, run, args):
        e, w = args
        if isinstance(w, AnyWriter):
            run.extend(w.log, CALLS(run).CALLN(run, run.harr('xml_children'), run.loc(e))); return None
        w.content['_fp'].content = cat(w.content['_fp'].content, ENC(run, run.loc(e))); self.forget(run, w)
        return None
    def homs(self, run, e, w):
        if isinstance(w, AnyWriter): return [('CALLS', lambda P: CALLS(run).CALLS.app(run, (run.harr('xml_children'),), P))]
        th = spec_theory(run.task.theory)
        return [('ENCS', lambda P: th.ENCS.app(run, ENCP(run), P))]
    def check(self, run, args, result):
        e = run.loc(args[0])
        if run.task.case == 'any writer': run.oblige('makes the calls for the tree', run.seq_t(self.w.log.content) == cat(self.before, CALLS(run).CALLN(run, run.harr('xml_children'), e)))
        else: run.oblige('writes exactly what encoding the tree gives', run.known(self.fp.content) == cat(self.out, ENC(run, e)))
        self.check_frame(run)
add(WriteTree('writer.write'), 'C13')
# ---------------------------------------------------------------------- with namespaces
PFX = z3.Function('prefix_of', Str, Str)                  # the prefix the mapping asks for, by name or '@' + attribute name; empty: none
class Mapping(Abs):
    'the mapping given to the writer: name -> (namespace, prefix)'
    def attr(self, run, n):
        if n == 'get': return MapGet()
        raise Unsupported('mapping.' + n)
    def truth(self, run): return True
class MapGet(Abs):
    def call(self, run, args, kw):
        if len(args) != 2 or kw or not isinstance(args[1], Tup) or len(args[1].items) != 2: raise Unsupported('mapping.get()')
        k = run.str_t(args[0])
        has = z3.Function('in_mapping', Str, Bool)(k)
        if run.branch(has): return Tup([S(z3.Function('namespace_of', Str, Str)(k)), S(PFX(k))])
        run.fact(PFX(k) == EMPTY_S)                       # by definition of PFX
        return args[1]
def pref(key, text): return z3.If(z3.Length(PFX(key)) > 0, cat(PFX(key), strc(':'), text), text)
def ns_theory(th):
    if not hasattr(th, 'NATTRS'):
        th.NATTRS = Hom('NATTRS', [Dict], Str, lambda run, ps, x: cat(strc(' '), pref(cat(strc('@'), Val.s(x)), Val.s(x)), strc('='), QA(GET(ps[0], Val.s(x)))))
        th.DECLS = Hom('DECLS', [Dict], Str, lambda run, ps, x: cat(strc(' '), z3.If(z3.Length(Val.s(x)) > 0, cat(strc('xmlns:'), Val.s(x)), strc('xmlns')), strc('='), QA(GET(ps[0], Val.s(x)))))
    return th
class NsWriter(Contract):
    pure = False; checkonly = True
    @property
    def theory(self): return WTheory()
    def writer(self, run):
        cls = run.prog.lookup(run.prog.module('amara3.uxml.writer'), 'namespacer')
        w = MObj(run, cls, {}); w.partial = True; self.w = w
        self.out = run.fresh('written_before', Str); self.fp = Fp(run, self.out)
        self.first = True if 'first' in (run.task.case or '') else False
        self.prefixes = run.fresh('prefixes', Dict); self.pd = DObj(run, self.prefixes); self.pd.frozen = True; self.mapping = Mapping()
        w.content = {'_fp': self.fp, '_whandler': w, '_indent': None, '_depth': S(run.fresh('depth', Int)), '_awaiting_indent': S(run.fresh('awaiting', Bool)),
            '_mapping': self.mapping, '_prefixes': self.pd, '_first_element': self.first, '_ns_handled': S(run.fresh('handled', Bool))}
        return w
    def homs(self, run, w, *a):
        th = ns_theory(run.task.theory); out = [('DECLS', lambda P: th.DECLS.app(run, (self.prefixes,), P))]
        if getattr(self, 'at', None) is not None: out.append(('NATTRS', lambda P: th.NATTRS.app(run, (self.at,), P)))
        return out
    def check(self, run, args, result):
        c = args[0].content
        run.oblige('file, handler, mapping and prefixes stay', c.get('_fp') is self.fp and c.get('_whandler') is self.w and c.get('_indent', 0) is None and c.get('_mapping') is self.mapping and c.get('_prefixes') is self.pd, 'state')
        run.oblige('from the first start tag on there are no more declarations', run.proved_same(c.get('_first_element', UNDEF), False if self.name.endswith('start_element') else self.first), 'state')
        run.oblige('adds exactly this', run.known(self.fp.content) == cat(self.out, self.adds(run, *args[1:])))
class NsStart(NsWriter):
    cases = tuple(a + f for a in ('attributes', 'empty', 'none') for f in ('/first', '/later'))
    def setup(self, run):
        w = self.writer(run); self.at = None; a = None
        k = run.task.case.split('/')[0]
        if k != 'none':
            self.at = run.fresh('attributes', Dict); a = DObj(run, self.at); a.frozen = True
            t = run.keys(self.at)
            if k == 'empty': run.split(t, [])
            else: run.split(t, [unit(run.fresh('key', Val)), run.fresh('keys', VSeq)])
        return [w, S(run.fresh('name', Str)), a]
    def adds(self, run, name, at=None):
        th = ns_theory(run.task.theory); n = run.str_t(name)
        ats = th.NATTRS.app(run, (self.at,), run.known(run.keys(self.at))) if self.at is not None else EMPTY_S
        return cat(strc('<'), pref(n, n), th.DECLS.app(run, (self.prefixes,), run.known(run.keys(self.prefixes))) if self.first else EMPTY_S, ats, strc('>'))
add(NsStart('writer.namespacer.start_element'), 'C13')
class NsEnd(NsWriter):
    cases = ('first', 'later')
    def func(self, prog): return prog.func(self.name)
    def setup(self, run): return [self.writer(run), S(run.fresh('name', Str))]
    def adds(self, run, name): n = run.str_t(name); return cat(strc('</'), pref(n, n), strc('>'))
add(NsEnd('writer.namespacer.end_element'), 'C13')
class NsText(NsEnd):
    def adds(self, run, t): return esc(run, t)
add(NsText('writer.namespacer.text'), 'C13')
class NsInit(Contract):
    'no declarations so far; prefixes and mapping are those given'
    pure = False; checkonly = True; cases = ('both', 'none')
    def setup(self, run):
        m = MObj(run, run.prog.func(self.name).cls, {}); self.fp = Fp(run, run.fresh('written_before', Str)); self.out = self.fp.content
        self.both = run.task.case == 'both'
        d = run.fresh('prefixes', Dict); self.p = DObj(run, d) if self.both else None; self.m = Mapping() if self.both else None
        return [m, self.fp, None, self.p, self.m]
    def check(self, run, args, result):
        c = args[0].content
        run.oblige('file and handler', c.get('_fp') is self.fp and c.get('_whandler') is args[0] and c.get('_indent', 0) is None, 'state')
        empty = lambda v: isinstance(v, DObj) and (v.content == {} or not isinstance(v.content, dict) and run.entails(KEYS(v.content) == EMPTY_V))
        run.oblige('prefixes', c.get('_prefixes') is self.p or empty(c.get('_prefixes')) and (self.p is None or run.entails(KEYS(self.p.content) == EMPTY_V)), 'state')
        run.oblige('mapping', c.get('_mapping') is self.m or self.m is None and empty(c.get('_mapping')), 'state')
        run.oblige('no declarations yet', c.get('_first_element', UNDEF) is True, 'state')
        run.oblige('nothing written', self.fp.content == self.out)
add(NsInit('writer.namespacer.__init__'), 'C13')
