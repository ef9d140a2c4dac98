"""Lemmas for C06: what the machine of the parser (contracts/parser.py) does to the serialization of a tree (contracts/tree.py) is to report the events of the tree.

RD(W, p, s): the window W reads s from place p on. EVE(x, S) are the events of the element x, of which the ancestors have the names S; EVC(t, P, S) those of a row of nodes P, before
which text t has been read: neighbouring text is one run, and there is no event for none. All by induction: over strings, over the attributes, over the children, over the height of
the tree. With parser.parse (the events of a text are those of the machine), xml_encode (it gives the serialization) and C05 (the tree is made of the events) this is the round trip."""
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.theory import incls, charmap, ESCAPES, HASC
from pyvc.task import *
from .parser import *
from .parser import CLASS, CHAR, NAME, NAMESTART, DATA, CDE, CDT, C_, at, scan, sub, spec_step, define, isin, larger, sim, I, START, inv, _Cont
from .tree import QA, QTABLE, ENC, ENCP, spec_theory
CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
DTABLE = dict(QTABLE, **{'"': '&quot;'})
# how character data is written: (kind of data, table, a character it is known not to have)
WRITE = {'text': ('text', ESCAPES, None), 'apostrophes': ('sgl', QTABLE, "'"), 'quotes': ('dbl', QTABLE, '"'), 'quotes, both': ('dbl', DTABLE, None)}
RD = z3.Function('window_reads', Window, Int, Str, Bool)
ILLCH = Hom('ILLCH', [], Bool, lambda run, ps, x: z3.Not(incls(run, CHAR, x)), Str)           # has a character that MicroXML does not allow
ILLNM = Hom('ILLNM', [], Bool, lambda run, ps, x: z3.Not(incls(run, NAME, x)), Str)           # has a character that is not one of names
def plen(t): return I(1) if is_unit(t) else z3.Length(t)
def tlen(t): return sim(z3.Sum([I(0)] + [plen(p) for p in parts_of(t)]))
def rd(run, W, p, t):
    'the window reads t from p on, part by part'
    out = [p >= 0, p <= LEN(W)]
    for x in parts_of(t):
        if is_unit(x): out += [p < LEN(W), at(run, W, p) == x.arg(0)]
        else: out += [RD(W, sim(p), x), z3.Length(x) >= 0, p + z3.Length(x) <= LEN(W)]
        p = sim(p + plen(x))
    return out
def inside(run, a, b, c):
    'class a is part of class b'
    assert all(any(x <= p and q <= y for x, y in b) for p, q in a)
    run.fact(z3.Implies(incls(run, a, c), incls(run, b, c)))
def window(run):
    W, p = run.fresh('W', Window), run.fresh('p', Int); run.fact(z3.And(LEN(W) >= 0, p >= 0, p <= LEN(W))); return W, p
# ---------------------------------------------------------------------- names
def name_read(run, W, p, s, d, also=True):
    'lemma.name.read: a scan over a name s before something else, d, ends there'
    run.task.used.add('lemma.name.read')
    return z3.Implies(z3.And(*rd(run, W, p, cat(s, unit(d))), z3.Not(ILLNM.app(run, (), s)), z3.Not(incls(run, NAME, d))), scan(run, 'name', W, p) == sim(p + tlen(s)))
class NameRead(Lemma):
    'by induction over the name'
    def steps(self, run):
        W, p = window(run); d = run.fresh('d', Int); r, c = run.fresh('r', Str), run.fresh('c', Int)
        if run.choose(2) == 0: s = EMPTY_S
        else:
            s = cat(unit(c), r); run.fact(name_read(run, W, sim(p + 1), r, d))
        run.oblige('read', name_read(run, W, p, s, d), 'lemma')
add(NameRead('lemma.name.read'), 'C06')
def part_read(run, W, p, s):
    'lemma.part.read: what the window reads is part of it'
    run.task.used.add('lemma.part.read')
    return z3.Implies(z3.And(*rd(run, W, p, s)), sub(run, W, p, sim(p + tlen(s))) == s)
class PartRead(Lemma):
    'by induction over the string, from its end'
    def steps(self, run):
        W, p = window(run); r, c = run.fresh('r', Str), run.fresh('c', Int)
        if run.choose(2) == 0: s = EMPTY_S
        else:
            s = cat(r, unit(c)); run.fact(part_read(run, W, p, r))
        run.oblige('read', part_read(run, W, p, s), 'lemma')
add(PartRead('lemma.part.read'), 'C06')
# ---------------------------------------------------------------------- character data
def data_read(run, how, W, p, s, unfold=False, w=None):
    'lemma.data.read: written data is read back'
    run.task.used.add('lemma.data.read')
    q, table, no = WRITE[how]
    E, T = (CDE[q](run, W, p), CDT[q](run, W, p)) if unfold else (CDE[q].f(W, sim(p)), CDT[q].f(W, sim(p)))
    if w is None: w = charmap(table).app(run, (), s)
    pre = rd(run, W, p, cat(w, unit(I(DATA[q][1])))) + [z3.Not(ILLCH.app(run, (), s))]
    if no: pre.append(z3.Not(HASC.app(run, (I(ord(no)),), s)))
    return z3.Implies(z3.And(*pre), z3.And(E == sim(p + tlen(w)), T == s))
class DataRead(Lemma):
    'by induction over the string'
    assumes = ('int(s, 16) of one hexadecimal digit is its value',)
    cases = tuple(WRITE)
    def steps(self, run):
        how = run.task.case; q, table, no = WRITE[how]; W, p = window(run); r, c = run.fresh('r', Str), run.fresh('c', Int)
        if run.choose(2) == 0: s = w = EMPTY_S
        else:
            for k in table:
                if run.choose(2) == 0: c = I(ord(k)); piece = table[k]; break
            else:
                for k in table: run.fact(c != ord(k))
                piece = None
                if no: run.fact(c != ord(no))
                # the characters of such data are those allowed, but some
                excl = {'text': (AMP, LT, GT), 'sgl': (9, 10, AMP, LT, GT, ord("'")), 'dbl': (9, 10, AMP, LT, GT, ord('"'))}[q]
                assert minus(CHAR, *excl) == DATA[q][0]
                run.fact(incls(run, DATA[q][0], c) == z3.And(incls(run, CHAR, c), *[c != x for x in excl]))
            s = cat(unit(c), r); n = len(piece) if piece else 1; w = cat(strc(piece) if piece else unit(c), charmap(table).app(run, (), r))
            run.fact(data_read(run, how, W, sim(p + n), r))
            if piece:
                for i, ch in enumerate(piece):
                    for k in ('alnum', 'hex'): run.fact(z3.Implies(at(run, W, p + i) == ord(ch), isin(run, k, at(run, W, p + i)) == incls(run, CLASS[k], I(ord(ch)))))
                for i in range(1, n): scan(run, 'alnum', W, sim(p + i)); scan(run, 'hex', W, sim(p + i))
                if piece.startswith('&#x'):
                    a, b = sim(p + 3), sim(p + n - 1)
                    run.fact(z3.Implies(reads(run, W, a, b, piece[3:-1]), HEXV(W, a, b) == int(piece[3:-1], 16)))
                    run.fact(z3.Implies(scan(run, 'hex', W, a) == b, HEXV(W, a, scan(run, 'hex', W, a)) == HEXV(W, a, b)))
        run.oblige('read back', data_read(run, how, W, p, s, True, w), 'lemma')
add(DataRead('lemma.data.read'), 'C06')
# ---------------------------------------------------------------------- the machine
def after(W, c, evs, c2):
    'from c the machine gets to c2, reporting evs'
    t, t2 = c.t, c2.t
    return z3.And(END(W, t) == END(W, t2), EVS(W, t) == cat(evs, EVS(W, t2)), FAIL(W, t) == FAIL(W, t2))
def go(run, W, c):
    'one step of the machine'
    r = spec_step(run, W, c)
    if r[0] != 'go': run.oblige('the machine goes on in %s' % c.mode, False, 'lemma'); raise PathEnd()
    run.fact(define(run, W, c, r)); return r[1]
# ---------------------------------------------------------------------- attributes
ILLNAME = z3.Function('illegal_name', Str, Bool)          # empty, begins with a character that no name begins with, or has one that names do not have
FOLDD = z3.Function('stored', Dict, VSeq, Dict, Dict)       # FOLDD(a, P, D): D with the items of a whose keys are P, stored in this order
def name_split(run, s):
    's is a legal name: of a character it may begin with, and others'
    c, r = run.fresh('c', Int), run.fresh('r', Str); run.fact(s == cat(unit(c), r))
    run.fact(ILLNAME(s) == z3.Or(z3.Not(incls(run, NAMESTART, c)), ILLNM.app(run, (), r))); inside(run, NAMESTART, NAME, c)
    return c, r
ILLA = Hom('ILLA', [Dict], Bool, lambda run, ps, x: z3.Or(ILLNAME(Val.s(x)), ILLCH.app(run, (), GET(ps[0], Val.s(x)))))
def quoting(run, v):
    'QA(v), as the contract of quoteattr has it: (the kind of data, the text)'
    has = lambda c: HASC.app(run, (I(ord(c)),), v)
    how, f = (('quotes, both', z3.And(has('"'), has("'"))), ('apostrophes', z3.And(has('"'), z3.Not(has("'")))), ('quotes', z3.Not(has('"'))))[run.choose(3)]
    run.fact(f); q, table, _ = WRITE[how]; c = unit(I(DATA[q][1]))
    w = cat(c, charmap(table).app(run, (), v), c); run.fact(QA(v) == w); run.task.used.add('tree.quoteattr'); return how, w
def tag(W, p, D, gi, S): return C_('complete_tag', p, S, D, 'start', gi)
def attrs_read(run, W, p, a, P, gi, S, D, w=None):
    'lemma.attributes.read'
    run.task.used.add('lemma.attributes.read'); th = spec_theory(run.task.theory)
    if w is None: w = th.ATTRS.app(run, (a,), P)
    return z3.Implies(z3.And(*rd(run, W, p, w), z3.Not(ILLA.app(run, (a,), P))), after(W, tag(W, p, D, gi, S), EMPTY_V, tag(W, p + tlen(w), FOLDD(a, P, D), gi, S)))
class AttrsRead(Lemma):
    'the attributes as they are written are the ones the machine puts down; by induction over them'
    def steps(self, run):
        W, p = window(run); a, D, gi, S = run.fresh('a', Dict), run.fresh('D', Dict), run.fresh('gi', Str), run.fresh('stack', VSeq)
        if run.choose(2) == 0: P = w = EMPTY_V; run.fact(FOLDD(a, P, D) == D); w = EMPTY_S
        else:
            n, Q = run.fresh('name', Str), run.fresh('keys', VSeq); k = Val.strv(n); P = cat(unit(k), Q); v = GET(a, n); th = spec_theory(run.task.theory)
            c, r = name_split(run, n); how, wv = quoting(run, v); q = WRITE[how][0]
            w1 = cat(strc(' '), unit(c), r, strc('='), wv); w = cat(w1, th.ATTRS.app(run, (a,), Q))
            run.oblige('this is the text', w == th.ATTRS.app(run, (a,), P), 'lemma')
            for f in rd(run, W, p, w): run.fact(f)
            run.fact(z3.Not(ILLA.app(run, (a,), P)))
            run.fact(FOLDD(a, P, D) == FOLDD(a, Q, STORE(D, n, v)))
            pn = sim(p + 1); pe = sim(pn + tlen(cat(unit(c), r))); pv = sim(pe + 2)
            scan(run, 'ws', W, pn); scan(run, 'ws', W, pe); scan(run, 'ws', W, sim(pe + 1))
            run.fact(name_read(run, W, sim(pn + 1), r, I(EQ))); run.fact(part_read(run, W, pn, cat(unit(c), r))); run.fact(data_read(run, how, W, pv, v))
            c1 = go(run, W, tag(W, p, D, gi, S)); c2 = go(run, W, c1)
            p2 = sim(p + tlen(w1)); D2 = STORE(D, n, v)
            run.oblige('the attribute is read', c2.t == tag(W, p2, D2, gi, S).t, 'lemma')
            run.fact(attrs_read(run, W, p2, a, Q, gi, S, D2))
        run.oblige('read', attrs_read(run, W, p, a, P, gi, S, D, w), 'lemma')
add(AttrsRead('lemma.attributes.read'), 'C06')
# ---------------------------------------------------------------------- elements
EVE = z3.Function('events_of_element', HArr, SArr, DArr, Loc, VSeq, VSeq)
EVC = z3.Function('events_of_content', HArr, SArr, DArr, Str, VSeq, VSeq, VSeq)
def chars(t): return z3.If(z3.Length(t) > 0, unit(E_CHARS(t)), EMPTY_V)
class Doc_:
    'a tree: the fields of its nodes'
    def __init__(self, run):
        self.hna = ENCP(run); self.th = spec_theory(run.task.theory)
        if not hasattr(self.th, 'ILLN'):
            self.th.ILLN = Hom('ILLN', [HArr, SArr, DArr], Bool, lambda run, ps, x: self.th.ILL(run, *ps, Val.l(x)))
            self.th.ILL = Rec('ILL', [HArr, SArr, DArr, Loc], Bool, lambda run, h, n, a, l: z3.If(KIND(l) == ELEMENT,
                z3.Or(ILLNAME(z3.Select(n, l)), self.th.ILLA.app(run, (z3.Select(a, l),), KEYS(z3.Select(a, l))), self.th.ILLN.app(run, (h, n, a), z3.Select(h, l))), ILLCH.app(run, (), SVAL(l))))
            self.th.ILLA = ILLA
    def children(self, x): return z3.Select(self.hna[0], x)
    def name(self, x): return z3.Select(self.hna[1], x)
    def attributes(self, x): return z3.Select(self.hna[2], x)
    def text(self, run, P): return self.th.ENCS.app(run, self.hna, P)
    def body(self, run, x):
        'the serialization of an element, after its <'
        a = self.attributes(x); n = self.name(x)
        return cat(n, self.th.ATTRS.app(run, (a,), KEYS(a)), strc('>'), self.text(run, self.children(x)), strc('</'), n, strc('>'))
    def eve(self, x, S): return EVE(*self.hna, x, S)
    def evc(self, t, P, S): return EVC(*self.hna, t, P, S)
def kids_read(run, T, W, p, t, P, S, w=None):
    'lemma.content.read: text t (escaped), then the nodes P, then the < that ends them'
    run.task.used.add('lemma.content.read')
    if w is None: w = cat(charmap(ESCAPES).app(run, (), t), T.text(run, P), strc('<'))
    pre = rd(run, W, p, w) + [z3.Not(ILLCH.app(run, (), t)), z3.Not(T.th.ILLN.app(run, T.hna, P)), z3.Length(S) > 0]
    return z3.Implies(z3.And(*pre), after(W, C_('in_element', p, S), T.evc(t, P, S), C_('pre_tag_gi', p + tlen(w), S)))
def elem_read(run, T, W, p, x, S, body=None):
    'lemma.element.read: an element, after its <'
    run.task.used.add('lemma.element.read')
    if body is None: body = T.body(run, x)
    pre = rd(run, W, p, body) + [KIND(x) == ELEMENT, z3.Not(T.th.ILL(run, *T.hna, x))]; e = sim(p + tlen(body))
    return z3.Implies(z3.And(*pre), z3.If(z3.Length(S) > 0, after(W, C_('pre_tag_gi', p, S), T.eve(x, S), C_('in_element', e, S)), after(W, C_('pre_tag_gi', p, S), T.eve(x, S), C_('complete_doc', e, S))))
class KidsRead(Lemma):
    'by induction over the nodes'
    cases = ('none', 'text', 'element')
    def steps(self, run):
        W, p = window(run); T = Doc_(run); t, S = run.fresh('t', Str), run.fresh('stack', VSeq); run.fact(z3.Length(S) > 0); c = C_('in_element', p, S)
        esc = lambda s: charmap(ESCAPES).app(run, (), s); case = run.task.case
        if case == 'none': P = EMPTY_V; run.fact(T.evc(t, P, S) == chars(t)); w = cat(esc(t), strc('<'))
        else:
            x, Q = run.fresh('x', Loc), run.fresh('nodes', VSeq); P = cat(unit(R(x)), Q)
            if case == 'text':
                run.fact(KIND(x) == TEXT); run.fact(T.evc(t, P, S) == T.evc(cat(t, SVAL(x)), Q, S)); w = cat(esc(t), esc(SVAL(x)), T.text(run, Q), strc('<'))
            else:
                run.fact(KIND(x) == ELEMENT); run.fact(T.evc(t, P, S) == cat(chars(t), T.eve(x, S), T.evc(EMPTY_S, Q, S)))
                body = T.body(run, x); w = cat(esc(t), strc('<'), body, T.text(run, Q), strc('<'))
            run.oblige('this is the text', w == cat(esc(t), T.text(run, P), strc('<')), 'lemma')
        for f in rd(run, W, p, w): run.fact(f)
        run.fact(z3.Not(ILLCH.app(run, (), t))); run.fact(z3.Not(T.th.ILLN.app(run, T.hna, P)))
        if case == 'text': run.fact(kids_read(run, T, W, p, cat(t, SVAL(x)), Q, S))
        else:
            run.fact(data_read(run, 'text', W, p, t)); c1 = go(run, W, c); e = sim(p + tlen(esc(t)) + 1)
            run.oblige('the text is read', c1.t == C_('pre_tag_gi', e, S).t, 'lemma')
            if case == 'element':
                e2 = sim(e + tlen(body)); run.fact(elem_read(run, T, W, e, x, S)); run.fact(kids_read(run, T, W, e2, EMPTY_S, Q, S))
        run.oblige('read', kids_read(run, T, W, p, t, P, S, w), 'lemma')
add(KidsRead('lemma.content.read'), 'C06')
class ElemRead(Lemma):
    'by induction over the height of the element: its content is read as lemma.content.read says'
    assumes = ('storing the items of a dictionary in an empty one, in order, gives an equal dictionary', 'the tree of a row of events is by definition what the edits of treebuilder._handler make of them, one after the other (C05)')
    def steps(self, run):
        W, p = window(run); T = Doc_(run); x, S = run.fresh('x', Loc), run.fresh('stack', VSeq); run.fact(KIND(x) == ELEMENT); run.set_prov(S, lambda y: [Val.is_strv(y)])
        n, a, k = T.name(x), T.attributes(x), T.children(x); c, r = name_split(run, n); n2 = cat(unit(c), r); th = T.th
        at_ = th.ATTRS.app(run, (a,), KEYS(a)); content = T.text(run, k)
        body = cat(n2, at_, strc('>'), content, strc('</'), n2, strc('>'))
        run.oblige('this is the text', cat(strc('<'), body) == th.ENCN(run, *T.hna, x), 'lemma'); run.oblige('the body', body == T.body(run, x), 'lemma')
        for f in rd(run, W, p, body): run.fact(f)
        run.fact(z3.Not(th.ILL(run, *T.hna, x)))
        S1 = cat(S, unit(Val.strv(n)))
        run.fact(T.eve(x, S) == cat(unit(E_START(n, a, S)), T.evc(EMPTY_S, k, S1), unit(E_END(n, S))))
        run.fact(FOLDD(a, KEYS(a), EMPTYD) == a)          # a dictionary is what one gets when its items are stored in a new one
        # the start tag; what comes after the name is a blank or >
        run.fact(z3.Length(n) == tlen(n2)); pe = sim(p + tlen(n2)); pt = sim(pe + tlen(at_)); pc = sim(pt + 1); pz = sim(pc + tlen(content)); pn = sim(pz + 2); pf = sim(pn + tlen(n2))
        scan(run, 'ws', W, p); scan(run, 'ws', W, pt); scan(run, 'ws', W, pz + 1); scan(run, 'ws', W, pn); scan(run, 'ws', W, pf)
        ks = KEYS(a)
        if run.choose(2) == 0:
            run.fact(ks == EMPTY_V); run.fact(at_ == EMPTY_S); d = GT
        else:
            k0, K = run.fresh('key', Val), run.fresh('keys', VSeq); run.fact(ks == cat(unit(k0), K)); d = 32; rest = run.fresh('rest', Str)
            run.fact(z3.Implies(at_ == th.ATTRS.app(run, (a,), cat(unit(k0), K)), at_ == cat(strc(' '), rest))); run.fact(at_ == th.ATTRS.app(run, (a,), cat(unit(k0), K)))
            for f in rd(run, W, pe, cat(strc(' '), rest)): run.fact(f)
        run.fact(name_read(run, W, sim(p + 1), r, I(d))); run.fact(part_read(run, W, p, n2))
        c0 = C_('pre_tag_gi', p, S); c1 = go(run, W, c0)
        run.oblige('the name is read', c1.t == tag(W, pe, EMPTYD, n, S).t, 'lemma')
        run.fact(attrs_read(run, W, pe, a, ks, n, S, EMPTYD))
        c2 = tag(W, pt, a, n, S); c3 = go(run, W, c2)
        run.oblige('the start tag is read', c3.t == C_('in_element', pc, S1).t, 'lemma')
        run.fact(kids_read(run, T, W, pc, EMPTY_S, k, S1))
        # the end tag
        run.fact(name_read(run, W, sim(pn + 1), r, I(GT))); run.fact(part_read(run, W, pn, n2))
        c4 = C_('pre_tag_gi', pz + 1, S1); c5 = go(run, W, c4); c6 = go(run, W, c5)
        run.oblige('the name is read again', c6.t == C_('complete_tag', pf, S1, EMPTYD, 'end', n).t, 'lemma')
        c7 = go(run, W, C_('complete_tag', pf, S1, EMPTYD, 'end', n))
        run.oblige('read', elem_read(run, T, W, p, x, S, body), 'lemma')
add(ElemRead('lemma.element.read'), 'C06')
class DocRead(Lemma):
    'the machine on the serialization of an element reports its events, and does not fail'
    def steps(self, run):
        W = run.fresh('W', Window); T = Doc_(run); x = run.fresh('x', Loc); run.fact(KIND(x) == ELEMENT); body = T.body(run, x); w = cat(strc('<'), body)
        run.oblige('this is the text', w == T.th.ENCN(run, *T.hna, x), 'lemma')
        for f in rd(run, W, I(0), w): run.fact(f)
        run.task.used.update(('parser.parser', 'parser.handle_cdata', 'tree.element.xml_encode', 'tree.treebuilder._handler', 'tree.treebuilder.parse'))
        run.fact(LEN(W) == tlen(w)); run.fact(z3.Not(T.th.ILL(run, *T.hna, x)))
        c1 = go(run, W, START)
        run.fact(elem_read(run, T, W, I(1), x, EMPTY_V)); end = C_('complete_doc', LEN(W), EMPTY_V); run.fact(define(run, W, end, spec_step(run, W, end)))
        run.oblige('reports the events of the element', EVS(W, START.t) == T.eve(x, EMPTY_V), 'lemma'); run.oblige('is not rejected', z3.Not(FAIL(W, START.t)), 'lemma')
add(DocRead('lemma.roundtrip'), 'C06')
