"""Contracts of amara3.uxml.treeiter (C11) and of the parse methods that connect a parser to a handler (C05, C11, C12).

The sender keeps one state per pattern. Its loops over the patterns are checked for one arbitrary index: the body may touch the
state with that index only (anything else is out of reach of these contracts), so what happens to one pattern does not depend on the others.
For a pattern with language L and open elements w (the start events of the stack): the sender is building exactly if some prefix of w is in L."""
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from . import patterns as P_
from .patterns import *
from .tree import Edit, event

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
EVSTART = z3.Function('is_start_event', Val, Bool)
EVNAME = z3.Function('event_name', Val, Str)
class EventLetters:
    'paths of start events'
    def matches(self, run, x, s): return z3.And(EVSTART(x), EVNAME(x) == s)
    def isel(self, run, x): return EVSTART(x)
EVL = EventLetters()
class EvKind(Abs):
    def __init__(self, x): self.x = x
    def eq(self, run, o):
        if o == EnumM('parser.event', 'start_element'): return run.mk(EVSTART(self.x))
        raise Unsupported('kind of event')
    is_ = eq
class Ev(Abs):
    'an event, of which it is only asked whether it is a start event and which name it has'
    def __init__(self, x): self.x = x
    def item(self, run, i):
        if i == 0: return EvKind(self.x)
        if i == 1:
            if not run.entails(EVSTART(self.x)): raise Unsupported('part of an event of unknown kind')
            return S(EVNAME(self.x))
        raise Unsupported('part of an event')
    def toval(self, run): return self.x
class EvFactory:
    let = EVL
    def self_args(self, run):
        m = MObj(run, run.prog.func(self.name).cls, {}); m.partial = True
        return [m]
    def letter(self, run):
        x = run.fresh('ev', Val)
        return Ev(x), x
class OnlyName(EvFactory, NameTest): pass
class AnyName(EvFactory, ElemTest): pass
class EvUntil(EvFactory, AnyUntil): pass
class EvEither(EvFactory, Either): pass
class EvAny(EvFactory, AnyOf): pass
add(OnlyName('treeiter.sender._only_name'), 'C11')
add(AnyName('treeiter.sender._any_name'), 'C11')
add(EvUntil('treeiter.sender._any_until'), 'C11')
add(EvEither('treeiter.sender._either'), 'C11')
add(EvAny('treeiter.sender._any'), 'C11')
class EvNameTest(Contract):
    'a function that is true of start events with the name only'
    def setup(self, run): return [S(run.fresh('name', Str))]
    def spec(self, run, name): return AltFn(NAMEL(run.str_t(name), MATCHED), EVL)
    def execute(self, run, fn, args):
        run.task.entering = False
        F = run.inline(fn, args, {})
        if not isinstance(F, Fn): raise Unsupported('not a function')
        self.x = run.fresh('ev', Val)
        run.task.inlined.add('the function that %s returns' % self.name)
        return run.truth(run.inline(F, [Ev(self.x)], {}))
    def check(self, run, args, result):
        L = NAMEL(run.str_t(args[0]), MATCHED)
        run.fact(unfold(run, L, self.x, EMPTY_V, EVL))
        run.oblige('true exactly of start events with the name', LX(L, unit(self.x)) == z3.BoolVal(result))
add(EvNameTest('tree.name_test'), 'C11')

# ---------------------------------------------------------------------- one arbitrary pattern of many
class Cells(Abs):
    'a list with one item per pattern, seen at one arbitrary index'
    def __init__(self, run, ix, v): self.ix, self.v = ix, v
    def at(self, run, i):
        if not (isinstance(i, S) and i.t.eq(self.ix)): raise Unsupported('another index')
    def item(self, run, i): self.at(run, i); return self.v
    def setitem(self, run, i, v): self.at(run, i); self.v = v
    def len(self, run): return S(z3.Const('number_of_patterns', Int))
    def loop_one(self, run, cb, fr, assigned, x):
        for n in assigned:
            f = fr.find(n)
            if f: f.env[n] = UNDEF
        try: cb(x)
        except _Cont: pass
        except _Brk: raise Unsupported('break')
        for n in assigned:
            f = fr.find(n)
            if f: f.env[n] = UNDEF
        return 'done'
    def loop(self, run, cb, fr, assigned): return self.loop_one(run, cb, fr, assigned, self.v)
    def enumerate_(self, run): return Pairs(self)
    def listcomp(self, run, f): return Cells(run, self.ix, f(self.v))
    def isinstance(self, run, cls): return isinstance(cls, Ext) and cls.name == 'list'
    def attr(self, run, n): raise Unsupported('list.' + n)
class TupleCells(Cells):
    'the same in a tuple'
    def isinstance(self, run, cls): return isinstance(cls, Ext) and cls.name == 'tuple'
    def item(self, run, i): return self.v if run.norm(i) == 0 else Cells.item(self, run, i)       # the first is like any other
class Pairs(Abs):
    def __init__(self, c): self.c = c
    def loop(self, run, cb, fr, assigned): return self.c.loop_one(run, cb, fr, assigned, Tup([S(self.c.ix), self.c.v]))
    def attr(self, run, n): raise Unsupported(n)
from pyvc.core import _Cont, _Brk
class Sink(Abs):
    def __init__(self, name): self.name = name
    def attr(self, run, n):
        if n == 'send': return Recorder(self, 'send')
        raise Unsupported('sink.' + n)
    def isinstance(self, run, cls):
        if isinstance(cls, Ext) and cls.name.endswith('Iterable'): return run.mk(z3.Const('sink_is_iterable', Bool))
        if isinstance(cls, Ext) and cls.name in ('list', 'tuple'): return False
        return NotImplemented
    def next(self, run, default): run.sent.append(('next', self.name)); return None
class Recorder(Abs):
    def __init__(self, o, name): self.o, self.name = o, name
    def call(self, run, args, kw):
        run.sent.append((self.name, self.o.name) + tuple(args)); return None
def sender_obj(run, c):
    m = MObj(run, run.prog.func(c.name).cls, {}); m.partial = True
    return m
class EvStack(LObj):
    def __init__(self, run, t):
        LObj.__init__(self, run, t)
        self.conv = lambda x, i: Ev(x)
        run.set_prov(t, lambda x: [EVSTART(x)])

# prefix languages: the state after a sequence of start events, MATCHED once a prefix is in the language
def AFTERF(run):
    th = run.task.theory
    if not hasattr(th, 'AFTERF'):
        th.AFTERF = Fold('AFTERF', [], Val, lambda r, ps, acc, x: z3.If(z3.Or(acc == MATCHED, LX(acc, unit(x))), MATCHED, DER(acc, x)))
    return th.AFTERF
def hit(run, L, t): return AFTERF(run).app(run, (), L, t) == MATCHED
class PrepPatterns(Contract):
    pure = False; sentinel_hook = staticmethod(sentinel)
    def setup(self, run):
        m = sender_obj(run, self); ix = run.fresh('ix', Int)
        t = run.fresh('reversed_pattern', VSeq)
        run.set_prov(t, lambda x: [z3.Or(Val.is_strv(x), Val.is_opq(x))])
        p = Pattern(t); run.pattern = p; Prep.last(self, run, t)
        self.p = p
        m.content = {'_patterns': Cells(run, ix, p), '_stateses': Cells(run, ix, None)}
        return [m]
    folds = Prep.folds; homs = Prep.homs
    def check(self, run, args, result):
        r = args[0].content['_stateses'].v
        run.oblige('the state of each pattern has the language of the pattern', lang(run, r) == PLANG(run).app(run, (), MATCHED, run.known(self.p.rev)))
        run.oblige('returns None', result is None)
    def apply(self, run, f, args, kw):
        m = args[0]; run.task.used.add(self.name)
        if isinstance(m.content.get('_stateses'), LObj) and isinstance(m.content['_patterns'], LObj) and len(m.content['_patterns'].content) == len(m.content['_stateses'].content) == 1:
            m.content['_stateses'].content = [StateFn(PLANG(run).app(run, (), MATCHED, run.known(m.content['_patterns'].content[0].rev)), EVL)]
            return None
        if not isinstance(m.content.get('_stateses'), Cells) or not isinstance(m.content.get('_patterns'), Cells): raise Unsupported('state of the sender')
        m.content['_stateses'] = Cells(run, m.content['_patterns'].ix, StateFn(PLANG(run).app(run, (), MATCHED, run.known(m.content['_patterns'].v.rev)), EVL))
        return None
class PrepPatternsEv(PrepPatterns): pass
add(PrepPatternsEv('treeiter.sender._prep_patterns'), 'C11')
class Init(Contract):
    'what the state of each pattern is before the first event'
    pure = False; checkonly = True; cases = ('list', 'tuple', 'one pattern'); sentinel_hook = staticmethod(sentinel)
    @staticmethod
    def listrepeat_hook(run, a, b):
        if isinstance(b, S) and b.t.eq(z3.Const('number_of_patterns', Int)) and len(a.content) == 1 and isinstance(a.content[0], (int, type(None))): return Cells(run, run.ix, a.content[0])
        raise Unsupported('list repeated')
    def setup(self, run):
        m = sender_obj(run, self); m.partial = False; run.ix = ix = run.fresh('ix', Int)
        t = run.fresh('reversed_pattern', VSeq); p = Pattern(t); self.p = p; run.pattern = p
        self.prime = run.choose(2) == 0; self.sink = Sink('sink')
        if run.task.case == 'list': return [m, Cells(run, ix, p), Cells(run, ix, self.sink), self.prime]
        if run.task.case == 'tuple': return [m, TupleCells(run, ix, p), TupleCells(run, ix, self.sink), self.prime]
        run.ix = z3.IntVal(0)
        p.item = lambda r, i: (S(r.fresh('firststep', Str)) if i == 0 else r.unsupported())
        return [m, p, self.sink, self.prime]
    def check(self, run, args, result):
        c = args[0].content
        def cell(f):
            v = c.get(f)
            if isinstance(v, Cells): return v.v
            if isinstance(v, LObj) and isinstance(v.content, list) and run.task.case == 'one pattern':
                run.oblige('one %s for one pattern' % f, len(v.content) == 1)
                return v.content[0]
            raise Unsupported('state ' + f)
        run.oblige('nothing is being built', cell('_roots') is None and cell('_parents') is None and cell('_building_depths') == 0, 'state')
        st = cell('_evstacks')
        run.oblige('no element is open', isinstance(st, LObj) and st.content == [], 'state')
        run.oblige('sinks are the ones given, in order', cell('_sinks') is self.sink, 'state')
        run.oblige('the state has the language of the pattern', lang(run, cell('_stateses')) == PLANG(run).app(run, (), MATCHED, run.known(self.p.rev)), 'state')
        it = z3.Const('sink_is_iterable', Bool)
        n = [x for x in run.sent if x == ('next', 'sink')]
        run.oblige('a sink is primed once, if wanted', z3.And(len(run.sent) == len(n), (z3.BoolVal(len(n) == 1) == it) if self.prime else z3.BoolVal(not n)))
add(Init('treeiter.sender.__init__'), 'C11')

def fold_facts(run, L, t):
    'lemmas about prefixes, for the sequence t = P ++ [x] ++ R at hand'
    F = AFTERF(run)
    run.task.used.add('lemma.prefixes_in_a_language')
    return F
class MatchState(Contract):
    'True exactly if some prefix of the open elements is in the language of the pattern'
    sentinel_hook = staticmethod(sentinel)
    def setup(self, run):
        m = sender_obj(run, self); ix = run.fresh('ix', Int); L = run.fresh('L', Val)
        t = run.fresh('stack', VSeq)
        m.content = {'_stateses': Cells(run, ix, StateFn(L, EVL)), '_evstacks': Cells(run, ix, EvStack(run, t))}
        run.fact(L != MATCHED)
        conv = m.content['_evstacks'].v
        self.L, self.t = L, t
        run.onevents = True
        return [m, S(ix)]
    def folds(self, run, *a): return [('AFTERF', lambda acc, P: AFTERF(run).app(run, (), acc, P) if acc.sort() == Val else None)]
    def facts(self, run, *a):
        return [('no hit so far', lambda P: z3.Not(hit(run, self.L, P)))]
    def spec(self, run, m, ix):
        L = lang(run, m.content['_stateses'].item(run, ix)); t = run.known(run.as_seq(m.content['_evstacks'].item(run, ix)))
        F = fold_facts(run, L, t)
        # the lemmas at every way the sequence is cut here
        ps = parts_of(t)
        for k in range(1, len(ps) + 1):
            acc = F.app(run, (), L, cat(*ps[:k])); rest = cat(*ps[k:]) if ps[k:] else EMPTY_V
            run.fact(z3.Implies(acc == MATCHED, F.app(run, (), MATCHED, rest) == MATCHED))
            run.fact(z3.Implies(ISEMPTY(acc), F.app(run, (), acc, rest) != MATCHED))
        return run.mk(hit(run, L, t))
add(MatchState('treeiter.sender._match_state'), 'C11')
class Prefixes(Lemma):
    'a hit stays one; an empty language never hits; both by induction over the length of the rest'
    def steps(self, run):
        F = AFTERF(run); L, P, x = run.fresh('L', Val), run.fresh('P', VSeq), run.fresh('x', Val)
        run.oblige('hit, nothing more', F.app(run, (), MATCHED, EMPTY_V) == MATCHED, 'lemma')
        run.oblige('hit, one more', z3.Implies(F.app(run, (), MATCHED, P) == MATCHED, F.app(run, (), MATCHED, cat(P, unit(x))) == MATCHED), 'lemma')
        # ISEMPTY(l): l holds no path and is a state; l' = DER(l, x) holds w exactly if l holds [x] ++ w; MATCHED is not such a state
        run.fact(z3.Not(ISEMPTY(MATCHED)))
        e = lambda l: z3.And(z3.Implies(ISEMPTY(l), z3.And(z3.Not(LX(l, unit(x))), ISEMPTY(DER(l, x)))))
        acc = F.app(run, (), L, P); run.fact(e(acc)); run.fact(e(L))
        run.oblige('empty, nothing more', z3.Implies(ISEMPTY(L), ISEMPTY(F.app(run, (), L, EMPTY_V))), 'lemma')
        run.oblige('empty, one more', z3.Implies(ISEMPTY(acc), z3.And(ISEMPTY(F.app(run, (), L, cat(P, unit(x)))), F.app(run, (), L, cat(P, unit(x))) != MATCHED)), 'lemma')
add(Prefixes('lemma.prefixes_in_a_language'), 'C11')

BUILT = z3.Function('elements_matched_around', Val, VSeq, Int)       # BUILT(L, w): how many prefixes of w have themselves a prefix in L
LEVEL = z3.Function('level_in_subtree', Loc, Int)                     # ghost: 1 for the top of a subtree being built
class FullEv(Ev):
    def __init__(self, run, kind):
        Ev.__init__(self, run.fresh('ev', Val)); self.kind = kind
        self.name, self.attrs, self.chars = S(run.fresh('name', Str)), run.fresh('attrs', Dict), S(run.fresh('characters', Str))
        self.d = DObj(run, self.attrs); self.anc = LObj(run, run.fresh('ancestors', VSeq))
        run.fact(EVSTART(self.x) == z3.BoolVal(kind == 'start_element')); run.fact(z3.Implies(EVSTART(self.x), EVNAME(self.x) == self.name.t))
    def item(self, run, i):
        its = [event(self.kind)] + {'start_element': [self.name, self.d, self.anc], 'characters': [self.chars], 'end_element': [self.name, self.anc]}[self.kind]
        if not isinstance(i, int): raise Unsupported('index')
        if not -len(its) <= i < len(its): raise PyRaise(Exc('IndexError'))
        return its[i]
    def iter_src(self, run): return [self.item(run, i) for i in range({'start_element': 4, 'characters': 2, 'end_element': 3}[self.kind])]
class Stream(Step):
    """sender._handler, for one arbitrary pattern with language L. Between two events, with w the open elements (start events): it is building exactly if a
    prefix of w is in L, and then the level of the open node is the number of open elements since that prefix, the open node being the top exactly at level 1.
    start: pushed; when building, or if w is now in L, an element is made like the tree builder makes it; characters: when building, a text node;
    end: popped; when building, the parent becomes open, and the open node goes to the sink, and to no other, exactly if it is the top."""
    pure = False; checkonly = True; sentinel_hook = staticmethod(sentinel)
    cases = tuple('%s/%s' % (e, s) for e in ('start_element', 'characters', 'end_element') for s in ('building', 'waiting'))
    def setup(self, run):
        m = sender_obj(run, self); self.ix = run.fresh('ix', Int); self.L = run.fresh('L', Val); run.fact(self.L != MATCHED)
        # the first event finds what __init__ leaves: see its contract
        m.content = {'_evstacks': Cells(run, self.ix, EvStack(run, EMPTY_V)), '_building_depths': Cells(run, self.ix, 0), '_parents': Cells(run, self.ix, None), '_roots': Cells(run, self.ix, None),
            '_stateses': Cells(run, self.ix, StateFn(self.L, EVL)), '_sinks': Cells(run, self.ix, Sink('sink'))}
        return [m]
    def built(self, run, t):
        'definition of BUILT at the seams of t'
        ps = parts_of(t); hits = []
        run.fact(BUILT(self.L, EMPTY_V) == 0)
        for k in range(1, len(ps) + 1):
            w = cat(*ps[:k])
            run.fact(BUILT(self.L, w) >= 0); run.fact((BUILT(self.L, w) > 0) == hit(run, self.L, w))                  # lemma.building
            if is_unit(ps[k-1]):
                v = cat(*ps[:k-1]) if k > 1 else EMPTY_V
                run.fact(BUILT(self.L, w) == BUILT(self.L, v) + z3.If(hit(run, self.L, w), 1, 0))
        run.task.used.add('lemma.building'); run.task.used.add('lemma.prefixes_in_a_language')
        return BUILT(self.L, t)
    def invariant(self, run, m, old=None):
        'label, goal'
        c = m.content; st = c['_evstacks'].v
        D, p = run.toval(c['_building_depths'].v), run.toval(c['_parents'].v)
        d = Val.i(D); l = Val.l(p); par = run.harr('_xml_parent')
        return [('the depth is a number', Val.is_intv(D)), ('building as many elements as are open since the match', d == self.built(run, run.known(run.as_seq(st)))),
            ('nothing open unless building', (d == 0) == Val.is_none(p)),
            ('the level of the open node is the depth', z3.Implies(d > 0, z3.And(Val.is_ref(p), KIND(l) == ELEMENT, LEVEL(l) == d)))]
    def owned(self, run, l, par):
        'what holds of each element that is being built: a parent one level up, none at the top'
        q = z3.Select(par, l)
        return z3.And(z3.Implies(LEVEL(l) == 1, q == Val.none), z3.Implies(LEVEL(l) > 1, z3.And(Val.is_ref(q), KIND(Val.l(q)) == ELEMENT, LEVEL(Val.l(q)) == LEVEL(l) - 1)))
    def init(self, run, fr, args):
        for label, g in self.invariant(run, args[0]): run.oblige('before the first event: ' + label, g, 'invariant')
    def state(self, run, fr, args):
        m = args[0]; k, how = run.task.case.split('/')
        t = run.fresh('open_elements', VSeq); D = run.fresh('depth', Int)
        st = EvStack(run, t)
        if k == 'end_element':            # events are balanced: C02
            i, x = run.fresh('outer', VSeq), run.fresh('last', Val); run.split(t, [i, unit(x)])
        self.t = run.known(t); self.D = D
        self.p = run.loc(node_arg(run, 'open', [ELEMENT])) if how == 'building' else None
        run.fact(D > 0 if how == 'building' else D == 0)
        self.cells = {'_evstacks': Cells(run, self.ix, st), '_building_depths': Cells(run, self.ix, S(D) if how == 'building' else 0), '_parents': Cells(run, self.ix, S(self.p) if self.p is not None else None),
            '_roots': Cells(run, self.ix, S(run.fresh('root', Val))), '_stateses': m.content['_stateses'], '_sinks': m.content['_sinks']}
        m.content = dict(self.cells)
        self.root0 = run.toval(m.content['_roots'].v)
        for label, g in self.invariant(run, m): run.fact(g)
        if self.p is not None: run.fact(self.owned(run, self.p, z3.Const('H0__xml_parent', PArr)))
        run.sent = []
    def receive(self, run, fr, args):
        self.ev = FullEv(run, run.task.case.split('/')[0]); return self.ev
    def after(self, run, fr, args):
        m = args[0]; k, how = run.task.case.split('/'); p = self.p; ev = self.ev
        h0, p0 = z3.Const('H0_xml_children', HArr), z3.Const('H0__xml_parent', PArr)
        for f in ('_evstacks', '_building_depths', '_parents', '_roots', '_stateses', '_sinks'):
            if m.content.get(f) is not self.cells[f]: raise Unsupported('state ' + f)
        if m.content['_stateses'].v.t is not self.L or m.content['_sinks'].v.name != 'sink': raise Unsupported('state')
        w = run.known(run.as_seq(m.content['_evstacks'].v))
        want = {'start_element': cat(self.t, unit(ev.x)), 'characters': self.t, 'end_element': cat(*parts_of(self.t)[:-1]) if k == 'end_element' else None}[k]
        run.oblige('the open elements are followed', w == want)
        self.fresh = tuple(run.news)
        cur = run.toval(m.content['_parents'].v)
        val = (lambda l: Val.none if l is None else R(l))
        sent = [x for x in run.sent]
        done = z3.And(z3.BoolVal(k == 'end_element' and how == 'building'), self.D == 1)
        run.oblige('something is sent exactly if a subtree is complete', done == z3.BoolVal(len(sent) > 0))
        if sent:
            run.oblige('one thing is sent', len(sent) == 1 and sent[0][:2] == ('send', 'sink') and len(sent[0]) == 3)
            run.oblige('the subtree is sent, by its top', z3.And(run.toval(sent[0][2]) == val(p), z3.Select(p0, p) == Val.none, LEVEL(p) == 1))
        makes = {'start_element': z3.Or(self.D > 0, hit(run, self.L, want)), 'characters': self.D > 0, 'end_element': z3.BoolVal(False)}[k]
        run.oblige('makes a node exactly if building', makes == z3.BoolVal(len(run.news) > 0)); run.oblige('makes one node at most', len(run.news) <= 1)
        root = run.toval(m.content['_roots'].v)
        if run.news:
            x = run.news[0]
            if k == 'characters': run.oblige('the new node is text with these characters', z3.And(KIND(x) == TEXT, SVAL(x) == ev.chars.t)); run.oblige('the open node stays', cur == val(p))
            else:
                run.oblige('the new node is an element', KIND(x) == ELEMENT)
                run.oblige('it has the name', z3.Select(run.harr('xml_name'), x) == ev.name.t)
                at = z3.Select(run.harr('xml_attributes'), x)
                run.oblige('it has the attributes', z3.Or(at == ev.attrs, z3.And(at == EMPTYD, z3.Length(KEYS(ev.attrs)) == 0)))
                run.oblige('it is empty', z3.Select(run.harr('xml_children'), x) == EMPTY_V)
                run.oblige('it is open', cur == R(x))
                run.oblige('the top is kept alive', z3.Or(root == self.root0, root == R(x)) if p is not None else root == R(x))
                run.fact(LEVEL(x) == self.D + 1)            # ghost: the level of a new node
                run.oblige('each element being built is one level below its parent', self.owned(run, x, run.harr('_xml_parent')), 'invariant')
            run.oblige('its parent is the open node', z3.Select(run.harr('_xml_parent'), x) == val(p))
            hx = z3.Store(h0, x, z3.Select(run.harr('xml_children'), x))
            self.frame(run, xml_children=z3.Store(hx, p, cat(z3.Select(h0, p), unit(R(x)))) if p is not None else hx, _xml_parent=z3.Store(p0, x, val(p)))
        else:
            if k == 'end_element' and p is not None: run.oblige('the parent is open', cur == z3.Select(p0, p))
            else: run.oblige('nothing is opened', cur == val(p))
            self.frame(run)
        for label, g in self.invariant(run, m): run.oblige('after the event: ' + label, g, 'invariant')
    frame = Edit.frame
add(Stream('treeiter.sender._handler'), 'C11')
class Building(Lemma):
    'elements are being built exactly if there was a match: by induction over the open elements'
    def steps(self, run):
        F = AFTERF(run); L, P, x = run.fresh('L', Val), run.fresh('P', VSeq), run.fresh('x', Val)
        run.fact(L != MATCHED); run.fact(BUILT(L, EMPTY_V) == 0)
        run.oblige('no element is open', z3.And(BUILT(L, EMPTY_V) >= 0, (BUILT(L, EMPTY_V) > 0) == hit(run, L, EMPTY_V)), 'lemma')
        run.fact(BUILT(L, P) >= 0); run.fact((BUILT(L, P) > 0) == hit(run, L, P))
        w = cat(P, unit(x)); run.fact(BUILT(L, w) == BUILT(L, P) + z3.If(hit(run, L, w), 1, 0))
        run.oblige('one element more', z3.And(BUILT(L, w) >= 0, (BUILT(L, w) > 0) == hit(run, L, w)), 'lemma')
add(Building('lemma.building'), 'C11')

# ---------------------------------------------------------------------- parse methods
class ParserCall(Contract):
    'parser.parser as its callers see it: primes the handler and then runs it during each send'
    checkonly = True; effect = None
    def apply(self, run, f, args, kw):
        fr = Frame(f.module); run.bind_args(f, list(args), kw, fr)
        names = [p.arg for p in f.node.args.args]
        h = fr.env[names[0]]
        if not (isinstance(h, Gen) and h.content is None): raise Unsupported('handler')
        if len(names) > 1 and not all(isinstance(fr.env[x], (bool, type(None), int, str)) for x in names[1:]): raise Unsupported('parser option')
        if len(names) > 1 and fr.env[names[1]] is not True: raise Unsupported('handler not primed by the parser')
        h.content = 'running'
        run.sent.append(('parser', h))
        return ParserObj(h, self.effect)
class ParserObj(Abs):
    def __init__(self, h, effect): self.h, self.effect = h, effect
    def attr(self, run, n):
        if n == 'send': return Sender(self)
        if n == 'close': return Closes(self)
        raise Unsupported('parser.' + n)
class Closes(Abs):
    'close() of the parser sends nothing (parser.parser)'
    def __init__(self, p): self.p = p
    def call(self, run, args, kw):
        run.sent.append(('send', self.p.h, Tup(['', True]))); run.task.used.add('parser.parser'); return None
    def attr(self, run, n): raise Unsupported(n)
class Sender(Abs):
    def __init__(self, p): self.p = p
    def call(self, run, args, kw):
        if len(args) != 1 or kw: raise PyRaise(Exc('TypeError'))
        run.sent.append(('send', self.p.h, args[0])); self.p.effect(run)
        return None
class ParseWith(Contract):
    'the parser gets a new handler of this object and the whole document, in whatever pieces; nothing else'
    pure = False; checkonly = True; handler = '_handler'
    def setup(self, run):
        self.m = m = MObj(run, run.prog.func(self.name).cls, self.before(run)); m.partial = True
        self.doc = run.fresh('doc', Str); self.snaps = []
        cls = m.cls; c, st = cls.find(run.prog, self.handler)
        if st is None: raise Unsupported('no handler')
        self.hname = c.qual + '.' + self.handler
        self.calls = {'parser.parser': ParserCall('parser.parser', effect=self.effect), self.hname: HandlerCall(self.hname)}
        return [m, S(self.doc)]
    def before(self, run): return {}
    def effect(self, run): pass
    def check(self, run, args, result):
        hs = [x for x in run.sent if x[0] == 'handler']; ps = [x for x in run.sent if x[0] == 'parser']; ss = [x for x in run.sent if x[0] == 'send']
        run.oblige('one handler of this object and one parser for it', len(hs) == 1 and hs[0][1] is args[0] and len(ps) == 1 and ps[0][1] is hs[0][2])
        xs = [x[2] for x in ss]
        if not all(isinstance(x, Tup) and len(x.items) == 2 for x in xs): run.oblige('the parser gets pairs', False); return
        done = [run.norm(x.items[1]) for x in xs]
        if not all(isinstance(d, bool) for d in done): raise Unsupported('done')
        run.oblige('the parser gets nothing after the end', not any(done[:-1]))
        text = cat(EMPTY_S, *[run.str_t(run.norm(x.items[0])) for x in xs])
        run.oblige('the parser gets the document', text == self.doc)
        self.result_(run, args, result)
    def result_(self, run, args, result): pass
class HandlerCall(Contract):
    def apply(self, run, f, args, kw):
        g = Gen(run, None)
        run.sent.append(('handler', args[0], g)); return g
class BuilderParse(ParseWith):
    def before(self, run): return {'_root': S(run.fresh('old_root', Val)), '_parent': S(run.fresh('old_open', Val))}
    def effect(self, run):
        self.snaps.append((self.m.content['_root'], self.m.content['_parent']))
        self.m.content = {'_root': S(run.fresh('root', Val)), '_parent': S(run.fresh('open', Val))}
        self.last = self.m.content['_root']
    def result_(self, run, args, result):
        run.oblige('starts without root and open element', all(x is None for x in self.snaps[0]))
        run.oblige('returns the root', run.toval(result) == self.last.t)
add(BuilderParse('tree.treebuilder.parse'), 'C05')
class SenderParse(ParseWith):
    def result_(self, run, args, result): run.oblige('returns None', result is None)
add(SenderParse('treeiter.sender.parse'), 'C11')
class TreeParse(Contract):
    'a new builder parses the document'
    checkonly = True
    def setup(self, run):
        self.doc = run.fresh('doc', Str); self.calls = {'tree.treebuilder.parse': self}; self.n = []
        return [S(self.doc)]
    def apply(self, run, f, args, kw):
        self.n.append(args); self.r = S(run.fresh('tree', Val)); return self.r
    def check(self, run, args, result):
        b = self.n[0][0] if self.n else None
        run.oblige('one parse by a new builder', len(self.n) == 1 and isinstance(b, MObj) and b.cls.name == 'treebuilder' and len(self.n[0]) == 2 and run.proved_same(self.n[0][1], S(self.doc)))
        run.oblige('returns what it gives', run.proved_same(result, self.r))
add(TreeParse('tree.parse'), 'C05')
# ---------------------------------------------------------------------- XML 1.0 by way of expat
LASTWORD = z3.Function('last_word', Str, Str)      # s.split()[-1]
class Words(Abs):
    's.split(): words separated by white space'
    def __init__(self, t, last=-1): self.t, self.last = t, last
    def item(self, run, i):
        if i in (-1, self.last): return S(LASTWORD(self.t))
        raise Unsupported('word')
    def unpack(self, run, n, star):
        # *rest, last = s.split(); a, b, last = s.rpartition(' ')
        if (n, star) == ((2, 0) if self.last == -1 else (3, None)): return [Abs()] * (n - 1) + [self.item(run, -1)]
        raise Unsupported('words')
class ExpatTheory(Theory):
    def strmethod(self, run, o, name, a, kw):
        # local names have no white space, and the separator is a space
        n = [run.norm(x) for x in a]
        if name in ('split', 'rsplit') and not kw and n in ([], [' '], [None]) or name == 'rsplit' and not kw and n in ([' ', 1], [None, 1]): return Words(run.str_t(o))
        if name == 'rpartition' and not kw and n == [' ']: return Words(run.str_t(o), 2)
        return Theory.strmethod(self, run, o, name, a, kw)
    def __init__(self):
        Theory.__init__(self)
        self.ATTMAP = Fold('ATTMAP', [Dict], Dict, lambda run, ps, acc, k: STORE(acc, LASTWORD(Val.s(k)), GET(ps[0], Val.s(k))))
class Callback(Contract):
    '''start: one start event with the local name, the attributes under their local names and the open ancestors, then the element is open.
    end: the element is closed, then one end event with the local name and the ancestors that remain open. characters: one event. Others: nothing.
    The ancestors in an event are a copy.'''
    pure = False; checkonly = True
    @property
    def theory(self): return ExpatTheory()
    def setup(self, run):
        m = self.m = MObj(run, run.prog.func(self.name).cls, {}); m.partial = True
        k = self.name.rsplit('.', 1)[1]
        self.open = run.fresh('open', VSeq)
        if k == 'end_element':
            i, x = run.fresh('outer', VSeq), run.fresh('last', Val); run.split(self.open, [i, unit(x)]); self.outer = i
        self.stack = LObj(run, self.open)
        m.content = {'_handler': Sink('handler'), '_elem_stack': self.stack}
        self.n = run.fresh('name', Str); self.d = run.fresh('attrs', Dict)
        if k == 'start_element': return [m, S(self.n), DObj(run, self.d)]
        if k == 'start_namespace': return [m, S(self.n), S(run.fresh('ns', Str))]
        return [m, S(self.n)]
    def folds(self, run, *a): return [('ATTMAP', lambda acc, P: run.task.theory.ATTMAP.app(run, (self.d,), acc, P) if acc.sort() == Dict else None)]
    def check(self, run, args, result):
        k = self.name.rsplit('.', 1)[1]; th = run.task.theory
        if self.m.content.get('_elem_stack') is not self.stack or self.m.content['_handler'].name != 'handler' : raise Unsupported('state of the callbacks')
        now = run.seq_t(self.stack.content)
        if k not in ('start_element', 'end_element', 'char_data'):
            run.oblige('nothing happens', z3.And(z3.BoolVal(not run.sent), now == self.open)); return
        run.oblige('one event', len(run.sent) == 1 and run.sent[0][:2] == ('send', 'handler') and len(run.sent[0]) == 3)
        ev = run.sent[0][2]; local = S(LASTWORD(self.n))
        kind = {'start_element': 'start_element', 'end_element': 'end_element', 'char_data': 'characters'}[k]
        n = {'start_element': 4, 'end_element': 3, 'char_data': 2}[k]
        ok = isinstance(ev, Tup) and len(ev.items) == n and ev.items[0] == event(kind)
        run.oblige('a %s event' % kind, ok)
        if k == 'char_data':
            run.oblige('with the characters', run.str_t(ev.items[1]) == self.n); run.oblige('the open elements stay', now == self.open); return
        run.oblige('with the local name', run.str_t(ev.items[1]) == local.t)
        anc = ev.items[-1]; run.oblige('the ancestors are a copy', isinstance(anc, LObj) and anc is not self.stack)
        want = self.open if k == 'start_element' else self.outer
        run.oblige('with the open ancestors', run.seq_t(anc.content) == want)
        run.oblige('then the open elements are', now == (cat(self.open, unit(run.toval(local))) if k == 'start_element' else self.outer))
        if k == 'start_element':
            d = ev.items[2]; run.oblige('the attributes are a mapping of its own', isinstance(d, DObj) and d is not args[2])
            run.oblige('with the attributes under their local names', run.dict_t(d) == th.ATTMAP.app(run, (self.d,), EMPTYD, run.keys(self.d)))
for f in ('start_element', 'end_element', 'char_data', 'start_namespace', 'end_namespace'): add(Callback('xml.expat_callbacks.' + f), 'C12')
class CallbackInit(Contract):
    'no element is open; the handler is primed once, if wanted'
    pure = False; checkonly = True; cases = ('prime', 'not')
    def setup(self, run):
        self.m = MObj(run, run.prog.func(self.name).cls, {}); self.h = Sink('handler')
        return [self.m, self.h] + ([] if run.task.case == 'prime' else [False])
    def check(self, run, args, result):
        c = self.m.content
        run.oblige('keeps the handler', c.get('_handler') is self.h, 'state')
        run.oblige('no element is open', isinstance(c.get('_elem_stack'), LObj) and c['_elem_stack'].content == [], 'state')
        run.oblige('the handler is primed', run.sent == ([('next', 'handler')] if run.task.case == 'prime' else []))
add(CallbackInit('xml.expat_callbacks.__init__'), 'C12')
class Expat(Abs):
    'an expat parser: calls what is set, during Parse'
    def __init__(self, c): self.c = c; self.set = {}
    def setattr(self, run, n, v): self.set[n] = v
    def attr(self, run, n):
        if n == 'Parse': return ExpatParse(self)
        if n in self.set: return self.set[n]
        raise Unsupported('expat parser: ' + n)
    def truth(self, run): return True
class ExpatParse(Abs):
    def __init__(self, p): self.p = p
    def call(self, run, args, kw):
        run.sent.append(('Parse', self.p, dict(self.p.set), list(args))); self.p.c.effect(run); return 1
class ExpatUse(ParseWith):
    'expat calls the callbacks of one new object, which has a new handler of this builder (or the one given), with names separated by blanks'
    module = False
    def setup(self, run):
        self.snaps = []; self.doc = run.fresh('source', Str)
        self.calls = {}
        if self.module: return [S(self.doc), Sink('handler')]
        a = ParseWith.setup(self, run); return a
    def ext_hook(self, run, name, args, kw):
        if name == 'xml.parsers.expat.ParserCreate':
            if args or set(kw) != {'namespace_separator'}: raise Unsupported('options of expat')
            run.oblige('names are qualified with a blank', run.norm(kw['namespace_separator']) == ' ')
            p = Expat(self); run.sent.append(('expat', p)); return p
        if name == 'next' and isinstance(args[0], Gen) and any(x[0] == 'handler' and x[2] is args[0] for x in run.sent):
            run.sent.append(('next', args[0])); return None
        return NotImplemented
    def before(self, run): return BuilderParse.before(self, run)
    effect = BuilderParse.effect
    def check(self, run, args, result):
        hs = [x for x in run.sent if x[0] == 'handler']; es = [x for x in run.sent if x[0] == 'expat']; ps = [x for x in run.sent if x[0] == 'Parse']; ns = [x for x in run.sent if x[0] == 'next']
        run.oblige('one expat parser parses once', len(es) == 1 and len(ps) == 1 and ps[0][1] is es[0][1])
        set_ = ps[0][2]; cb = None
        for ev, f in (('StartElementHandler', 'start_element'), ('EndElementHandler', 'end_element'), ('CharacterDataHandler', 'char_data')):
            v = set_.get(ev)
            run.oblige('%s is the callback %s' % (ev, f), isinstance(v, BM) and isinstance(v.obj, MObj) and v.fn.qual == 'xml.expat_callbacks.' + f and (cb is None or cb is v.obj), 'state')
            cb = v.obj
        run.oblige('no other callback than for namespaces', set(set_) <= {'StartElementHandler', 'EndElementHandler', 'CharacterDataHandler', 'StartNamespaceDeclHandler', 'EndNamespaceDeclHandler'} and all(isinstance(v, BM) and v.fn.qual in ('xml.expat_callbacks.start_namespace', 'xml.expat_callbacks.end_namespace') for e, v in set_.items() if 'Namespace' in e), 'state')
        h = cb.content.get('_handler')
        run.oblige('the callbacks have no open element', isinstance(cb.content.get('_elem_stack'), LObj) and cb.content['_elem_stack'].content == [], 'state')
        run.oblige('expat gets the source', len(ps[0][3]) in (1, 2) and run.proved_same(ps[0][3][0], S(self.doc)) )
        if self.module:
            run.oblige('the handler is the one given, primed', h is args[1] and ns == [('next', 'handler')], 'state'); return
        run.oblige('the handler is a new one of this builder, primed', len(hs) == 1 and hs[0][1] is args[0] and h is hs[0][2] and len(ns) == 1 and ns[0][1] is h, 'state')
        BuilderParse.result_(self, run, args, result)
    def effect(self, run):
        if not self.module:
            self.snaps.append((self.m.content['_root'], self.m.content['_parent']))
            self.m.content = dict(self.m.content, _root=S(run.fresh('root', Val)), _parent=S(run.fresh('open', Val)))
            self.last = self.m.content['_root']
add(ExpatUse('xml.treebuilder.parse'), 'C12')
add(ExpatUse('xml.parse', module=True), 'C12')
