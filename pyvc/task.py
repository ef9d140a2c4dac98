'''Verification of one function against its contract.'''
import time, traceback, os
import z3
from .core import *
from .interp import *
from .exec import Exec
from .theory import *

class Contract:
    '''name: dotted name below amara3.uxml. Subclasses or keyword arguments give:
    setup(run) -> list of symbolic arguments (assumes the precondition);
    spec(run, *args) -> the value returned, or for generators the sequence of what is yielded;
    requires(run, *args) -> [(label, Bool)] checked at call sites;
    measure(run, *args) -> Int term, must decrease in recursive calls.'''
    kind = 'value'; homs = (); conts = (); facts = (); pure = True; raises = ()
    cases = (None,)
    def __init__(self, name, **kw):
        self.name = name
        for k, v in kw.items(): setattr(self, k, v)
    def requires(self, run, *args): return []
    measure = None
    on_hset = None
    def setup_hook(self, run): pass
    def homs_(self, run): return self.homs(run) if callable(self.homs) else []
    def normargs(self, run, f, args, kw):
        fr = Frame(f.module); fr.env = {}
        run.bind_args(f, list(args), kw, fr)
        a = f.node.args
        return [fr.env[p.arg] for p in a.posonlyargs + a.args] + ([fr.env[a.vararg.arg]] if a.vararg else [])
    def apply(self, run, f, args, kw):
        args = self.normargs(run, f, args, kw)
        if hasattr(self, 'inline_if') and self.inline_if(run, *args):
            return run.inline(f, args, {})
        for label, g in self.requires(run, *args): run.oblige('call of %s: %s' % (self.name, label), g, 'precondition')
        cur = run.task.contract
        if self.measure is not None and cur.measure is not None and getattr(cur, 'group', cur.name) == getattr(self, 'group', self.name):
            m1, m0 = self.measure(run, *args), run.m0
            run.oblige('call of %s: measure decreases' % self.name, z3.And(m1 < m0, m0 >= 0), 'termination')
        run.task.used.add(self.name)
        return self.result(run, args)
    def result(self, run, args):
        s = self.spec(run, *args)
        if self.kind == 'gen':
            it = It(run, s)
            return it
        return s
    def check(self, run, args, result):
        s = self.spec(run, *args)
        if self.kind == 'gen':
            t = run.seq_t(result)
            run.oblige('yields', run.known(t) == s if not isinstance(s, list) else t == run.seq_t(s))
        else:
            g = run.same(result, s)
            if g is None: raise Unsupported('result %r against %r' % (result, s))
            run.oblige('returns', g)
    def check_raise(self, run, args, exc):
        run.oblige('no exception (%s)' % exc.name, False)
    def check_frame(self, run):
        for f, t in sorted(run.heap.items()):
            t0 = z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f]))
            if not t.eq(t0): run.oblige('unchanged: ' + f, t == t0, 'frame')

class Lemma(Contract):
    '''A fact about the specification functions, proved by induction: steps(run) puts out the base case and the step as obligations.
    Whoever uses the fact says so with run.task.used, so that it is proved in the same run.'''
    def func(self, prog): return Fn(None, None, qual=self.name)
    def setup(self, run): return []
    def execute(self, run, fn, args): run.task.entering = False; self.steps(run)
    def check(self, run, args, result): pass

class StepDone(Exception): pass
class Step(Contract):
    """One step of a coroutine: what happens between two places where it waits for an event. At the first yield the state of the
    contract is checked (init), then taken to be arbitrary (state); one event is received, and what holds at the next yield is checked (after).
    By induction this holds for every sequence of events."""
    kind = 'value'; restore = (); closes = False      # closes: what close() does, wherever it waits, is checked as well
    def execute(self, run, fn, args):
        if not is_gen(fn.node): raise Unsupported('not a coroutine')
        fr = Frame(fn.module, fn.frame, fn.cls, fn)
        run.task.entering = False
        run.bind_args(fn, list(args), {}, fr)
        n = [0]; self.closing = False
        def close():
            self.closing = True; self.close(run, fr, args); raise PyRaise(Exc('GeneratorExit'))
        def out(v):
            n[0] += 1
            if self.closing:
                run.oblige('close() ends the coroutine', False); raise StepDone()
            if n[0] == 1:
                self.first_yield = v
                self.init(run, fr, args)
                if self.closes and run.choose(2) == 1: close()
                loc = {x for x in fr.env if x not in [p.arg for p in fn.node.args.args]}
                run.news.clear()
                kept = self.state(run, fr, args) or ()
                for x in loc:
                    if x not in kept: fr.env[x] = UNDEF
                return self.receive(run, fr, args)
            if self.closes and run.choose(2) == 1: close()
            raise StepDone()
        fr.out = out
        try: r = run.run_body(fn, fr)
        except StepDone: return None
        except PyRaise as e:
            if not (self.closing and e.exc.name == 'GeneratorExit'): raise
        if self.closing: return None
        raise Unsupported('the coroutine ends')
    def close(self, run, fr, args): pass
    def closed(self, run, fr, args): pass
    def check(self, run, args, result): (self.closed if self.closing else self.after)(run, None, args)

KIND_CLASSES = {ELEMENT: 'tree.element', TEXT: 'tree.text', ROOT: 'uxpath.xast.root_node', ATTR: 'uxpath.xast.attribute_node'}

class Task:
    def __init__(self, prog, contracts, contract, case=None, limit_s=400):
        self.prog, self.contracts, self.contract, self.case = prog, contracts, contract, case
        self.name = contract.name + ('[%s]' % case if case is not None else '')
        self.theory = getattr(contract, 'theory', None) or Theory()
        self.limit_s = limit_s
        self.obs = []; self.obs_inv = set(); self.ninv = 0; self.inv = {}; self.solver_s = 0.0; self.queries = 0
        self.used, self.inlined = set(), set(); self.memo = {}
        self.strkinds = [TEXT]; self.heap_used = set(getattr(contract, 'heap_used', ()))
        self.check_termination = True
        self.entering = False
        self.virtual = dict(getattr(contract, 'virtual', DEFAULT_VIRTUAL))
        for h in ('on_hget', 'setattr_hook', 'field_hook', 'hasattr_hook', 'class_hook', 'ext_hook', 'globals_hook', 'while_hook', 'on_hset', 'sentinel_hook', 'listrepeat_hook', 'emptydict_hook'):
            setattr(self, h, getattr(contract, h, None))
        if self.on_hget is None: self.on_hget = tree_facts
        self.paths = 0; self.ends = 0; self.reached = 0; self.restarts = 0; self.error = None; self.sat_pre = None
    def homs(self, run): return run.homlist
    def folds(self, run): return run.foldlist
    def loopfacts(self, run): return run.factlist
    def heapinv(self, run, f, v0):
        h = getattr(self.contract, 'heapinv', None)
        return h(run, f, v0) if h else []
    def whilefacts(self, run, comps):
        out = []
        def term(run, c, key, vals):
            v = vals[key]
            if isinstance(v, z3.ExprRef): return v
            if run.listlike(v): v = v.content; v = run._try_seq(v)
            if isinstance(v, z3.ExprRef): return v
            if isinstance(v, list): return run._try_seq(v)
            if isinstance(v, Undef): return None
            if isinstance(v, (S, type(None), bool, int, str)):
                try: return run.toval(v)
                except Unsupported: return None
        seqs = [c for c in comps if c[0] == 'mut' and isinstance(c[2], LObj)]
        ws = [c for c in comps if c[0] in ('env', 'mut')]
        for gname, G in run.contlist:
            for w in ws:
                for o in seqs:
                    if w is o: continue
                    def f(e, c, w=w, o=o, G=G):
                        w0, w1 = term(run, w, (w[0], w[1]), e), term(run, w, (w[0], w[1]), c)
                        o0, o1 = term(run, o, (o[0], o[1]), e), term(run, o, (o[0], o[1]), c)
                        if any(x is None for x in (w0, w1, o0, o1)): return None
                        g0, g1 = G(w0), G(w1)
                        if g0 is None or g1 is None or g0.sort() != o0.sort(): return None
                        return cat(o1, g1) == cat(o0, g0)
                    out.append((('rel', gname, w[1], o[1]), f))
        def plain(w, vals):
            v = vals[(w[0], w[1])]
            if isinstance(v, z3.ExprRef): return v
            v = run.norm(v)
            if isinstance(v, bool): return z3.BoolVal(v)
            if isinstance(v, int): return z3.IntVal(v)
            if isinstance(v, str): return strc(v)
            if isinstance(v, S): return v.t
        for nm, F in run.wrellist:
            for w in ws:
                def f(e, c, w=w, F=F):
                    a, b = plain(w, e), plain(w, c)
                    return None if a is None or b is None else F(a, b)
                out.append((('wrel', nm, w[1]), f))
        for nm, F in run.wrellist2:
            for w in ws:
                for w2 in ws:
                    if w is w2: continue
                    def f(e, c, w=w, w2=w2, F=F):
                        a = [plain(x, y) for y in (e, c) for x in (w, w2)]
                        return None if any(x is None for x in a) else F(*a)
                    out.append((('wrel2', nm, w[1], w2[1]), f))
        for nm, F in run.wfactlist:
            for w in ws:
                def f(e, c, w=w, F=F):
                    w1 = term(run, w, (w[0], w[1]), c)
                    return None if w1 is None else F(w1)
                out.append((('wf', nm, w[1]), f))
        for nm, F in run.wfactlist2:
            for w in ws:
                for w2 in ws:
                    if w is w2: continue
                    def f(e, c, w=w, w2=w2, F=F):
                        a, b = term(run, w, (w[0], w[1]), c), term(run, w2, (w2[0], w2[1]), c)
                        return None if a is None or b is None else F(a, b)
                    out.append((('wf2', nm, w[1], w2[1]), f))
        return out
    def variants(self, run, comps):
        out = []
        ws = [c for c in comps if c[0] in ('env', 'mut')]
        for vname, V in run.variantlist:
            for w in ws:
                def f(cur, w=w, V=V):
                    v = cur[(w[0], w[1])]
                    if run.listlike(v): v = v.content
                    if isinstance(v, list): v = run._try_seq(v)
                    elif isinstance(v, (S, type(None), bool, int, str)):
                        try: v = run.toval(v)
                        except Unsupported: v = None
                    elif not isinstance(v, z3.ExprRef): v = None
                    return None if v is None else V(v)
                out.append(((vname, w[0], w[1]), f))
        return out
    def contract_for(self, f):
        c = getattr(self.contract, 'calls', {}).get(f.qual)
        if c is not None: return c
        return self.contracts.get(f.qual) if f.qual else None
    def verify(self):
        t0 = time.time()
        self.fn = self.contract.func(self.prog) if hasattr(self.contract, 'func') else self.prog.func(self.contract.name)
        if self.fn is None:
            self.error = 'not found: ' + self.contract.name; return self
        self.kinds = {}
        for k, q in (getattr(self.contract, 'kind_classes', None) or KIND_CLASSES).items():
            m, c = q.rsplit('.', 1)
            mod = self.prog.module('amara3.uxml.' + m)
            ci = self.prog.lookup(mod, c) if mod else None
            if isinstance(ci, ClassInfo): self.kinds[k] = ci
        self.strkinds = list(getattr(self.contract, 'strkinds', [TEXT]))
        try:
            while True:
                try:
                    self.obs = []; self.obs_inv = set(); self.paths = self.ends = self.reached = 0
                    self.work = [[]]
                    while self.work:
                        if time.time() - t0 > self.limit_s: raise Unsupported('time limit')
                        self.path(self.work.pop())
                        # weaker invariants do not help what fails under these (and with light, loops are not unrolled first)
                        if getattr(self.contract, 'light', False) and sum(o.status != 'discharged' for o in self.obs) >= 8: break
                    break
                except Restart:
                    self.restarts += 1
                    if self.restarts > 400: raise Unsupported('no inductive invariant found')
        except Unsupported as e:
            self.error = str(e) or 'unsupported'
            if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
        except RecursionError: self.error = 'recursion'
        except z3.Z3Exception as e:
            self.error = 'z3: %s' % e
            if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError) as e:
            self.error = 'engine: %s: %s' % (type(e).__name__, e)
            if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
        if not self.error and not self.reached: self.error = 'no path reaches the end (vacuous)'
        if not self.error and not self.obs: self.error = 'no obligations (vacuous)'
        self.wall = time.time() - t0
        return self
    def path(self, decisions):
        run = Exec(self, decisions)
        run.homlist, run.foldlist, run.factlist, run.contlist, run.variantlist, run.wfactlist, run.wfactlist2, run.wrellist, run.wrellist2 = [], [], [], [], [], [], [], [], []
        self.paths += 1
        c = self.contract
        try:
            args = c.setup(run)
            if not decisions:
                self.sat_pre = str(run.check())
                if self.sat_pre == 'unsat': raise Unsupported('the precondition is contradictory')
            run.homlist = list(c.homs(run, *args)) if callable(c.homs) else []
            if not any(n == 'ITEMS' for n, h in run.homlist): run.homlist.append(('ITEMS', lambda P: P))
            run.foldlist = list(c.folds(run, *args)) if hasattr(c, 'folds') else []
            run.factlist = list(c.facts(run, *args)) if callable(c.facts) else []
            run.contlist = list(c.conts(run, *args)) if callable(c.conts) else []
            run.variantlist = list(c.variants(run, *args)) if hasattr(c, 'variants') else [('size', lambda w: run.task.theory.SIZE.app(run, (run.harr('xml_children'),), run.known(w)) if w.sort() == VSeq else None)]
            run.wfactlist = list(c.wfacts(run, *args)) if hasattr(c, 'wfacts') else []
            run.wfactlist2 = list(c.wfacts2(run, *args)) if hasattr(c, 'wfacts2') else []
            # relations of what a variable is when a loop begins and what it is now
            run.wrellist = list(c.wrels(run, *args)) if hasattr(c, 'wrels') else []
            run.wrellist2 = list(c.wrels2(run, *args)) if hasattr(c, 'wrels2') else []
            if c.measure is not None: run.m0 = c.measure(run, *args)
            self.entering = True
            try:
                if hasattr(c, 'execute'): result = c.execute(run, self.fn, args)
                elif c.kind == 'gen' and is_gen(self.fn.node):
                    out = LObj(run, []); out.isout = True
                    self.entering = False
                    fr = Frame(self.fn.module, self.fn.frame, self.fn.cls, self.fn)
                    run.bind_args(self.fn, list(args), {}, fr)
                    fr.out = lambda v: run.append(out, v)
                    fr.outlist = out
                    run.run_body(self.fn, fr)
                    result = out.content
                else:
                    result = run.call_fn(self.fn, list(args), {})
                    if c.kind == 'gen':
                        if isinstance(result, (It, Gen)): result = run.force(result)
                        else: result = run.as_seq(result)
            except PyRaise as e:
                self.entering = False
                self.ends += 1
                if run.reachable(): self.reached += 1
                if os.environ.get('PYVC_DEBUG') and e.exc.name not in c.raises: print('RAISE', e.exc.name, getattr(e.node, 'lineno', None))
                c.check_raise(run, args, e.exc)
                return
            finally: self.entering = False
            self.ends += 1
            if run.reachable(): self.reached += 1
            c.check(run, args, result)
            if c.pure: c.check_frame(run)
        except PathEnd: pass

def tree_facts(run, f, loc, t):
    'the trees given to a function are trees: what reading a field in the state at entry tells'
    if not run._is_initial(f) or not run.heap[f].decl().name().startswith('H0_'): return
    key = ('hg', f, tid(t))
    if key in run.axdone: return
    run.axdone.add(key); run.keep.append(t)
    if f == 'xml_children':
        run.set_prov(t, lambda x: child_facts(run, loc, x))
        run.fact(z3.Implies(z3.Or(KIND(loc) == TEXT, KIND(loc) == ATTR), t == EMPTY_V))
        run.fact(HT(loc) >= 0)
    elif f == '_xml_parent':
        p = Val.l(t)
        run.fact(z3.Or(Val.is_none(t), z3.And(Val.is_ref(t), KIND(p) == ELEMENT, DP(p) < DP(loc), DP(p) >= 0, HT(p) > HT(loc), HT(loc) >= 0, BORN(p) == -1)))
        run.fact(z3.Implies(KIND(loc) == ROOT, Val.is_none(t)))
        run.fact(z3.Implies(KIND(loc) == ATTR, Val.is_ref(t)))
    elif f == '_xml_root_node':
        p = Val.l(t)
        run.fact(z3.Or(Val.is_none(t), z3.And(Val.is_ref(t), KIND(p) == ROOT, BORN(p) == -1)))
def child_facts(run, loc, x):
    l = Val.l(x)
    par = z3.Select(z3.Const('H0__xml_parent', PArr), l)
    return [Val.is_ref(x), z3.Or(KIND(l) == ELEMENT, KIND(l) == TEXT), z3.Implies(KIND(loc) == ELEMENT, par == R(loc)), z3.Implies(KIND(loc) == ROOT, z3.And(par == Val.none, KIND(l) == ELEMENT)),
        HT(l) < HT(loc), HT(l) >= 0, DP(l) > DP(loc), BORN(l) == -1]

def v_value(run, loc):
    'x.xml_value of any node is its string value (each class is checked for it)'
    if run.task.contract.name in ('tree.text.xml_value', 'uxpath.xast.attribute_node.xml_value') : return NotImplemented
    run.task.used.add('*.xml_value')
    return run.mk(run.task.theory.VALof(run, loc))
def v_children(run, loc):
    'x.xml_children: nothing below text and attributes (each class is checked for it)'
    return HList(loc)
DEFAULT_VIRTUAL = {'xml_value': v_value, 'xml_children': v_children}

def node_arg(run, name='n', kinds=None):
    l = run.fresh(name, Loc)
    run.fact(run.kind_in(l, kinds or [ELEMENT, TEXT, ROOT, ATTR])); run.fact(BORN(l) == -1); run.fact(HT(l) >= 0)
    if kinds is None or ROOT in kinds: pass
    return S(l)
