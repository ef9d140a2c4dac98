'''The symbolic executor. One Run is one path; paths are explored by replaying decision sequences.'''
import ast, time, os
import z3
from .core import *
from .core import _Ret, _Brk, _Cont

Z3_MS = int(os.environ.get('PYVC_MS', '6000'))
KIND = z3.Function('kind', Loc, Int)
SVAL = z3.Function('sval', Loc, Str)          # characters of an object that is a str
BORN = z3.Function('born', Loc, Int)          # -1: existed before the call
HAS = z3.Function('has', Dict, Str, Bool)
GET = z3.Function('get', Dict, Str, Str)
KEYS = z3.Function('keys', Dict, VSeq)
STORE = z3.Function('dstore', Dict, Str, Str, Dict)
EMPTYD = z3.Const('emptydict', Dict)
FIELD = {'xml_name': Str, 'xml_children': VSeq, 'xml_attributes': Dict, '_xml_parent': Val, '_xml_root_node': Val, 'xml_value': Str}
ELEMENT, TEXT, ROOT, ATTR = 1, 2, 3, 4

class Ob:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'exact', 'kind')
    def __init__(self, name, status, backend, t, model=None, exact=True, kind='post'):
        self.name, self.status, self.backend, self.time, self.model, self.exact, self.kind = name, status, backend, t, model, exact, kind

SEQ = {}
def has_seq(t):
    'whether the term speaks about sequences'
    r = SEQ.get(t.get_id())
    if r is None: r = SEQ[t.get_id()] = (t, z3.is_seq(t) or any(has_seq(c) for c in t.children()))
    return r[1]
class GenStop(Exception): pass
def seq_cond(fs):
    'the condition of an if-then-else of sequences in the last of the formulas which has one'
    seen = set()
    for f in reversed(fs):
        todo = [f]
        while todo:
            t = todo.pop(); i = t.get_id()
            if i in seen or not z3.is_app(t): continue
            seen.add(i)
            if t.decl().kind() == z3.Z3_OP_ITE and z3.is_seq(t): return t.arg(0)
            todo.extend(t.children())
OWN_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'index', 'count', 'copy'}
def owned(prog, fr, name):
    '''Does a list in this variable of the function never go anywhere else? Whatever is assigned to it is a list made on the spot, and it is only used
    where the list itself is not handed on: its methods, items, slices, length, concatenation, loops over it, tests of it, copies of it.'''
    fn = fr.fn.node; cache = prog.__dict__.setdefault('_owned', {}); k = (fn, name)
    if k in cache: return cache[k]
    cache[k] = False
    if not isinstance(fn, ast.FunctionDef) or name in [a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)]: return False
    builtin = lambda f: isinstance(f, ast.Name) and f.id in ('list', 'sorted', 'len', 'tuple', 'bool') and fr.find(f.id) is None and prog.lookup(fr.module, f.id) is None
    def fresh(e):
        if isinstance(e, ast.BinOp): return isinstance(e.op, ast.Add) and (fresh(e.left) or fresh(e.right) or own(e.left) or own(e.right))
        return isinstance(e, (ast.List, ast.ListComp)) or isinstance(e, ast.Call) and builtin(e.func) and e.func.id in ('list', 'sorted') or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and own(e.value)
    own = lambda e: isinstance(e, ast.Name) and e.id == name
    good = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and any(own(m) for m in ast.walk(n)): return False
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names: return False
        if isinstance(n, ast.Assign) and any(own(t) for t in n.targets):
            if len(n.targets) != 1 or not fresh(n.value): return False
            good.add(n.targets[0])
        elif isinstance(n, ast.AugAssign) and own(n.target) and isinstance(n.op, ast.Add): good.add(n.target)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and own(n.func.value) and n.func.attr in OWN_METHODS: good.add(n.func.value)
            if builtin(n.func): good.update(a for a in n.args if own(a))
        elif isinstance(n, ast.Subscript) and own(n.value): good.add(n.value)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add): good.update(e for e in (n.left, n.right) if own(e))
        elif isinstance(n, ast.Compare): good.update(e for e in [n.left] + n.comparators if own(e))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and own(n.operand): good.add(n.operand)
        elif isinstance(n, (ast.While, ast.If)) and own(n.test): good.add(n.test)
        elif isinstance(n, ast.For) and own(n.iter): good.add(n.iter)
    cache[k] = all(n in good for n in ast.walk(fn) if own(n))
    return cache[k]
class MutList(list):
    def __init__(self, run): self.run = run; self.callstack = None
    def append(self, m): m.site = tuple(self.run.callstack) + ((self.run.at,) if self.run.at else ()); list.append(self, m)

class Run:
    def __init__(self, task, decisions):
        self.task, self.prog = task, task.prog
        self.decisions, self.di, self.nreplay = decisions, 0, len(decisions)
        self.solver = z3.Solver(); self.solver.set('timeout', Z3_MS)
        # only what does not speak about sequences: decides which way a path may go, where the contract asks for that
        self.light = z3.Solver() if getattr(task.contract, 'light', False) else None
        if self.light is not None: self.light.set('timeout', Z3_MS); self.lightids = []
        self.facts = []
        self.at = None; self.mut = MutList(self); self.heap = {}
        self.homapps = {}; self.splits = {}; self.prov = {}; self.keep = []
        self.axdone = set(); self.cnt = 0; self.depth = 0; self.unf = 0
        self.exact = not task.prog.renamed(); self.nochoice = False; self.loopkeys = []
        self.news = []
        self.concs = {}
        self.loopxs = []                   # the current items of the loops that are being gone through
        self.sent = []                     # ghost: what was sent to handlers and sinks, in order
        self.callstack = []
        self.obn = 0
    # ------------------------------------------------------------------ logic
    def fresh(self, base, sort):
        self.cnt += 1
        return z3.Const('%s!%d' % (base, self.cnt), sort)
    def fact(self, t):
        if isinstance(t, bool):
            if not t: t = z3.BoolVal(False)
            else: return
        t = z3.simplify(t) if False else t
        if z3.is_true(t): return
        self.facts.append(t); self.solver.add(t)
        if self.light is not None and not has_seq(t): self.light.add(t); self.lightids.append(tid(t))
    def axiom(self, key, t):
        if key in self.axdone: return
        self.axdone.add(key); self.fact(t() if callable(t) else t)
    def check(self, *assumptions):
        t0 = time.time()
        self.solver.push()
        for a in assumptions: self.solver.add(a)
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.task.solver_s += time.time() - t0; self.task.queries += 1
        return r
    def feasible(self, c):
        if self.light is not None and not has_seq(c): return self.check_light(c) != z3.unsat
        return self.check(c) != z3.unsat
    def check_light(self, c):
        key = (tuple(self.lightids), tid(c)); r = self.task.memo.get(key)
        if r is None:
            t0 = time.time(); r = self.task.memo[key] = self.light.check(c); self.task.solver_s += time.time() - t0; self.task.queries += 1
        return r
    def branch(self, cond):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.nochoice: raise Unsupported('a choice in a specification')
        if self.di < len(self.decisions): d = self.decisions[self.di]
        else:
            st = self.feasible(c)
            sf = self.feasible(z3.Not(c))
            if not st and not sf: raise PathEnd()
            if st and sf: self.task.work.append(self.decisions[:] + [False]); d = True
            else: d = st
            self.decisions.append(d)
        self.di += 1
        self.fact(c if d else z3.Not(c))
        return d
    def choose(self, n):
        if self.di < len(self.decisions): d = self.decisions[self.di]
        else:
            for k in range(n - 1, 0, -1): self.task.work.append(self.decisions[:] + [k])
            d = 0; self.decisions.append(d)
        self.di += 1
        return d
    def entails(self, goal):
        if isinstance(goal, bool): return goal
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if self.light is not None and not has_seq(g):
            r = self.check_light(z3.Not(g))
            if r != z3.unknown: return r == z3.unsat
        if self.light is not None:
            key = (tuple(tid(f) for f in self.facts), tid(g))
            if key not in self.task.memo: self.task.memo[key] = self.prove(g)[0] == 'unsat'
            return self.task.memo[key]
        return self.prove(g)[0] == 'unsat'
    def reachable(self): return (self.check() if self.light is None else self.check_light(z3.BoolVal(True))) != z3.unsat
    def prove(self, goal):
        'unsat: proved'
        if self.light is not None and not has_seq(goal) and self.check_light(z3.Not(goal)) == z3.unsat: return 'unsat', 'z3'
        self.solver.set('timeout', min(Z3_MS, 1500))
        r = self.check(z3.Not(goal))
        self.solver.set('timeout', Z3_MS)
        if r == z3.unsat: return 'unsat', 'z3'
        m = self.last_model
        if r == z3.unknown:
            # by cases of the conditions in terms for sequences, each of which is easier
            t0 = time.time(); r = self.by_cases(self.facts + [z3.Not(goal)], t0 + 4 * Z3_MS / 1000.0, 10); self.task.solver_s += time.time() - t0
            if r == z3.unsat: return 'unsat', 'z3'
        # a second opinion, not incremental; when there is none, again with other choices in the search
        unknown = r == z3.unknown
        for seed in (0, 7, 23, 101):
            s = z3.Solver(); s.set('timeout', Z3_MS if seed == 0 else Z3_MS // 2)
            if seed: s.set('random_seed', seed)
            s.add(*self.facts); s.add(z3.Not(goal))
            t0 = time.time(); r2 = s.check(); self.task.solver_s += time.time() - t0; self.task.queries += 1
            if r2 == z3.unsat: return 'unsat', 'z3'
            if r2 == z3.sat or not unknown: break
        if r == z3.unknown and r2 == z3.unknown: return 'unknown', None
        return 'sat', m if m is not None else (s.model() if r2 == z3.sat else None)
    def by_cases(self, fs, until, depth):
        c = seq_cond(fs) if depth else None
        s = z3.Solver(); s.set('timeout', Z3_MS if c is None else 250); s.add(*fs); self.task.queries += 1
        r = s.check()
        if r != z3.unknown or c is None: return r
        if time.time() > until: return z3.unknown
        for v in (True, False):
            g = [z3.simplify(z3.substitute(f, (c, z3.BoolVal(v)))) for f in fs] + [c if v else z3.Not(c)]
            r = self.by_cases(g, until, depth - 1)
            if r != z3.unsat: return r
        return z3.unsat
    def oblige(self, label, goal, kind='post'):
        self.obn += 1
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.di < self.nreplay:           # checked when the prefix was first executed
            self.fact(goal); return True
        name = '%s#%s/%s' % (self.task.name, '.'.join(str(int(d)) for d in self.decisions[:self.di]) or '-', label)
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g): st, be = 'unsat', 'simplifier'
        else: st, be = self.prove(g)
        ok = st == 'unsat'
        ex = self.exact and not ok and st == 'sat'
        if kind in ('termination', 'state'): ex = False     # another measure, another representation of the state may do
        if ex:
            from .theory import confirm
            ex = confirm(self, goal)
        self.task.obs.append(Ob(name, 'discharged' if ok else ('refuted' if st == 'sat' else 'unknown'), be if ok else None, time.time() - t0, None if ok or be is None else self.show_model(be), ex, kind))
        if not ok and os.environ.get('PYVC_DEBUG'):
            print('FAILED', name, st); print('  goal', g)
            for f in self.facts[-60:]: print('   |', str(f)[:400].replace('\n', ' '))
        if ok: self.fact(goal)
        return ok
    def show_model(self, m):
        try: return '; '.join(sorted('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:80]) for d in m.decls())[:40])
        except Exception: return None
    # ------------------------------------------------------------------ sequences and homomorphisms
    def note_app(self, hom, params, t):
        lst = self.homapps.setdefault(tid(t), [])
        key = (hom, tuple(tid(p) for p in params))
        for k, _, _ in lst:
            if k == key: return
        self.keep.append(t); self.keep.extend(params)
        lst.append((key, hom, params))
        sp = self.splits.get(tid(t))
        if sp is not None: self._split_eq(hom, params, t, sp)
    def _split_eq(self, hom, params, t, parts):
        v = hom.app(self, params, parts if isinstance(parts, z3.ExprRef) else cat(*parts))
        u = hom.uf(params, t)
        self.fact(u == v)
        if hom.name == 'REV' and tid(u) not in self.splits:      # what is said of the reversed sequence is known piece by piece, too
            self.keep.extend([u, v]); self.splits[tid(u)] = v
            for key, hom2, params2 in list(self.homapps.get(tid(u), [])): self._split_eq(hom2, params2, u, v)
    def split(self, t, parts):
        'assume t == parts, for an opaque t'
        self.keep.append(t); self.keep.extend(parts)
        c = cat(*parts) if parts else z3.Empty(t.sort())
        self.fact(t == c)
        self.splits[tid(t)] = c
        for key, hom, params in list(self.homapps.get(tid(t), [])): self._split_eq(hom, params, t, c)
        pv = self.prov.get(tid(t))
        if pv:
            for p in parts:
                if is_unit(p):
                    for f in pv(p.arg(0)): self.fact(f)
                else: self.prov[tid(p)] = pv
    def known(self, t):
        'the term with what is known about the shape of its opaque parts put in'
        ps = []
        for p in parts_of(t):
            c = self.splits.get(tid(p))
            if c is not None: ps.extend(parts_of(self.known(c)))
            else: ps.append(p)
        return cat(*ps) if ps else z3.Empty(t.sort())
    def set_prov(self, t, f):
        if len(parts_of(t)) == 1 and not is_unit(t): self.keep.append(t); self.prov[tid(t)] = f
    def nonempty(self, t):
        'decide whether t is empty, without looking at what is in it'
        t = self.known(t)
        ps = parts_of(t)
        if any(is_unit(p) for p in ps): return True
        for p in ps:
            if self.branch(z3.Length(p) > 0): return True
            self.split(p, [])
        return False
    def uncons(self, t):
        'nonempty?: (head, tail) or None, deciding which'
        t = self.known(t)
        ps = parts_of(t)
        if not ps: return None
        p = ps[0]
        if is_unit(p): return p.arg(0), (cat(*ps[1:]) if len(ps) > 1 else z3.Empty(t.sort()))
        if self.branch(z3.Length(p) > 0):
            h, r = self.fresh('h', t.sort().basis() if hasattr(t.sort(), 'basis') else Val), self.fresh('tl', t.sort())
            self.split(p, [z3.Unit(h), r])
            return h, cat(r, *ps[1:])
        self.split(p, [])
        return self.uncons(cat(*ps[1:]) if len(ps) > 1 else z3.Empty(t.sort()))
    # ------------------------------------------------------------------ values
    def norm(self, v):
        'python value or S, unwrapped as far as its term shows'
        if isinstance(v, S):
            t = v.t
            if t.sort() == Val and z3.is_app(t):
                n = t.decl().name()
                if n == 'none' and t.num_args() == 0: return None
                if n in ('boolv', 'intv', 'strv'): return self.norm(S(t.arg(0)))
                if n == 'fltv': return S(t.arg(0))
            elif t.sort() == Bool:
                if z3.is_true(t): return True
                if z3.is_false(t): return False
            elif t.sort() == Int and z3.is_int_value(t): return t.as_long()
            elif t.sort() == Str:
                c = const_str(t)
                if c is not None: return c
        return v
    def mk(self, t): return self.norm(S(t))
    def toval(self, v):
        v = self.norm(v)
        if v is None: return Val.none
        if isinstance(v, bool): return Val.boolv(z3.BoolVal(v))
        if isinstance(v, int): return Val.intv(z3.IntVal(v))
        if isinstance(v, str): return Val.strv(strc(v))
        if isinstance(v, S):
            s = v.t.sort()
            if s == Val: return v.t
            if s == Bool: return Val.boolv(v.t)
            if s == Int: return Val.intv(v.t)
            if s == Str: return Val.strv(v.t)
            if s == Loc: return Val.ref(v.t)
            if s == Flt: return Val.fltv(v.t)
        if isinstance(v, Weak): return self.toval(v.v)
        if isinstance(v, Tup) and len(v.items) == 2 and all(self.sortof(x) == 'int' for x in v.items): return Val.pairv(*[self.int_t(x) for x in v.items])
        if isinstance(v, Abs) and hasattr(v, 'toval'): return v.toval(self)
        raise Unsupported('no term for %r' % (v,))
    def isloc(self, v): return isinstance(v, S) and (v.t.sort() == Loc or (v.t.sort() == Val and z3.is_app(v.t) and v.t.decl().name() == 'ref'))
    def loc(self, v):
        if isinstance(v, S):
            if v.t.sort() == Loc: return v.t
            if v.t.sort() == Val:
                if z3.is_app(v.t) and v.t.decl().name() == 'ref': return v.t.arg(0)
                return Val.l(v.t)
        raise Unsupported('not an object: %r' % (v,))
    def concretize(self, v):
        'a Val of unknown constructor: decide which'
        v = self.norm(v)
        if not (isinstance(v, S) and v.t.sort() == Val): return v
        t = v.t
        if z3.is_app(t) and t.decl().name() == 'ref': return S(t.arg(0))
        k = tid(t)
        if k not in self.concs: self.concs[k] = self._concretize(t)
        return self.concs[k]
    def _concretize(self, t):
        if self.branch(Val.is_ref(t)): return S(Val.l(t))
        if self.branch(Val.is_strv(t)): return self.mk(Val.s(t))
        if self.branch(Val.is_none(t)): return None
        if self.branch(Val.is_boolv(t)): return self.mk(Val.b(t))
        if self.branch(Val.is_intv(t)): return self.mk(Val.i(t))
        if self.branch(Val.is_fltv(t)): return S(Val.f(t))
        if self.branch(Val.is_pairv(t)): return Tup([self.mk(Val.p0(t)), self.mk(Val.p1(t))])
        raise Unsupported('opaque value')
    def str_t(self, v):
        'Str term of a string value'
        v = self.norm(v)
        if isinstance(v, str): return strc(v)
        if isinstance(v, S):
            if v.t.sort() == Str: return v.t
            if v.t.sort() == Val:
                w = self.concretize(v)
                return self.str_t(w)
            if v.t.sort() == Loc:
                if self.branch(self.kind_in(v.t, self.task.strkinds)): return SVAL(v.t)
                raise PyRaise(Exc('TypeError'))
        if isinstance(v, Abs) and hasattr(v, 'str_t'): return v.str_t(self)
        raise Unsupported('not a string: %r' % (v,))
    def int_t(self, v):
        v = self.norm(v)
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, S):
            if v.t.sort() == Int: return v.t
            if v.t.sort() == Bool: return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.t.sort() == Val:
                w = self.concretize(v)
                if w is None: raise PyRaise(Exc('TypeError'))
                return self.int_t(w)
        raise Unsupported('not an int: %r' % (v,))
    def kind_in(self, loc, kinds): return z3.Or(*[KIND(loc) == k for k in kinds]) if kinds else z3.BoolVal(False)
    def truth(self, v):
        v = self.norm(v)
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, (int, str)): return bool(v)
        if isinstance(v, S):
            s = v.t.sort()
            if s == Bool: return self.branch(v.t)
            if s == Int: return self.branch(v.t != 0)
            if s == Str: return self.branch(z3.Length(v.t) > 0)
            if s == Val: return self.truth(self.concretize(v))
            if s == Loc:
                for c in self.task.kinds.values():
                    if any(c.find(self.prog, n)[0] for n in ('__bool__', '__len__')): raise Unsupported('__bool__ of nodes')
                return self.branch(z3.Or(z3.Not(self.kind_in(v.t, self.task.strkinds)), z3.Length(SVAL(v.t)) > 0))
            if s == Flt:
                return not self.branch(z3.fpIsZero(v.t))
        if isinstance(v, (LObj, HList)):
            c = self.content(v)
            if isinstance(c, list): return bool(c)
            if z3.is_app(c) and any(is_unit(p) for p in parts_of(c)): return True
            return self.uncons(c) is not None
        if isinstance(v, DObj):
            c = v.content
            if isinstance(c, dict): return bool(c)
            return self.nonempty(self.keys(c))
        if isinstance(v, Tup): return bool(v.items)
        if isinstance(v, HDict): return self.nonempty(self.keys(self.hget('xml_attributes', v.loc)))
        if isinstance(v, Abs):
            if hasattr(v, 'truth'): return v.truth(self)
            return True
        if isinstance(v, MObj):
            if v.cls and any(v.cls.find(self.prog, n)[0] for n in ('__bool__', '__len__')): raise Unsupported('__bool__')
            return True
        if isinstance(v, (Fn, BM, Weak, EnumM, ClassInfo, Sentinel, Ext, Gen, It, Exc)): return True
        raise Unsupported('truth of %r' % (v,))
    # ------------------------------------------------------------------ heap
    def harr(self, f):
        if f not in self.heap:
            self.heap[f] = z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f]))
        return self.heap[f]
    def hget(self, f, loc):
        t = z3.simplify(z3.Select(self.harr(f), loc)) if not self._is_initial(f) else z3.Select(self.harr(f), loc)
        hook = self.task.on_hget
        if hook: hook(self, f, loc, t)
        return t
    def _is_initial(self, f): return z3.is_const(self.harr(f))
    def hset(self, f, loc, t):
        self.heap[f] = z3.Store(self.harr(f), loc, t)
        hook = getattr(self.task, 'on_hset', None)
        if hook: hook(self, f, loc, t)
    def children(self, loc): return self.hget('xml_children', loc)
    def content(self, v):
        if isinstance(v, LObj): return v.content
        if isinstance(v, HList): return self.children(v.loc)
        raise Unsupported('content of %r' % (v,))
    def set_content(self, v, c):
        if isinstance(v, LObj):
            if getattr(v, 'frozen', False): raise Unsupported('a list that became part of a node is changed')
            v.content = c
        else: self.hset('xml_children', v.loc, self.seq_t(c))
    def seq_t(self, c):
        'VSeq term of list content'
        if isinstance(c, list): return cat(*[unit(self.toval(x)) for x in c]) if c else EMPTY_V
        return c
    def as_seq(self, v):
        'VSeq term of any list-like value'
        if isinstance(v, (LObj, HList)): return self.seq_t(self.content(v))
        if isinstance(v, Tup): return self.seq_t(v.items)
        if isinstance(v, (It, Gen)): return self.seq_t(self.force(v))
        if isinstance(v, Abs) and hasattr(v, 'as_seq'): return v.as_seq(self)
        raise Unsupported('not a sequence: %r' % (v,))
    def new_loc(self, kind, base='new'):
        l = self.fresh(base, Loc)
        self.alloc = getattr(self, 'alloc', 0) + 1
        self.fact(BORN(l) == self.alloc); self.fact(KIND(l) == kind)
        self.news.append(l)
        return l
    def dict_t(self, v):
        if isinstance(v, HDict): return self.hget('xml_attributes', v.loc)
        if isinstance(v, DObj):
            if isinstance(v.content, dict):
                d = EMPTYD
                self.axiom('emptyd', KEYS(EMPTYD) == EMPTY_V)
                for k, x in v.content.items():
                    d = self.dstore(d, self.str_t(k), self.str_t(x))
                return d
            return v.content
        if isinstance(v, S) and v.t.sort() == Dict: return v.t
        if isinstance(v, Abs) and hasattr(v, 'dict_t'): return v.dict_t(self)
        raise Unsupported('not a dict: %r' % (v,))
    def _dict_term(self, c):
        self.axiom('emptyd', KEYS(EMPTYD) == EMPTY_V)
        d = EMPTYD
        try:
            for k, x in c.items(): d = self.dstore(d, self.str_t(k), self.str_t(x))
        except Unsupported: return None
        return d
    def dstore(self, d, k, x):
        n = STORE(d, k, x)
        return n
    # ------------------------------------------------------------------ iteration
    def iter_src(self, v):
        'python list, or Src'
        v = self.norm(v)
        if isinstance(v, S) and v.t.sort() == Val: v = self.concretize(v)
        if isinstance(v, (LObj, HList)):
            c = self.content(v)
            return list(c) if isinstance(c, list) else self.src(c, getattr(v, 'conv', None))
        if isinstance(v, Tup): return list(v.items)
        if isinstance(v, str): return list(v)
        if isinstance(v, It):
            c, v.content = v.content, EMPTY_V if not isinstance(v.content, list) else []
            return list(c) if isinstance(c, list) else self.src(c, v.conv)
        if isinstance(v, DObj) and isinstance(v.content, dict): return list(v.content)
        if isinstance(v, (DObj, HDict)): return self.src(self.keys(self.dict_t(v)))
        if isinstance(v, Abs) and hasattr(v, 'iter_src'): return v.iter_src(self)
        if isinstance(v, list): return v
        if isinstance(v, Src): return v
        raise Unsupported('iteration over %r' % (v,))
    def keys(self, d):
        t = KEYS(d)
        if tid(t) not in self.prov: self.set_prov(t, lambda x, d=d: [Val.is_strv(x), HAS(d, Val.s(x))])
        return t
    def src(self, t, conv=None):
        t = self.known(t)
        ps = parts_of(t)
        conv = conv or (lambda x, i: self.fromval(x))
        if all(is_unit(p) for p in ps): return [conv(p.arg(0), z3.IntVal(i)) for i, p in enumerate(ps)]
        return Src(t, conv)
    def fromval(self, x):
        v = self.mk(x)
        if isinstance(v, S) and v.t.sort() == Val and z3.is_app(v.t) and v.t.decl().name() == 'ref': return v
        return v
    def force(self, v):
        'content (list or VSeq term) of an iterator or generator, which is used up'
        if isinstance(v, It):
            c = v.content; v.content = [] if isinstance(c, list) else EMPTY_V
            if v.conv is not None and not isinstance(c, list): raise Unsupported('converted iterator forced')
            return c
        if isinstance(v, Gen):
            if v.content is None:
                buf = LObj(self, []); buf.isout = True
                v.content = 'running'
                v.loop(lambda x: self.append(buf, x))
                v.content = It(self, [])
                return buf.content
            if v.content == 'running': raise Unsupported('generator reentered')
            return self.force(v.content)
        raise Unsupported('force %r' % (v,))
    def append(self, lst, x):
        c = self.content(lst)
        if isinstance(c, list): self.set_content(lst, c + [x])
        else: self.set_content(lst, cat(c, unit(self.toval(x))))
    def extend(self, lst, c2):
        c = self.content(lst)
        if isinstance(c, list) and isinstance(c2, list): self.set_content(lst, c + c2)
        else: self.set_content(lst, cat(self.seq_t(c), self.seq_t(c2)))
    def iterate(self, v, cb, key, fr=None, assigned=()):
        "runs cb for each item; returns 'break' or 'done'"
        v = self.norm(v)
        if isinstance(v, Gen):
            if v.content is None:
                v.content = It(self, [])
                try: v.loop(self._gencb(cb)); return 'done'
                except GenStop: return 'break'
            return self.iterate(v.content, cb, key, fr, assigned)
        if isinstance(v, Abs) and hasattr(v, 'loop'): return v.loop(self, cb, fr, assigned)
        if isinstance(v, (HList, LObj)):
            # changing a list while going through it is out of reach
            def live(x, cb=cb):
                c0 = self.content(v)
                try: cb(x)
                except _Cont: pass
                c1 = self.content(v)
                if c1 is not c0 and not self.proved_same(c0, c1): raise Unsupported('a list is changed in a loop over it')
            return self.loop(self.iter_src(v), live, key, fr, assigned)
        return self.loop(self.iter_src(v), cb, key, fr, assigned)
    def _gencb(self, cb):
        def f(x):
            try: cb(x)
            except _Cont: pass
            except _Brk: raise GenStop()
        return f
    def mutables(self): return list(self.mut)
    def components(self, fr, assigned):
        comps = []
        for n in sorted(assigned):
            f = fr.find(n) if fr else None
            if f is None or isinstance(f.env.get(n), Undef):
                comps.append(('undef', n, fr, UNDEF)); continue
            comps.append(('env', n, f, f.env[n]))
        # a stable name on every path: where it was made, counted from the newest
        cnt = {}; names = []
        for m in reversed(self.mut):
            k = (m.site, type(m).__name__); cnt[k] = cnt.get(k, -1) + 1; names.append(k + (cnt[k],))
        for i, m in zip(names[::-1], self.mut):
            if isinstance(m, MObj):
                for k in sorted(m.content): comps.append(('fld', (i, k), (m, k), m.content[k]))
            else: comps.append(('mut', i, m, self._snap(m)))
        for f in sorted(FIELD):
            if f in self.heap or f in self.task.heap_used:
                comps.append(('heap', f, None, self.harr(f)))
        comps.append(('sent', 0, None, list(self.sent)))
        return comps
    def all_components(self, comps):
        'a field that is first written in the body of a loop is part of its state as well'
        have = {c[1] for c in comps if c[0] == 'heap'}
        new = [f for f, t in self.heap.items() if f not in have and not t.eq(z3.Const('H0_' + f, z3.ArraySort(Loc, FIELD[f])))]
        if new: self.task.heap_used.update(new); raise Restart()
    def shape(self, n=None): return [tuple(sorted(m.content)) if isinstance(m, MObj) else None for m in self.mut[:n]]
    def _snap(self, m):
        c = m.content
        if isinstance(c, list): return list(c)
        if isinstance(c, dict): return dict(c)
        return c
    def cget(self, c):
        k, n, o, _ = c
        if k == 'env': return o.env.get(n, UNDEF)
        if k == 'undef': return o.env.get(n, UNDEF)
        if k == 'mut': return o.content
        if k == 'fld': return o[0].content.get(o[1], UNDEF)
        if k == 'heap': return self.harr(n)
        if k == 'sent': return list(self.sent)
    def cset(self, c, v):
        k, n, o, _ = c
        if k in ('env', 'undef'): o.env[n] = v
        elif k == 'fld': o[0].content[o[1]] = v
        elif k == 'mut':
            o.content = v
            if isinstance(v, list): o.content = list(v)
            elif isinstance(v, dict): o.content = dict(v)
        elif k == 'heap': self.heap[n] = v
        elif k == 'sent': self.sent = list(v)
    def same(self, a, b):
        'Bool term (or bool) saying that two component values are equal; None: not comparable'
        if a is b: return True
        if isinstance(a, Undef) or isinstance(b, Undef): return None
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            if isinstance(a, list): a = self._try_seq(a)
            if isinstance(b, list): b = self._try_seq(b)
            if isinstance(a, dict): a = self._dict_term(a)
            if isinstance(b, dict): b = self._dict_term(b)
            if a is None or b is None or isinstance(a, (dict, It)) or isinstance(b, (dict, It)): return None
            if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)): return None
            if a.sort() != b.sort(): return None
            return a == b
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b): return False
            return self._conj([self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b): return False
            return self._conj([self.same(a[k], b[k]) for k in a])
        if isinstance(a, (S, int, str, bool, type(None))) and isinstance(b, (S, int, str, bool, type(None))):
            x, y = self.norm(a), self.norm(b)
            if not isinstance(x, S) and not isinstance(y, S): return type(x) == type(y) and x == y
            tx, ty = self.toval(x), self.toval(y)
            return tx == ty
        if isinstance(a, Tup) and isinstance(b, Tup): return self.same(a.items, b.items)
        if isinstance(a, (EnumM, Sentinel)) and isinstance(b, (EnumM, Sentinel)): return a == b
        if isinstance(a, Weak) and isinstance(b, Weak): return self.same(a.v, b.v)
        if self.listlike(a) and type(a) is type(b) and self.listlike(b): return self.same(a.content, b.content)
        if isinstance(a, MObj) and isinstance(b, MObj) and a.cls is b.cls: return self.same(a.content, b.content)
        if isinstance(a, Abs) and hasattr(a, 'same'): return a.same(self, b)
        return None
    def listlike(self, v): return type(v) in (LObj, It) and getattr(v, 'conv', None) is None
    def mklist(self, v0, t, comp=None):
        'a list or iterator with this content. Where it is not known whether somebody else has the list too, it is not to be changed'
        v = type(v0)(self, t)
        if isinstance(v, LObj) and comp and comp[2].fn is not None and owned(self.prog, comp[2], comp[1]) and not getattr(v0, 'frozen', False): v.site = ('own', comp[1])
        elif isinstance(v, LObj):
            v.frozen = True
            if v in self.mut: self.mut.remove(v)
        return v
    def _try_seq(self, c):
        try: return self.seq_t(c)
        except Unsupported: return None
    def _conj(self, l):
        if any(x is None for x in l): return None
        if any(x is False for x in l): return False
        l = [x for x in l if x is not True]
        return z3.And(*l) if l else True
    def proved_same(self, a, b):
        g = self.same(a, b)
        if g is None or g is False: return False
        return g is True or self.entails(g)
    def cands(self, comp):
        'candidate invariants for a component of the state, strongest first'
        kind, n, o, v0 = comp
        if kind == 'undef': return [('havoc',)]
        out = [('same',)]
        if kind == 'sent': return out
        t0 = None
        if isinstance(v0, z3.ExprRef): t0 = v0
        elif isinstance(v0, list): t0 = self._try_seq(v0)
        elif kind in ('env', 'fld'):
            w = self.norm(v0)
            if isinstance(w, bool): t0 = z3.BoolVal(w)
            elif isinstance(w, int): t0 = z3.IntVal(w)
            elif isinstance(w, str): t0 = strc(w)
            elif isinstance(w, S): t0 = w.t
            elif w is None: t0 = Val.none
            elif isinstance(w, Abs) and hasattr(w, 'rewrap'): t0 = w.toval(self)
            elif kind == 'env' and self.listlike(w): t0 = self._try_seq(w.content)
        elif isinstance(v0, dict) and isinstance(o, DObj): t0 = self._try_dict(o)
        if t0 is not None and kind != 'heap':
            so = t0.sort()
            for name, h in self.task.homs(self):
                try: e = h(z3.Empty(VSeq))
                except Unsupported: continue
                if e.sort() == so and so in (VSeq, Str): out.append(('hom', name, h, t0))
                elif e.sort() == so == Int: out.append(('ihom', name, h, t0))
                elif e.sort() == so == Bool: out.append(('bhom', name, h, t0))
                elif e.sort() == Str and so == VSeq: out.append(('view', name, h, t0))
            if so == VSeq and (kind == 'mut' and isinstance(o, LObj) or kind == 'env'):
                for name, f in getattr(self.task.contract, 'listinv', lambda run: [])(self): out.append(('linv', name, f, t0))
            for name, f in self.task.folds(self):
                try: e = f(t0, z3.Empty(VSeq))
                except Unsupported: continue
                if e is not None and e.sort() == so: out.append(('fold', name, f, t0))
            if so == Int: out.append(('count', t0))
        if kind == 'heap':
            for name, f in self.task.heapinv(self, n, v0): out.append(('heapf', name, f))
        out.append(('havoc',))
        return out
    def _try_dict(self, o):
        try: return self.dict_t(o)
        except Unsupported: return None
    def cand_make(self, c, comp, P, tag):
        'value of the component under candidate c, when the prefix P has been processed'
        k = c[0]; v0 = comp[3]
        wrap = (lambda t: self.mk(t)) if comp[0] in ('env', 'undef', 'fld') else (lambda t: t)
        if comp[0] == 'env' and self.listlike(v0): wrap = lambda t: self.mklist(v0, t, comp)
        if hasattr(v0, 'rewrap'): wrap = lambda t: v0.rewrap(self, t)
        if k == 'same': return v0
        if k == 'hom': return wrap(cat(c[3], c[2](P)))
        if k == 'ihom': return wrap(c[3] + c[2](P))
        if k == 'bhom': return wrap(z3.Or(c[3], c[2](P)))
        if k == 'fold': return wrap(c[2](c[3], P))
        if k == 'count': return wrap(c[1] + z3.Length(P))
        if k == 'view':
            L = self.fresh('lst', VSeq)
            J = self.task.theory.JOIN
            self.fact(J.app(self, (), L) == cat(J.app(self, (), c[3]), c[2](P)))
            return wrap(L)
        if k == 'heapf':
            A = self.fresh('H_' + comp[1], z3.ArraySort(Loc, FIELD[comp[1]]))
            for f in c[2](self, comp[3], A, P): self.fact(f)
            if hasattr(c[2], 'onmake'): c[2].onmake(self, comp[3], A, P)
            return A
        if k == 'linv':
            L = self.fresh('lst', VSeq)
            for f in c[2](self, c[3], L, P): self.fact(f)
            return wrap(L)
        if k == 'havoc':
            if comp[0] == 'undef': return UNDEF
            return self.havoc_like(comp)
    def havoc_like(self, comp):
        v0 = comp[3]
        self.weak = True
        if comp[0] == 'heap': return self.fresh('H_' + comp[1], v0.sort())
        if isinstance(v0, z3.ExprRef): return self.fresh('hv', v0.sort())
        if isinstance(v0, list) and comp[0] == 'mut' and isinstance(comp[2], (LObj, It)): return self.fresh('hv', VSeq)
        if comp[0] == 'env' and self.listlike(v0) and self._try_seq(v0.content) is not None: return self.mklist(v0, self.fresh('hv', VSeq), comp)
        if comp[0] == 'env' and isinstance(v0, (Abs, Fn, BM, Mut, Tup)) and not hasattr(v0, 'rewrap'): return UNDEF      # using it again is out of reach
        if comp[0] in ('env', 'fld'):
            w = self.norm(v0)
            if isinstance(w, bool): return S(self.fresh('hv', Bool))
            if isinstance(w, int): return S(self.fresh('hv', Int))
            if isinstance(w, str): return S(self.fresh('hv', Str))
            if isinstance(w, S):
                return S(self.fresh('hv', w.t.sort() if w.t.sort() != Loc else Val))
            if w is None: return S(self.fresh('hv', Val))
        raise Unsupported('loop changes %s' % (comp[1],))
    def cand_check(self, c, comp, val, P):
        k = c[0]
        if k == 'havoc':
            if comp[0] == 'undef': return True
            v0 = comp[3]
            if comp[0] == 'env' and self.listlike(v0) and self._try_seq(v0.content) is not None: return type(val) is type(v0) and self.listlike(val) and self._try_seq(val.content) is not None
            if comp[0] == 'env' and isinstance(v0, (Abs, Fn, BM, Mut, Tup)) and not hasattr(v0, 'rewrap'): return True
            try:
                if comp[0] in ('env', 'fld'):
                    w = self.norm(v0); x = self.norm(val)
                    tx = self.toval(x)
                    if isinstance(w, S) and w.t.sort() == Val or w is None or (isinstance(w, S) and w.t.sort() == Loc): return True
                    ok = {bool: Val.is_boolv, int: Val.is_intv, str: Val.is_strv}
                    f = ok[type(w)] if type(w) in ok else {Int: Val.is_intv, Str: Val.is_strv, Bool: Val.is_boolv}.get(w.t.sort())
                    return f is not None and self.entails(f(tx))
                if isinstance(val, list): self.seq_t(val)
            except Unsupported: return False
            return True
        if k == 'view':
            J = self.task.theory.JOIN
            t = self._try_seq(val.content) if self.listlike(val) else self._try_seq(val) if isinstance(val, list) else val
            return t is not None and self.entails(J.app(self, (), t) == cat(J.app(self, (), c[3]), c[2](P)))
        if k == 'linv':
            t = self._try_seq(val.content) if self.listlike(val) else self._try_seq(val) if isinstance(val, list) else val
            return t is not None and all(self.entails(f) for f in c[2](self, c[3], t, P))
        if k == 'heapf':
            return all(self.entails(f) for f in c[2](self, comp[3], val, P))
        return self.proved_same(val, self.cand_make(c, comp, P, ''))
    def loop(self, src, cb, key, fr=None, assigned=()):
        if isinstance(src, list):
            for x in src:
                try: cb(x)
                except _Cont: pass
                except _Brk: return 'break'
            return 'done'
        ps = parts_of(self.known(src.term))
        if len(ps) > 1:
            # piece by piece: what is known about the shape is followed, the rest is done by invariants
            off = z3.IntVal(0)
            for k, p in enumerate(ps):
                if is_unit(p):
                    self.loopxs.append(p.arg(0))
                    try: cb(src.conv(p.arg(0), z3.simplify(off)))
                    except _Cont: pass
                    except _Brk: return 'break'
                    finally: self.loopxs.pop()
                    off = off + 1
                else:
                    if self.loop(Src(p, lambda x, i, off=off: src.conv(x, z3.simplify(off + i))), cb, (key, k), fr, assigned) == 'break': return 'break'
                    off = off + z3.Length(p)
            return 'done'
        if not ps: return 'done'
        src = Src(ps[0], src.conv)
        key = (key,) + tuple(self.callstack)
        St = src.term
        comps = self.components(fr, assigned)
        table = self.task.inv.setdefault(key, {})
        cs = []
        for c in comps:
            cl = self.cands(c)
            if isinstance(key[0], tuple) and key[0][0] == 'yf': cl.sort(key=lambda cd: not (cd[0] == 'same' or cd[0] == 'hom' and cd[1] == 'ITEMS'))
            i = table.get((c[0], c[1]), 0)
            if i >= len(cl): raise Unsupported('no invariant for %s' % (c[1],))
            cs.append(cl[i])
        def drop(c):
            table[(c[0], c[1])] = table.get((c[0], c[1]), 0) + 1
            if os.environ.get('PYVC_DEBUG') == '2': print('drop', key, c[0], c[1], table[(c[0], c[1])])
            raise Restart()
        if table.get('peel'):
            # the first turn by itself: what it changes stays the same afterwards
            r = self.uncons(St)
            if r is None: return 'done'
            self.loopxs.append(r[0])
            try: cb(src.conv(r[0], z3.IntVal(0)))
            except _Cont: pass
            except _Brk: return 'break'
            finally: self.loopxs.pop()
            return self.loop(Src(r[1], lambda x, i: src.conv(x, z3.simplify(i + 1))), cb, (key, 'rest'), fr, assigned)
        for c, cd in zip(comps, cs):
            if cd[0] == 'havoc' and c[0] == 'env':
                try: self.havoc_like(c)
                except Unsupported:
                    if isinstance(key[0], tuple) and 'rest' in key[0]: raise
                    table['peel'] = 1; raise Restart()
        facts = [f for f in self.task.loopfacts(self) if not table.get(('fact', f[0]))]
        mutn = len(self.mut)
        if self.choose(2) == 0:
            if self.di >= self.nreplay or True:
                for c, cd in zip(comps, cs):
                    if cd[0] not in ('same', 'havoc') and not self.cand_check(cd, c, c[3], z3.Empty(VSeq)): drop(c)
            P, x, R = self.fresh('P', VSeq), self.fresh('x', Val), self.fresh('R', VSeq)
            ps = parts_of(St)
            self.split_loop(St, P, x, R)
            for c, cd in zip(comps, cs): self.cset(c, self.cand_make(cd, c, P, 'h'))
            for n, f in facts: self.fact(f(P))
            i = z3.Length(P)
            self.depth += 1; shape = self.shape(); self.loopxs.append(x)
            try: cb(src.conv(x, i))
            except _Cont: pass
            except _Brk:
                self.depth -= 1
                for n in assigned:
                    pass
                return 'break'
            finally: self.loopxs.pop()
            if self.shape(len(shape)) != shape: raise Unsupported('a field is made or removed in a loop')
            self.all_components(comps)
            P2 = cat(P, unit(x))
            for c, cd in zip(comps, cs):
                if not self.cand_check(cd, c, self.cget(c), P2):
                    if os.environ.get('PYVC_DEBUG') == '3' and cd[0] != 'same': print('not kept:', c[1], cd[:2], self.cget(c), '\n  want', self.cand_make(cd, c, P2, ''), '\n  same', self.same(self.cget(c), self.cand_make(cd, c, P2, '')))
                    drop(c)
            for n, f in facts:
                if not self.entails(f(P2)): table[('fact', n)] = 1; raise Restart()
            self.task.ninv += 1
            self.task.obs_inv.add((key, tuple(self.decisions[:self.di])))
            raise PathEnd()
        for c, cd in zip(comps, cs):
            if cd[0] == 'havoc' and c[0] != 'undef': self.exact = False
            self.cset(c, self.cand_make(cd, c, St, 'x'))
        for n, f in facts: self.fact(f(St))
        return 'done'
    def split_loop(self, St, P, x, R):
        'St == P ++ [x] ++ R'
        pv = None
        if len(parts_of(St)) == 1: pv = self.prov.get(tid(St))
        whole = cat(P, unit(x), R)
        self.fact(St == whole)
        self.keep += [St, P, x, R]
        if pv:
            for f in pv(x): self.fact(f)
            self.prov[tid(P)] = pv; self.prov[tid(R)] = pv
        elif len(parts_of(St)) > 1:
            pvs = [self.prov.get(tid(p)) for p in parts_of(St) if not is_unit(p)]
            if pvs and all(pvs) :
                alts = [z3.And(*pv(x)) for pv in pvs] + [x == p.arg(0) for p in parts_of(St) if is_unit(p)]
                self.fact(z3.Or(*alts))
        for key, hom, params in list(self.homapps.get(tid(St), [])):
            self.fact(hom.uf(params, St) == hom.app(self, params, whole))
        if len(parts_of(St)) == 1 and not is_unit(St): self.splits[tid(St)] = whole
        self.task.theory.on_split(self, St, P, x, R)
