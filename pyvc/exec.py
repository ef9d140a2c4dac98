'''Statements, expressions and calls.'''
import ast
import z3
from .core import *
from .interp import *

from . import interp
from .core import _Ret, _Brk, _Cont

MAXINLINE = 14

def assigned_names(nodes):
    out = set()
    def tgt(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name); return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)): tgt(n.target)
        elif isinstance(n, ast.For): tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars: tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): return
        for c in ast.iter_child_nodes(n): walk(c)
    for n in nodes: walk(n)
    return out

BUILTINS = {'isinstance', 'len', 'list', 'tuple', 'filter', 'map', 'any', 'all', 'next', 'iter', 'enumerate', 'range', 'reversed', 'sorted', 'str', 'int', 'float', 'bool', 'bytes', 
    'hasattr', 'getattr', 'setattr', 'repr', 'super', 'max', 'min', 'zip', 'chr', 'ord', 'type', 'format', 'id', 'callable', 'dict', 'object', 'set', 'hash', 'property', 'print', 'sum',
    'RuntimeError', 'ValueError', 'IndexError', 'StopIteration', 'NotImplementedError', 'TypeError', 'AttributeError', 'KeyError', 'Exception', 'GeneratorExit', 'AssertionError', 'ImportError'}
EXCS = {n for n in BUILTINS if n.endswith('Error') or n in ('StopIteration', 'Exception', 'GeneratorExit')}
EXC_BASE = {'IndexError': ('LookupError', 'Exception', 'BaseException'), 'KeyError': ('LookupError', 'Exception', 'BaseException'), 'GeneratorExit': ('BaseException',)}

class Exec(Run):
    # ------------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body: self.stmt(st, fr)
    def stmt(self, n, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if not m: raise Unsupported('statement ' + type(n).__name__)
        m(n, fr)
    def s_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant): return
        self.ev(n.value, fr)
    def s_Pass(self, n, fr): pass
    def s_Global(self, n, fr): fr.globals.update(n.names)
    def s_Nonlocal(self, n, fr): raise Unsupported('nonlocal')
    def s_Import(self, n, fr):
        for a in n.names:
            m = self.prog.module(a.name)
            fr.env[(a.asname or a.name).split('.')[0]] = ModV(m) if m else Ext(a.name)
    def s_ImportFrom(self, n, fr):
        base = fr.module.rel(n)
        for a in n.names:
            sub = self.prog.module(base + '.' + a.name); m = self.prog.module(base)
            v = ModV(sub) if sub else (self.gval(m, a.name) if m else Ext(base + '.' + a.name))
            fr.env[a.asname or a.name] = v
    def s_Return(self, n, fr): raise _Ret(self.ev(n.value, fr) if n.value else None)
    def s_Break(self, n, fr): raise _Brk()
    def s_Continue(self, n, fr): raise _Cont()
    def s_Assert(self, n, fr):
        if not self.truth(self.ev(n.test, fr)): raise PyRaise(Exc('AssertionError'), n)
    def s_Raise(self, n, fr):
        # the text of messages is not modelled
        e = n.exc
        if e is None: raise PyRaise(Exc('reraise'), n)
        f = e.func if isinstance(e, ast.Call) else e
        name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '?')
        raise PyRaise(Exc(name), n)
    def s_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, n, fr):
        if n.value: self.assign(n.target, self.ev(n.value, fr), fr)
    def s_AugAssign(self, n, fr):
        if isinstance(n.target, ast.Name): cur = self.name(n.target.id, fr)
        elif isinstance(n.target, ast.Attribute):
            o = self.ev(n.target.value, fr); cur = self.attr(o, n.target.attr)
        elif isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, ast.Slice):
            o = self.ev(n.target.value, fr); k = self.ev(n.target.slice, fr); cur = self.item(o, k)
            if not isinstance(cur, (LObj, HList)):
                r = self.ev(n.value, fr)
                return self.setitem(o, k, self.binop(n.op, cur, r))
        else: raise Unsupported('augmented subscript')
        r = self.ev(n.value, fr)
        if isinstance(cur, (LObj, HList)):
            if isinstance(n.op, ast.Add): self.call(BExt(cur, 'extend'), [r], {}); return
            raise Unsupported('list augmented')
        v = self.binop(n.op, cur, r)
        if isinstance(n.target, ast.Name): self.assign(n.target, v, fr)
        else: self.setattr(o, n.target.attr, v)
    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name): fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o, k = self.norm(self.ev(t.value, fr)), self.norm(self.ev(t.slice, fr))
                if isinstance(o, S) and o.t.sort() == Val: o = self.concretize(o)
                if isinstance(o, (LObj, HList)): self.call(BExt(o, 'pop'), [k], {})
                else: raise Unsupported('del of an item')
            else: raise Unsupported('del')
    def s_If(self, n, fr):
        if self.truth(self.ev(n.test, fr)): self.block(n.body, fr)
        else: self.block(n.orelse, fr)
    def s_FunctionDef(self, n, fr):
        q = (fr.fn.qual + '.' if fr.fn and fr.fn.qual else '') + n.name
        fr.env[n.name] = Fn(n, fr.module, frame=fr, qual=q)
        f = fr.env[n.name]
        f.defaults = [self.ev(d, fr) for d in n.args.defaults]
        for d in reversed(n.decorator_list): fr.env[n.name] = self.call(self.ev(d, fr), [fr.env[n.name]], {})
    def s_For(self, n, fr):
        it = self.ev(n.iter, fr)
        asg = assigned_names(n.body) | assigned_names([ast.Assign(targets=[n.target], value=None)])
        own = {x for x in assigned_names([ast.Assign(targets=[n.target], value=None)])}
        for x in own:
            if fr.env.get(x, UNSET) is UNSET: fr.env[x] = UNDEF
        # loop variables are what the iteration makes them; their value before does not matter
        saved = {}
        def cb(x):
            self.assign(n.target, x, fr)
            self.block(n.body, fr)
        b = n.body[0].value if len(n.body) == 1 and isinstance(n.body[0], ast.Expr) else None
        ident = isinstance(b, ast.Yield) and isinstance(b.value, ast.Name) and isinstance(n.target, ast.Name) and b.value.id == n.target.id     # as yield from
        r = self.iterate(it, cb, ('yf' if ident else 'for', n.lineno, n.col_offset, fr.module.short), fr, asg - own)
        if r == 'done':
            if n.orelse: self.block(n.orelse, fr)
    def s_While(self, n, fr):
        if self.task.while_hook and self.task.while_hook(self, n, fr): return
        key = ('while', n.lineno, fr.module.short) + tuple(self.callstack)
        asg = assigned_names(n.body)
        comps = self.components(fr, asg)
        table = self.task.inv.setdefault(key, {})
        # a loop that ends within a few turns on every path needs no invariant
        if not table.get('inv'):
            k = 0; most = getattr(self.task.contract, 'unroll', 2)
            if callable(most): most = most(n)
            while k <= most:
                if not self.truth(self.ev(n.test, fr)):
                    if n.orelse: self.block(n.orelse, fr)
                    return
                if k == most: break
                try: self.block(n.body, fr)
                except _Cont: pass
                except _Brk: return
                k += 1
            table['inv'] = 1
            raise Restart()
        cs = []
        for c in comps:
            cl = [('same',), ('havoc',)]; i = table.get((c[0], c[1]), 0)
            cl = self.wcands(c)
            if i >= len(cl): raise Unsupported('no invariant for %s' % (c[1],))
            cs.append(cl[i])
        def drop(c):
            table[(c[0], c[1])] = table.get((c[0], c[1]), 0) + 1
            if os.environ.get('PYVC_DEBUG') == '2': print('drop', key, c[0], c[1], table[(c[0], c[1])])
            raise Restart()
        rels = [r for r in self.task.whilefacts(self, comps) if not table.get(('fact', r[0]))]
        def asis(v):
            if not self.listlike(v): return v
            w = object.__new__(type(v)); w.content = v.content; w.conv = None; return w
        entry = {(c[0], c[1]): asis(c[3]) for c in comps}
        first = self.choose(2)
        def head():
            for c, cd in zip(comps, cs): self.cset(c, self.cand_make(cd, c, None, 'w'))
            cur = {(c[0], c[1]): self.cget(c) for c in comps}
            for nm, f in rels:
                g = f(entry, cur)
                if g is not None: self.fact(g)
            return cur
        if first == 0:
            for c, cd in zip(comps, cs):
                if cd[0] == 'hint' and not self.cand_check(cd, c, c[3], None): drop(c)
            bad = [nm for nm, f in rels if not self.holds(f(entry, entry))]
            for nm in bad:
                table[('fact', nm)] = 1
                if os.environ.get('PYVC_DEBUG') == '2': print('drop fact at entry', nm)
            if bad: raise Restart()
            cur = head()
            if not self.truth(self.ev(n.test, fr)): raise PathEnd()
            var0 = [(nm, f(cur)) for nm, f in self.task.variants(self, comps)]
            shape = self.shape()
            try: self.block(n.body, fr)
            except _Cont: pass
            except _Brk: return
            if self.shape(len(shape)) != shape: raise Unsupported('a field is made or removed in a loop')
            self.all_components(comps)
            # what is not kept, all at once: weaker assumptions would not keep it either
            bad = [c for c, cd in zip(comps, cs) if not self.cand_check(cd, c, self.cget(c), None)]
            cur2 = {(c[0], c[1]): self.cget(c) for c in comps}
            badf = [nm for nm, f in rels if not self.holds(f(entry, cur2))]
            for nm in badf:
                table[('fact', nm)] = 1
                if os.environ.get('PYVC_DEBUG') == '2': print('drop fact', nm)
            for c in bad:
                table[(c[0], c[1])] = table.get((c[0], c[1]), 0) + 1
                if os.environ.get('PYVC_DEBUG') == '2': print('drop', key, c[0], c[1], table[(c[0], c[1])])
            if bad or badf: raise Restart()
            self.task.ninv += 1; self.task.obs_inv.add((key, tuple(self.decisions[:self.di])))
            if self.task.check_termination:
                ok = False
                for (nm, v0) in var0:
                    f = dict(self.task.variants(self, comps))[nm]
                    v1 = f(cur2)
                    if v0 is not None and v1 is not None and self.entails(z3.And(v1 < v0, v0 >= 0)): ok = True; break
                self.oblige('loop-terminates', ok, 'termination')
            raise PathEnd()
        head()
        for c, cd in zip(comps, cs):
            if cd[0] == 'havoc' and c[0] != 'undef': self.exact = False
        if self.truth(self.ev(n.test, fr)): raise PathEnd()
        if n.orelse: self.block(n.orelse, fr)
    def holds(self, g): return g is not None and self.entails(g)
    def wcands(self, comp):
        return [('same',), ('havoc',)] if comp[0] != 'sent' else [('same',)]
    def s_Try(self, n, fr):
        if n.finalbody: raise Unsupported('finally')
        try: self.block(n.body, fr)
        except PyRaise as e:
            for h in n.handlers:
                if self.handles(h, e.exc, fr):
                    if h.name: fr.env[h.name] = e.exc
                    try: self.block(h.body, fr)
                    except PyRaise as e2:
                        if e2.exc.name == 'reraise': raise PyRaise(e.exc, e.node)
                        raise
                    return
            raise
        if n.orelse: self.block(n.orelse, fr)
    def handles(self, h, exc, fr):
        if h.type is None: return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
        return exc.name in names or any(b in names for b in EXC_BASE.get(exc.name, ('Exception', 'BaseException')))
    def s_With(self, n, fr): raise Unsupported('with')
    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals: raise Unsupported('global assignment')
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Abs) and hasattr(v, 'unpack'):
            for e, x in zip(t.elts, v.unpack(self, len(t.elts), next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None))): self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iter_src(v)
            st = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if st is not None:
                n = len(t.elts) - st - 1; at = self.at; self.at = ('at', t.lineno, t.col_offset, t.end_col_offset)
                try:
                    if isinstance(vs, list):
                        if len(vs) < st + n: raise PyRaise(Exc('ValueError'), t)
                        vs = vs[:st] + [LObj(self, vs[st:len(vs) - n])] + vs[len(vs) - n:]
                    else:
                        if not isinstance(v, (LObj, HList)): raise Unsupported('unpacking')
                        w = vs.term; a, b = [], []
                        for _ in range(st):
                            r = self.uncons(w)
                            if r is None: raise PyRaise(Exc('ValueError'), t)
                            a.append(self.fromval(r[0])); w = r[1]
                        for _ in range(n):
                            r = self.task.theory.unsnoc(self, w)
                            if r is None: raise PyRaise(Exc('ValueError'), t)
                            b.insert(0, self.fromval(r[1])); w = r[0]
                        vs = a + [LObj(self, w)] + b
                finally: self.at = at
                for e, x in zip(t.elts, vs): self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if not isinstance(vs, list): raise Unsupported('unpacking')
            if len(vs) != len(t.elts): raise PyRaise(Exc('ValueError'), t)
            for e, x in zip(t.elts, vs): self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
            at = self.at; self.at = ('at', t.lineno, t.col_offset, t.end_col_offset)
            try: self.setslice(t, v, fr)
            finally: self.at = at
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else: raise Unsupported('assignment to ' + type(t).__name__)
    def setattr(self, o, name, v):
        o = self.norm(o)
        if isinstance(o, S) and o.t.sort() == Val: o = self.concretize(o)
        if self.isloc(o):
            l = self.loc(o)
            if self.task.setattr_hook and self.task.setattr_hook(self, l, name, v): return
            if name in FIELD:
                so = FIELD[name]
                if isinstance(v, (HList, HDict)) and not v.loc.eq(l):
                    if not hasattr(self.task.contract, 'aliases'): raise Unsupported('two nodes share a list or mapping')
                    self.task.contract.aliases.append((l, v.loc))
                if so == Str: self.hset(name, l, self.str_t(v))
                elif so == VSeq:
                    self.hset(name, l, self.as_seq(v))
                    if isinstance(v, LObj): v.frozen = True; v.home = l
                elif so == Dict:
                    self.hset(name, l, self.dict_t(v))
                    if isinstance(v, DObj): v.frozen = True
                else: self.hset(name, l, self.toval(v))
                return
            raise Unsupported('field ' + name)
        if isinstance(o, MObj):
            if o.cls:
                c, st = o.cls.find(self.prog, name)
                if isinstance(st, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == 'property' for d in st.decorator_list): raise Unsupported('property set')
            o.content[name] = v; return
        if isinstance(o, Abs) and hasattr(o, 'setattr'): return o.setattr(self, name, v)
        raise Unsupported('attribute set on %r' % (o,))
    def setslice(self, t, v, fr):
        'o[i:j] = v: what is before, the items of v, what is after'
        o = self.norm(self.ev(t.value, fr))
        if isinstance(o, S) and o.t.sort() == Val: o = self.concretize(o)
        if not isinstance(o, (LObj, HList)) or t.slice.step is not None: raise Unsupported('assignment to a slice')
        lo, hi = [None if e is None else self.norm(self.ev(e, fr)) for e in (t.slice.lower, t.slice.upper)]
        c = self.force(v) if isinstance(v, (It, Gen)) else self.content(v) if isinstance(v, (LObj, HList)) else self.iter_src(v)
        if isinstance(c, Src): c = c.term
        if hi is not None and isinstance(t.slice.lower, ast.Name) and isinstance(t.slice.upper, ast.Name) and t.slice.lower.id == t.slice.upper.id:   # o[i:i] = v
            parts = [self.content(self.slice(o, None, lo, None)), c, self.content(self.slice(o, lo, None, None))]
            self.set_content(o, [x for p in parts for x in p] if all(isinstance(p, list) for p in parts) else cat(*[self.seq_t(p) for p in parts]))
            return
        if hi is not None and lo not in (None, 0) and not (isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi): raise Unsupported('assignment to a slice')
        new = [] if lo is None or lo == 0 else self.content(self.slice(o, None, lo, None))
        parts = [new, c, [] if hi is None else self.content(self.slice(o, hi, None, None))]
        if all(isinstance(p, list) for p in parts): self.set_content(o, [x for p in parts for x in p])
        else: self.set_content(o, cat(*[self.seq_t(p) for p in parts]))
    def setitem(self, o, k, v):
        if isinstance(o, DObj):
            if getattr(o, 'frozen', False): raise Unsupported('shared dict changed')
            if isinstance(o.content, dict) and isinstance(self.norm(k), (str, int, bool)): 
                o.content = dict(o.content); o.content[self.norm(k)] = v
            else: o.content = self.dstore(self.dict_t(o), self.str_t(k), self.str_t(v))
            return
        if isinstance(o, LObj):
            k = self.norm(k)
            if isinstance(o.content, list) and isinstance(k, int) and not isinstance(k, bool):
                if not -len(o.content) <= k < len(o.content): raise PyRaise(Exc('IndexError'))
                o.content = list(o.content); o.content[k] = v; return
        if isinstance(o, HDict):
            self.hset('xml_attributes', o.loc, self.dstore(self.dict_t(o), self.str_t(k), self.str_t(v))); return
        if isinstance(o, Abs) and hasattr(o, 'setitem'): return o.setitem(self, k, v)
        raise Unsupported('item set on %r' % (o,))
    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if not m: raise Unsupported('expression ' + type(n).__name__)
        if isinstance(n, (ast.BinOp, ast.Subscript, ast.List, ast.ListComp, ast.Dict)):
            at = self.at; self.at = ('at', n.lineno, n.col_offset, n.end_col_offset)
            try: return m(n, fr)
            finally: self.at = at
        return m(n, fr)
    def e_Constant(self, n, fr):
        if isinstance(n.value, float): return self.task.theory.fltc(self, n.value)
        if n.value is Ellipsis or isinstance(n.value, bytes): raise Unsupported('constant')
        return n.value
    def e_Name(self, n, fr): return self.name(n.id, fr)
    def name(self, nm, fr):
        f = fr.find(nm)
        if f:
            v = f.env[nm]
            if isinstance(v, Unset):
                if nm in getattr(f, 'globals', ()): raise Unsupported('a global variable that changes')
                raise PyRaise(Exc('UnboundLocalError'))
            if isinstance(v, Undef): raise Unsupported('possibly undefined variable ' + nm)
            return v
        return self.gval(fr.module, nm)
    def gval(self, mod, nm):
        v = self.prog.lookup(mod, nm)
        if isinstance(v, tuple) and v[0] == 'expr':
            h = self.task.globals_hook(self, mod, nm) if self.task.globals_hook else None
            if h is not None: return h
            r = self.ev(v[1], Frame(v[2]))
            if isinstance(r, (DObj, LObj)): r.frozen = True; self.mut.remove(r)     # made by the module, not to be changed
            return r
        if isinstance(v, Sentinel) and self.task.sentinel_hook: return self.task.sentinel_hook(self, v)
        if v is None:
            if nm in EXCS: return Ext(nm)
            if nm in BUILTINS: return Ext(nm)
            raise Unsupported('name ' + nm)
        return v
    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr); self.assign(n.target, v, fr); return v
    def e_Tuple(self, n, fr): return Tup(self.elts(n, fr))
    def e_List(self, n, fr): return LObj(self, self.elts(n, fr))
    def elts(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = self.iter_src(self.ev(e.value, fr))
                if not isinstance(s, list): raise Unsupported('starred')
                out.extend(s)
            else: out.append(self.ev(e, fr))
        return out
    def e_Set(self, n, fr):
        r = Tup(self.elts(n, fr)); r.isset = 1; return r
    def e_Dict(self, n, fr):
        if not n.keys and self.task.emptydict_hook: return self.task.emptydict_hook(self)
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None: raise Unsupported('dict unpacking')
            kk = self.norm(self.ev(k, fr))
            if not isinstance(kk, (str, int, EnumM)): raise Unsupported('dict key')
            d[kk] = self.ev(v, fr)
        return DObj(self, d)
    def e_JoinedStr(self, n, fr):
        t = []
        for p in n.values:
            if isinstance(p, ast.Constant): t.append(strc(p.value))
            else:
                if p.format_spec: raise Unsupported('format spec')
                t.append(self.str_t(self.tostr(self.ev(p.value, fr))))
        return self.mk(cat(*t)) if t else ''
    def e_Lambda(self, n, fr):
        f = Fn(n, fr.module, frame=fr, qual='<lambda>'); f.defaults = [self.ev(d, fr) for d in n.args.defaults]; return f
    def e_IfExp(self, n, fr): return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)
    def e_BoolOp(self, n, fr):
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1: return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) != t: return v
    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            b = self.norm(v)
            if isinstance(b, S) and b.t.sort() == Bool: return self.mk(z3.Not(b.t))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            v = self.norm(v)
            if isinstance(v, S) and v.t.sort() == Val: v = self.concretize(v)
            if isinstance(v, int): return -v
            if isinstance(v, S) and v.t.sort() == Flt: return S(z3.fpNeg(v.t))
            return self.mk(-self.int_t(v))
        raise Unsupported('unary operator')
    def e_BinOp(self, n, fr): return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))
    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, S) and a.t.sort() == Val: a = self.concretize(a)
        if isinstance(b, S) and b.t.sort() == Val: b = self.concretize(b)
        if isinstance(a, Abs) and hasattr(a, 'binop'): return a.binop(self, op, b)
        if isinstance(op, ast.Add) and hasattr(b, 'str_t'): b = S(b.str_t(self))
        isstr = lambda v: isinstance(v, str) or isinstance(v, S) and v.t.sort() == Str or self.isloc(v)
        if isinstance(op, ast.Add):
            if isinstance(a, (LObj, HList)) and isinstance(b, (LObj, HList)):
                x, y = self.content(a), self.content(b)
                if isinstance(x, list) and isinstance(y, list): return LObj(self, x + y)
                return LObj(self, cat(self.seq_t(x), self.seq_t(y)))
            if isinstance(a, Tup) and isinstance(b, Tup): return Tup(a.items + b.items)
            if isstr(a) and isstr(b):
                if isinstance(a, str) and isinstance(b, str): return a + b
                return self.mk(cat(self.str_t(a), self.str_t(b)))
        if isinstance(op, ast.Mult):
            if isstr(a) and not isstr(b): return self.repeat(self.str_t(a), self.int_t(b))
            if isstr(b) and not isstr(a): return self.repeat(self.str_t(b), self.int_t(a))
            if isinstance(a, LObj) and isinstance(a.content, list) and isinstance(b, int): return LObj(self, a.content * b)
            if isinstance(a, LObj) and self.task.listrepeat_hook: return self.task.listrepeat_hook(self, a, b)
        if isinstance(op, ast.BitAnd) and isinstance(a, Tup) and isinstance(b, Tup) and getattr(a, 'isset', 0) and getattr(b, 'isset', 0):
            r = Tup([x for x in a.items if self.truth(self.contains(b, x))]); r.isset = 1; return r
        if isinstance(op, ast.Mod) and isstr(a): raise Unsupported('% formatting')
        if isstr(a) != isstr(b):
            plain = lambda v: isinstance(v, (int, float, str)) or v is None or isinstance(v, S)
            if not plain(a) or not plain(b): raise Unsupported('operator ' + type(op).__name__)
            raise PyRaise(Exc('TypeError'))
        x, y = self.int_t(a), self.int_t(b)
        if isinstance(op, ast.Add): return self.mk(z3.simplify(x + y))
        if isinstance(op, ast.Sub): return self.mk(z3.simplify(x - y))
        if isinstance(op, ast.Mult): return self.mk(z3.simplify(x * y))
        if isinstance(op, ast.Mod):
            if z3.is_int_value(y) and y.as_long() > 0: return self.mk(x % y)
        if isinstance(op, ast.FloorDiv):
            if z3.is_int_value(y) and y.as_long() > 0: return self.mk(x / y)
        raise Unsupported('operator ' + type(op).__name__)
    def repeat(self, s, n):
        return self.mk(self.task.theory.repeat(self, s, n))
    def e_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, fr)
            v = self.compare(op, l, rv)
            if len(n.ops) == 1: return v
            if not self.truth(v): return False
            res = v; l = rv
        return res
    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq): return self.neg(self.eq(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return self.neg(self.contains(b, a))
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, S) and a.t.sort() == Val: a = self.concretize(a)
        if isinstance(b, S) and b.t.sort() == Val: b = self.concretize(b)
        sa, sb = self.sortof(a), self.sortof(b)
        if sa in ('str', 'loc') and sb in ('str', 'loc'): return self.task.theory.scompare(self, op, self.str_t(a), self.str_t(b))
        if sa is not None and sb is not None and ('none' in (sa, sb) or (sa in ('str', 'loc')) != (sb in ('str', 'loc'))): raise PyRaise(Exc('TypeError'))
        if isinstance(a, S) and a.t.sort() == Flt or isinstance(b, S) and b.t.sort() == Flt: return self.task.theory.fcompare(self, op, a, b)
        x, y = self.int_t(a), self.int_t(b)
        return self.mk(z3.simplify({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]))
    def neg(self, v): return (not v) if isinstance(v, bool) else self.mk(z3.simplify(z3.Not(v.t)))
    def is_(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b: return True
        if isinstance(a, Abs) and hasattr(a, 'is_'): return a.is_(self, b)
        if isinstance(b, Abs) and hasattr(b, 'is_'): return b.is_(self, a)
        if isinstance(a, S) or isinstance(b, S):
            if isinstance(a, (S, type(None), bool)) and isinstance(b, (S, type(None), bool)):
                x, y = self.toval(a), self.toval(b)
                return self.mk(z3.simplify(x == y)) if self.refish(a) or self.refish(b) or a is None or b is None else self._uns('is')
            return False
        if isinstance(a, (EnumM, Sentinel)): return a == b
        if a is None or b is None: return False
        if isinstance(a, bool) or isinstance(b, bool): return a is b
        if isinstance(a, (Mut, Fn, ClassInfo)) or isinstance(b, (Mut, Fn, ClassInfo)): return False
        if isinstance(a, Ext) and isinstance(b, Ext): return a.name == b.name
        raise Unsupported('is')
    def _uns(self, m): raise Unsupported(m)
    def refish(self, v): return isinstance(v, S) and v.t.sort() in (Loc, Val)
    def eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, Abs) and hasattr(a, 'eq'): return a.eq(self, b)
        if isinstance(b, Abs) and hasattr(b, 'eq'): return b.eq(self, a)
        if not isinstance(a, S) and not isinstance(b, S):
            if isinstance(a, (type(None), bool, int, str)) and isinstance(b, (type(None), bool, int, str)): return a == b
            if isinstance(a, (EnumM, Sentinel)) or isinstance(b, (EnumM, Sentinel)): return a == b
            if isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items): return False
                for x, y in zip(a.items, b.items):
                    if not self.truth(self.eq(x, y)): return False
                return True
            if isinstance(a, (Fn, BM, ClassInfo)) or isinstance(b, (Fn, BM, ClassInfo)): return a is b
            if isinstance(a, Ext) and isinstance(b, Ext): return a.name == b.name
            if isinstance(a, (Ext, type(None))) or isinstance(b, (Ext, type(None))): return False
            if isinstance(a, MObj) and isinstance(b, MObj): return a is b
            raise Unsupported('== of %r and %r' % (a, b))
        if isinstance(a, S) and a.t.sort() == Val: a = self.concretize(a)
        if isinstance(b, S) and b.t.sort() == Val: b = self.concretize(b)
        if not isinstance(a, S) and not isinstance(b, S): return self.eq(a, b)
        sa, sb = self.sortof(a), self.sortof(b)
        if sa == 'loc' and sb == 'loc':
            la, lb = self.loc(a), self.loc(b); sk = self.task.strkinds
            return self.mk(z3.simplify(z3.Or(la == lb, z3.And(self.kind_in(la, sk), self.kind_in(lb, sk), SVAL(la) == SVAL(lb)))))
        if sa == 'loc' and sb == 'str': a, b, sa, sb = b, a, sb, sa
        if sa == 'str' and sb == 'loc':
            return self.mk(z3.And(self.kind_in(self.loc(b), self.task.strkinds), SVAL(self.loc(b)) == self.str_t(a)))
        if sa == 'str' and sb == 'str': return self.mk(z3.simplify(self.str_t(a) == self.str_t(b)))
        if sa in ('int', 'bool') and sb in ('int', 'bool'): return self.mk(z3.simplify(self.int_t(a) == self.int_t(b)))
        if 'flt' in (sa, sb) and sa in ('flt', 'int', 'bool') and sb in ('flt', 'int', 'bool'): return self.task.theory.fcompare(self, ast.Eq(), a, b)
        if sa is None or sb is None: raise Unsupported('== of %r and %r' % (a, b))
        return False
    def sortof(self, v):
        v = self.norm(v)
        if v is None: return 'none'
        if isinstance(v, bool): return 'bool'
        if isinstance(v, int): return 'int'
        if isinstance(v, str): return 'str'
        if isinstance(v, S):
            if self.isloc(v): return 'loc'
            return {Int: 'int', Bool: 'bool', Str: 'str', Flt: 'flt'}.get(v.t.sort())
        if isinstance(v, (Tup, LObj, DObj, Fn, Sentinel, EnumM, MObj, Ext, ClassInfo)): return 'other'
    def contains(self, c, x):
        c, x = self.norm(c), self.norm(x)
        if isinstance(c, Abs) and hasattr(c, 'contains'): return c.contains(self, x)
        if isinstance(c, (HDict,)) or isinstance(c, DObj) and not isinstance(c.content, dict) or isinstance(c, S) and c.t.sort() == Dict:
            return self.mk(HAS(self.dict_t(c), self.str_t(x)))
        if isinstance(c, DObj):
            if isinstance(x, S):
                for k in c.content:
                    if self.truth(self.eq(x, k)): return True
                return False
            return x in c.content
        if isinstance(c, (str, S)) and (isinstance(c, str) or c.t.sort() in (Str, Val, Loc)):
            if isinstance(c, str) and isinstance(x, str): return x in c
            if isinstance(c, str) and isinstance(x, S) and self.is_char(x):
                ch = self.char_of(x)
                return self.mk(z3.Or(*[ch == ord(d) for d in c])) if c else False
            return self.mk(z3.Contains(self.str_t(c), self.str_t(x)))
        items = self.iter_src(c)
        if isinstance(items, list):
            for i in items:
                if self.truth(self.eq(i, x)): return True
            return False
        if self.isloc(x) or isinstance(x, S) and x.t.sort() == Val:
            return self.task.theory.seq_contains(self, items.term, x)
        raise Unsupported('in')
    def is_char(self, x): return isinstance(x, S) and x.t.sort() == Str and is_unit(x.t)
    def char_of(self, x): return x.t.arg(0)
    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            g = lambda e: None if e is None else self.ev(e, fr)
            return self.slice(o, g(sl.lower), g(sl.upper), g(sl.step))
        return self.item(o, self.ev(n.slice, fr))
    def item(self, o, i):
        o = self.norm(o); i = self.norm(i)
        if isinstance(o, S) and o.t.sort() == Val: o = self.concretize(o)
        if isinstance(o, Abs) and hasattr(o, 'item'): return o.item(self, i)
        if isinstance(o, Tup) or isinstance(o, LObj) and isinstance(o.content, list):
            it = o.items if isinstance(o, Tup) else o.content
            if isinstance(i, int):
                if not -len(it) <= i < len(it): raise PyRaise(Exc('IndexError'))
                return it[i]
            if isinstance(i, S) and it:
                t = self.int_t(i)
                for k in range(len(it)):
                    if self.truth(self.mk(t == k)): return it[k]
                for k in range(1, len(it) + 1):
                    if self.truth(self.mk(t == -k)): return it[-k]
                raise PyRaise(Exc('IndexError'))
        if isinstance(o, (LObj, HList)):
            t = self.content(o)
            if isinstance(t, list): t = self.seq_t(t)
            if i == 0 and not isinstance(i, bool):
                r = self.uncons(t)
                if r is None: raise PyRaise(Exc('IndexError'))
                self.elemfacts(t, r[0])
                return self.fromval(r[0])
            if isinstance(i, int) and i == -1:
                if self.truth(self.mk(z3.Length(t) > 0)): return self.fromval(self.task.theory.last(self, t))
                raise PyRaise(Exc('IndexError'))
            it = self.int_t(i)
            L = z3.Length(t)
            if not self.truth(self.mk(z3.And(it < L, it >= -L))): raise PyRaise(Exc('IndexError'))
            k = z3.If(it >= 0, it, it + L)
            return self.fromval(t[z3.simplify(k)])
        if isinstance(o, DObj) and isinstance(o.content, dict):
            if isinstance(i, S):
                for k in o.content:
                    if self.truth(self.eq(i, k)): return o.content[k]
                raise PyRaise(Exc('KeyError'))
            if i not in o.content: raise PyRaise(Exc('KeyError'))
            return o.content[i]
        if isinstance(o, (DObj, HDict)) or isinstance(o, S) and o.t.sort() == Dict:
            d, k = self.dict_t(o), self.str_t(i)
            if not self.truth(self.mk(HAS(d, k))): raise PyRaise(Exc('KeyError'))
            return self.mk(GET(d, k))
        if isinstance(o, str) and isinstance(i, int):
            if not -len(o) <= i < len(o): raise PyRaise(Exc('IndexError'))
            return o[i]
        if self.sortof(o) in ('str', 'loc'):
            t = self.str_t(o); L = z3.Length(t); it = self.int_t(i)
            if not self.truth(self.mk(z3.And(it < L, it >= -L))): raise PyRaise(Exc('IndexError'))
            k = z3.simplify(z3.If(it >= 0, it, it + L))
            return S(z3.Unit(t[k]))
        if isinstance(o, ClassInfo) or isinstance(o, Ext): raise Unsupported('subscript of class')
        raise Unsupported('item of %r' % (o,))
    def elemfacts(self, t, h): pass
    def slice(self, o, lo, hi, st):
        o = self.norm(o); lo, hi, st = self.norm(lo), self.norm(hi), self.norm(st)
        if isinstance(o, Abs) and hasattr(o, 'slice'): return o.slice(self, lo, hi, st)
        conc = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if isinstance(o, str) and conc: return o[lo:hi:st]
        if isinstance(o, Tup) and conc: return Tup(o.items[lo:hi:st])
        if isinstance(o, LObj) and isinstance(o.content, list) and conc: return LObj(self, o.content[lo:hi:st])
        if isinstance(o, (LObj, HList)):
            t = self.seq_t(self.content(o))
            if lo is None and hi is None and st is None: return LObj(self, t)
            if lo is None and hi is None and st == -1: return LObj(self, self.task.theory.REV.app(self, (), self.known(t)))
            if st is None and isinstance(lo, int) and lo >= 0 and hi is None:
                for _ in range(lo):
                    r = self.uncons(t)
                    if r is None: return LObj(self, [])
                    t = r[1]
                return LObj(self, t)
            if st is None:
                return LObj(self, self.seqslice(t, lo, hi))
        if self.sortof(o) in ('str', 'loc') and st is None:
            return self.mk(self.seqslice(self.str_t(o), lo, hi))
        raise Unsupported('slice')
    def seqslice(self, t, lo, hi):
        L = z3.Length(t)
        def clamp(i, d):
            if i is None: return d
            i = self.int_t(i)
            return z3.simplify(z3.If(i < 0, z3.If(i + L < 0, z3.IntVal(0), i + L), z3.If(i > L, L, i)))
        a, b = clamp(lo, z3.IntVal(0)), clamp(hi, L)
        r = self.task.theory.known_slice(self, t, a, b)
        if r is not None: return r
        return z3.Extract(t, a, z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))))
    def e_ListComp(self, n, fr):
        g = self.gen_of(n, fr)
        if hasattr(g, 'abs_list'): return g.abs_list()
        return LObj(self, self.force(g))
    def e_DictComp(self, n, fr):
        d = self.ev(ast.copy_location(ast.Dict(keys=[], values=[]), n), fr)
        g = self.gen_of(n, fr); g.content = It(self, [])
        g.loop(lambda kv: self.setitem(d, *kv.items))
        return d
    def e_GeneratorExp(self, n, fr): return self.gen_of(n, fr)
    def gen_of(self, n, fr):
        first = self.ev(n.generators[0].iter, fr)
        f2 = Frame(fr.module, fr, fr.cls, fr.fn, fr.key); 
        def run(cb):
            def level(k):
                if k == len(n.generators): cb(Tup([self.ev(n.key, f2), self.ev(n.value, f2)]) if isinstance(n, ast.DictComp) else self.ev(n.elt, f2)); return
                g = n.generators[k]
                it = first if k == 0 else self.ev(g.iter, f2)
                def body(x):
                    self.assign(g.target, x, f2)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, f2)): return
                    level(k + 1)
                own = assigned_names([ast.Assign(targets=[g.target], value=None)])
                for o in own: f2.env[o] = UNDEF
                self.iterate_inner(it, body, ('comp', n.lineno, n.col_offset, k, fr.module.short), f2)
            level(0)
        g = Gen(self, run)
        if isinstance(first, Abs) and hasattr(first, 'listcomp') and len(n.generators) == 1 and not n.generators[0].ifs:
            def one(x):
                self.assign(n.generators[0].target, x, f2); return self.ev(n.elt, f2)
            g.abs_list = lambda: first.listcomp(self, one)
        return g
    def iterate_inner(self, it, body, key, fr):
        'as iterate, but an exit out of the whole generator passes through'
        v = self.norm(it)
        if isinstance(v, Gen) and v.content is None:
            v.content = It(self, []); v.loop(body); return
        if isinstance(v, Gen): v = v.content
        self.loop_through(self.iter_src(v), body, key, fr)
    def loop_through(self, src, body, key, fr):
        # GenStop raised by body propagates; _Cont cannot occur here
        self.loop(src, body, key, fr, ())
    def e_Attribute(self, n, fr): return self.attr(self.ev(n.value, fr), n.attr)
    def e_Starred(self, n, fr): raise Unsupported('starred')
    def e_Yield(self, n, fr):
        self.yieldnode = n
        v = self.ev(n.value, fr) if n.value else None
        f = fr
        while f and f.out is None: f = f.parent
        if not f: raise Unsupported('yield')
        return f.out(v)
    def e_YieldFrom(self, n, fr):
        it = self.ev(n.value, fr)
        f = fr
        while f and f.out is None: f = f.parent
        # the items all go out: appended at once when nobody looks at them one by one
        if getattr(f, 'outlist', None) is not None:
            it = self.norm(it)
            if isinstance(it, (It, Gen)): c = self.force(it)
            elif isinstance(it, (LObj, HList)): c = self.content(it)
            else:
                c = self.iter_src(it)
                if isinstance(c, Src): c = c.term
            self.extend(f.outlist, c)
            return None
        self.iterate_inner(it, lambda x: f.out(x), ('yf', n.lineno, n.col_offset, fr.module.short), fr)
        return None
    # ------------------------------------------------------------------ attributes
    def attr(self, o, name):
        o = self.norm(o)
        if isinstance(o, S) and o.t.sort() == Val: o = self.concretize(o)
        if isinstance(o, ModV): return self.gval(o.mod, name)
        if isinstance(o, Ext):
            if o.name == 'math' and name in ('nan', 'inf'): return self.task.theory.fltc(self, float(name))
            return Ext(o.name + '.' + name)
        if isinstance(o, MObj):
            if name in o.content: return o.content[name]
            if o.cls is None: raise PyRaise(Exc('AttributeError'))
            if getattr(o, 'partial', False) and o.cls.find(self.prog, name)[1] is None: raise Unsupported('attribute %s, of which the contract says nothing' % name)
            return self.class_attr(o.cls, name, o)
        if self.isloc(o): return self.node_attr(self.loc(o), name)
        if isinstance(o, ClassInfo):
            if o.is_enum(self.prog):
                if name in o.members: return EnumM(o.qual, name)
                raise Unsupported('enum ' + name)
            c, st = o.find(self.prog, name)
            if isinstance(st, ast.FunctionDef):
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in st.decorator_list): return ('property', Fn(st, c.module, cls=c, qual=c.qual + '.' + name))
                return Fn(st, c.module, cls=c, qual=c.qual + '.' + name)
            if isinstance(st, ast.Assign): return self.ev(st.value, self.class_frame(c))
            if any(isinstance(b, Ext) for k in o.mro(self.prog) for b in k.bases(self.prog)): return Ext('class.' + name)
            raise Unsupported('class attribute ' + name)
        if isinstance(o, Super):
            mro = o.obj_cls.mro(self.prog); i = mro.index(o.cls)
            for c in mro[i+1:]:
                if name in c.members: return self.bind(c, c.members[name], name, o.obj)
            return BExt(o, name)
        if isinstance(o, Abs):
            return o.attr(self, name)
        if isinstance(o, EnumM): raise Unsupported('enum attribute')
        if isinstance(o, (LObj, HList, DObj, HDict, Tup, str, Regex, It, Gen)) or isinstance(o, S): return BExt(o, name)
        if (o is None or isinstance(o, (bool, int))) and not hasattr(o, name): raise PyRaise(Exc('AttributeError'))
        if isinstance(o, Fn) and name == '__name__': return o.node.name
        raise Unsupported('attribute %s of %r' % (name, o))
    def class_frame(self, c):
        fr = Frame(c.module)
        for k, st in c.members.items():
            if isinstance(st, ast.FunctionDef): fr.env[k] = Fn(st, c.module, cls=c, qual=c.qual + '.' + k)
        return fr
    def bind(self, c, st, name, obj):
        if isinstance(st, ast.FunctionDef):
            decs = [d.id for d in st.decorator_list if isinstance(d, ast.Name)]
            fn = Fn(st, c.module, cls=c, qual=c.qual + '.' + name)
            if 'property' in decs: return self.call(fn, [obj], {})
            if 'staticmethod' in decs: return fn
            if decs or st.decorator_list: raise Unsupported('decorator')
            return BM(obj, fn)
        v = st.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
            g = self.ev(v.args[0], self.class_frame(c))
            return self.call(g, [obj], {})
        val = self.ev(v, self.class_frame(c))
        if isinstance(val, tuple) and val[0] == 'property': return self.call(val[1], [obj], {})
        if isinstance(val, Fn): return BM(obj, val)
        return val
    def class_attr(self, cls, name, obj):
        c, st = cls.find(self.prog, name)
        if st is None:
            ext = any(isinstance(b, Ext) and b.name != 'object' for k in cls.mro(self.prog) for b in k.bases(self.prog))
            if ext: raise Unsupported('inherited attribute %s' % name)
            if name.startswith('__') or any(k.find(self.prog, x)[1] is not None for k in (cls,) for x in ('__getattr__', '__getattribute__', '__slots__')): raise Unsupported('attribute %s' % name)
            raise PyRaise(Exc('AttributeError'))
        return self.bind(c, st, name, obj)
    def node_attr(self, loc, name):
        vc = self.task.virtual.get(name)
        if vc is not None:
            r = vc(self, loc)
            if r is not NotImplemented: return r
        # decide the kind, as far as the attribute needs it
        groups = {}
        for k, cls in self.task.kinds.items():
            c, st = cls.find(self.prog, name)
            groups.setdefault((c, id(st)) if c else ('field', None), []).append(k)
        gl = sorted(groups.items(), key=lambda kv: -len(kv[1]))
        for i, ((c, _), ks) in enumerate(gl):
            if i == len(gl) - 1 or self.truth(self.mk(self.kind_in(loc, ks))):
                if c != 'field':
                    return self.bind(c, c.members[name], name, S(loc))
                return self.field(loc, name, ks)
    def field(self, loc, name, ks):
        if self.task.field_hook:
            r = self.task.field_hook(self, loc, name, ks)
            if r is not NotImplemented: return r
        if name == 'xml_children':
            if all(k in (TEXT,) for k in ks): raise PyRaise(Exc('AttributeError'))
            return HList(loc)
        if name == 'xml_attributes':
            if not self.truth(self.mk(self.kind_in(loc, [k for k in self.task.kinds if k == ELEMENT or k == 5]))): raise PyRaise(Exc('AttributeError'))
            return HDict(loc)
        if name == '_xml_parent':
            t = self.hget(name, loc)
            if self.truth(self.mk(Val.is_none(t))): return None
            return Weak(S(t))
        if name == '_xml_root_node' and not self.truth(self.mk(z3.Not(Val.is_none(self.hget(name, loc))))): raise PyRaise(Exc('AttributeError'))
        if name == 'xml_value' and not self.truth(self.mk(self.kind_in(loc, [ATTR]))): raise PyRaise(Exc('AttributeError'))
        if name in FIELD: return self.mk(self.hget(name, loc))
        strs = {'strip', 'split', 'startswith', 'replace'}
        if name in strs and self.truth(self.mk(self.kind_in(loc, self.task.strkinds))): return BExt(self.mk(SVAL(loc)), name)
        raise Unsupported('field %s' % name)
    def hasattr(self, o, name):
        o = self.norm(o)
        if isinstance(o, Abs) and hasattr(o, 'hasattr'): return o.hasattr(self, name)
        if isinstance(o, MObj):
            if name in o.content: return True
            if getattr(o, 'partial', False) and o.cls.find(self.prog, name)[1] is None: raise Unsupported('hasattr, of which the contract says nothing')
            return o.cls is not None and o.cls.find(self.prog, name)[0] is not None
        if isinstance(o, S) and o.t.sort() == Val: o = self.concretize(o)
        if self.isloc(o):
            l = self.loc(o)
            if name == '_xml_root_node': return self.mk(z3.Not(Val.is_none(self.hget(name, l))))
            if self.task.hasattr_hook:
                r = self.task.hasattr_hook(self, l, name)
                if r is not NotImplemented: return r
            have = [k for k, c in self.task.kinds.items() if c.find(self.prog, name)[0]]
            if not have and name not in FIELD: return False
            raise Unsupported('hasattr node ' + name)
        if o is None or isinstance(o, (str, int, bool, S)): return hasattr('' if self.sortof(o) == 'str' else 0, name)
        if isinstance(o, (It, Gen)): return name in ('__next__', '__iter__', 'send', 'close')
        if isinstance(o, (LObj, Tup)): return hasattr([], name)
        raise Unsupported('hasattr of %r' % (o,))
    # ------------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and fr.find('super') is None:
            return self.mk_super(n, fr)
        f = self.ev(n.func, fr)
        if isinstance(f, Ext) and f.name == 'isinstance':
            return self.isinstance(self.ev(n.args[0], fr), self.ev(n.args[1], fr))
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                s = self.iter_src(v)
                if isinstance(s, list): args.extend(s)
                elif getattr(f, 'takes_star', False): args.append(Star(s.term))
                else: raise Unsupported('* with unknown length')
            else: args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None: raise Unsupported('**')
            kw[k.arg] = self.ev(k.value, fr)
        self.callstack.append((n.lineno, n.col_offset))
        try: return self.call(f, args, kw, n)
        finally: self.callstack.pop()
    def mk_super(self, n, fr):
        f = fr
        while f and f.cls is None: f = f.parent
        s = Super(f.cls, None)
        if n.args: s.cls = self.ev(n.args[0], fr); s.obj = self.ev(n.args[1], fr)
        else: s.obj = f.self_
        if isinstance(s.obj, ClassInfo): s.obj_cls = s.obj
        elif isinstance(s.obj, MObj): s.obj_cls = s.obj.cls
        else: s.obj_cls = s.cls
        return s
    def call(self, f, args, kw, node=None):
        if isinstance(f, BM): return self.call(f.fn, [f.obj] + args, kw, node)
        if isinstance(f, Fn): return self.call_fn(f, args, kw)
        if isinstance(f, ClassInfo): return self.instantiate(f, args, kw)
        if isinstance(f, Weak): return f.v if not isinstance(f.v, S) else self.mk(f.v.t)
        if isinstance(f, Abs): return f.call(self, args, kw)
        if isinstance(f, Ext):
            from . import builtins_
            return builtins_.call_ext(self, f.name, args, kw)
        if isinstance(f, BExt):
            from . import builtins_
            return builtins_.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, MObj) and f.cls:
            c, st = f.cls.find(self.prog, '__call__')
            if st: return self.call(Fn(st, c.module, cls=c, qual=c.qual + '.__call__'), [f] + args, kw)
        raise Unsupported('call of %r' % (f,))
    def call_fn(self, f, args, kw):
        c = self.task.contract_for(f)
        if c is not None and not (self.task.entering and f.node is self.task.fn.node):
            return c.apply(self, f, args, kw)
        for d in getattr(f.node, 'decorator_list', ()):
            if not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'coroutine')): raise Unsupported('decorator')
        self.task.entering = False
        self.task.inlined.add(f.qual or '?')
        return self.inline(f, args, kw)
    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        if a.kwarg: raise Unsupported('** parameter')
        names = [p.arg for p in a.posonlyargs + a.args]
        defaults = getattr(f, 'defaults', None)
        if defaults is None: defaults = [self.ev(d, Frame(f.module)) for d in a.defaults]
        vals = {}
        if len(args) > len(names):
            if not a.vararg: raise PyRaise(Exc('TypeError'))
            vals[a.vararg.arg] = Tup(args[len(names):]); args = args[:len(names)]
        elif a.vararg: vals[a.vararg.arg] = Tup([])
        for p, v in zip(names, args): vals[p] = v
        for k, v in kw.items():
            if k in vals or k not in names + [p.arg for p in a.kwonlyargs]: raise PyRaise(Exc('TypeError'))
            vals[k] = v
        for p, d in zip(names[len(names) - len(defaults):], defaults):
            if p not in vals: vals[p] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None: vals[p.arg] = self.ev(d, Frame(f.module))
        for p in names:
            if p not in vals: raise PyRaise(Exc('TypeError'))
        fr.env.update(vals)
        if f.cls is not None and names: fr.self_ = fr.env.get(names[0])
    def inline(self, f, args, kw):
        if len(self.callstack) > MAXINLINE * 3 or sum(1 for q in getattr(self, 'active', []) if q is f.node) >= 2: raise Unsupported('recursion without a contract: %s' % f.qual)
        fr = Frame(f.module, f.frame, f.cls, f)
        self.bind_args(f, list(args), kw, fr)
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr)
        if is_gen(f.node):
            def run(cb):
                fr.out = lambda v: cb(v)
                self.run_body(f, fr)
            return Gen(self, run)
        return self.run_body(f, fr)
    def run_body(self, f, fr):
        act = self.active = getattr(self, 'active', [])
        act.append(f.node)
        for n in assigned_names(f.node.body):
            if n not in fr.env: fr.env[n] = UNSET
        try: self.block(f.node.body, fr)
        except _Ret as r: return r.v
        finally: act.pop()
        return None
    def instantiate(self, cls, args, kw):
        if cls.is_enum(self.prog): raise Unsupported('enum call')
        h = self.task.class_hook(self, cls, args, kw) if self.task.class_hook else None
        if h is not None: return h
        kind = next((k for k, c in self.task.kinds.items() if c is cls), None)
        c, st = cls.find(self.prog, '__new__')
        if kind is not None:
            if st is not None:
                self.newkind = kind
                o = self.inline(Fn(st, c.module, cls=c, qual=c.qual + '.__new__'), [cls] + args, kw)
            else: o = S(self.new_loc(kind, 'new_' + cls.name))
            if kind != ATTR: 
                self.hset('_xml_root_node', self.loc(o), Val.none)
                for f, v in getattr(self.task.contract, 'newfields', ()): self.hset(f, self.loc(o), v)
        else:
            if st is not None: raise Unsupported('__new__')
            o = MObj(self, cls, {})
        c, st = cls.find(self.prog, '__init__')
        if st is not None: self.call(Fn(st, c.module, cls=c, qual=c.qual + '.__init__'), [o] + args, kw)
        elif args or kw:
            if any(k.node.decorator_list or any(not isinstance(b, ClassInfo) for b in k.bases(self.prog)) for k in cls.mro(self.prog) if isinstance(k, ClassInfo)): raise Unsupported('making of %s' % cls.name)
            raise PyRaise(Exc('TypeError'))
        return o
    def isinstance(self, o, cls):
        if isinstance(cls, Tup):
            for c in cls.items:
                if self.truth(self.isinstance(o, c)): return True
            return False
        o = self.norm(o)
        if isinstance(o, Abs) and hasattr(o, 'isinstance'):
            r = o.isinstance(self, cls)
            if r is not NotImplemented: return r
        if isinstance(o, S) and o.t.sort() == Val:
            if isinstance(cls, ClassInfo):
                ks = [k for k, c in self.task.kinds.items() if c.subclass_of(self.prog, cls)]
                return self.mk(z3.simplify(z3.And(Val.is_ref(o.t), self.kind_in(Val.l(o.t), ks))))
            o = self.concretize(o)
        if isinstance(cls, ClassInfo):
            if self.isloc(o):
                ks = [k for k, c in self.task.kinds.items() if c.subclass_of(self.prog, cls)]
                return self.mk(self.kind_in(self.loc(o), ks)) if ks else False
            if isinstance(o, MObj): return o.cls is not None and o.cls.subclass_of(self.prog, cls)
            if isinstance(o, EnumM): return o.cls == cls.qual
            if o is None or isinstance(o, (int, str, bool, LObj, HList, Tup, DObj, HDict, It, Gen, Sentinel)): return False
            if isinstance(o, S): return False
            if isinstance(o, (Fn, BM)): return False
        if isinstance(cls, Ext):
            nm = cls.name
            if nm in ('str', 'int', 'bool', 'float', 'list', 'tuple', 'dict', 'bytes'):
                s = self.sortof(o)
                if nm == 'str':
                    if s == 'loc': return self.mk(self.kind_in(self.loc(o), self.task.strkinds))
                    return s == 'str'
                if nm == 'int': return s in ('int', 'bool')
                if nm == 'bool': return s == 'bool'
                if nm == 'float': return s == 'flt'
                if nm == 'list': return isinstance(o, (LObj, HList))
                if nm == 'tuple': return isinstance(o, Tup)
                if nm == 'dict': return isinstance(o, (DObj, HDict))
                return False
            if nm.endswith('Iterable'):
                if self.isloc(o): return self.mk(self.kind_in(self.loc(o), self.task.strkinds))
                s = self.sortof(o)
                if s == 'str' or isinstance(o, (LObj, HList, Tup, DObj, HDict, It, Gen)): return True
                if s in ('int', 'bool', 'flt', 'none', 'other'): return False
        raise Unsupported('isinstance of %r, %r' % (o, cls))
    def tostr(self, v):
        'str(v)'
        v = self.norm(v)
        if isinstance(v, S) and v.t.sort() == Val: v = self.concretize(v)
        if isinstance(v, bool): return str(v)
        if isinstance(v, (str,)): return v
        if isinstance(v, int): return str(v)
        s = self.sortof(v)
        if s == 'str': return v
        if s == 'loc' and self.truth(self.mk(self.kind_in(self.loc(v), self.task.strkinds))):
            # text does not define __str__
            for k in self.task.strkinds:
                if self.task.kinds[k].find(self.prog, '__str__')[0]:
                    if self.truth(self.mk(KIND(self.loc(v)) == k)):
                        c, st = self.task.kinds[k].find(self.prog, '__str__')
                        return self.call(Fn(st, c.module, cls=c, qual=c.qual + '.__str__'), [v], {})
            return self.mk(SVAL(self.loc(v)))
        if s == 'int': return self.mk(self.task.theory.ISTR(v.t))
        if s == 'flt':
            from .theory import REPRF
            return self.mk(REPRF(v.t))
        if s == 'bool': return self.mk(z3.If(v.t, strc('True'), strc('False')))
        if v is None: return 'None'
        raise Unsupported('str() of %r' % (v,))
