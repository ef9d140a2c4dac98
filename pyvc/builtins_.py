'''What the engine knows about Python's built-in functions and the few library functions the repository uses. Trusted.'''
import z3
from .core import *
from .interp import *
from .core import _Cont, _Brk
from . import theory as T_

def lazy(run, it, f):
    'a generator over it; f(x, emit)'
    def loop(cb):
        run.iterate_inner(it, lambda x: f(x, cb), ('lazy',) + tuple(run.callstack[-1:]), None)
    return Gen(run, loop)

def nextv(run, it, default=NotImplemented):
    it = run.norm(it)
    if isinstance(it, Abs) and hasattr(it, 'next'): return it.next(run, default)
    if isinstance(it, Gen):
        if it.content is None or isinstance(it.content, It):
            if it.content is None:
                # the first item only: stop the generator there
                got = []
                class Got(Exception): pass
                def cb(x):
                    got.append(x); raise GenStop()
                saved = it.loop
                it.content = 'running'
                try:
                    it.loop(cb)
                    it.content = It(run, [])
                except GenStop:
                    # what it would have yielded afterwards is not known; using it again is out of reach
                    it.content = 'stopped'
                    return got[0]
                if default is NotImplemented: raise PyRaise(Exc('StopIteration'))
                return default
            it = it.content
        else: raise Unsupported('next() on a generator twice')
    if isinstance(it, It):
        c = it.content
        if isinstance(c, list):
            if c: it.content = c[1:]; return c[0]
        else:
            r = run.uncons(c)
            if r is not None:
                it.content = r[1]
                return run.fromval(r[0]) if it.conv is None else it.conv(r[0], None)
        if default is NotImplemented: raise PyRaise(Exc('StopIteration'))
        return default
    raise PyRaise(Exc('TypeError'))

def call_ext(run, name, args, kw):
    th = run.task.theory
    if run.task.ext_hook:
        r = run.task.ext_hook(run, name, args, kw)
        if r is not NotImplemented: return r
    n = name
    a = [run.norm(x) for x in args]
    if n == 'len':
        v = a[0]
        if isinstance(v, Abs) and hasattr(v, 'len'): return v.len(run)
        if isinstance(v, (LObj, HList)):
            c = run.content(v)
            return len(c) if isinstance(c, list) else run.mk(z3.simplify(z3.Length(c)))
        if isinstance(v, Tup): return len(v.items)
        if isinstance(v, str): return len(v)
        if isinstance(v, DObj) and isinstance(v.content, dict): return len(v.content)
        if isinstance(v, (DObj, HDict)): return run.mk(z3.Length(KEYS(run.dict_t(v))))
        if run.sortof(v) in ('str', 'loc'): return run.mk(z3.Length(run.str_t(v)))
        if v is None or isinstance(v, (It, Gen, int)): raise PyRaise(Exc('TypeError'))
    if n in ('list', 'tuple'):
        if not a: return LObj(run, []) if n == 'list' else Tup([])
        v = a[0]
        if isinstance(v, Abs) and hasattr(v, 'tolist'): return v.tolist(run, n)
        if isinstance(v, (It, Gen)): c = run.force(v)
        elif isinstance(v, (LObj, HList)): c = run.content(v)
        else:
            s = run.iter_src(v); c = s if isinstance(s, list) else s.term
        if n == 'tuple':
            if isinstance(c, list): return Tup(c)
            return STup(c)
        return LObj(run, list(c) if isinstance(c, list) else c)
    if n == 'iter':
        v = a[0]
        if isinstance(v, (It, Gen)): return v
        s = run.iter_src(v)
        return It(run, s) if isinstance(s, list) else It(run, s.term, None)
    if n == 'filter':
        f = a[0]
        def ff(x, emit):
            if run.truth(x if f is None else run.call(f, [x], {})): emit(x)
        return lazy(run, a[1], ff)
    if n == 'map':
        if len(a) != 2: raise Unsupported('map')
        return lazy(run, a[1], lambda x, emit: emit(run.call(a[0], [x], {})))
    if n == 'enumerate':
        start = a[1] if len(a) > 1 else kw.get('start', 0)
        it = a[0]
        if isinstance(it, Abs) and hasattr(it, 'enumerate_') and start == 0: return it.enumerate_(run)
        if isinstance(it, Gen):
            # counts what comes out: only for generators that can be forced
            c = run.force(it); it = It(run, c)
        s = run.iter_src(it)
        if isinstance(s, list): return It(run, [Tup([run.mk(z3.simplify(run.int_t(start) + i)), x]) for i, x in enumerate(s)])
        st = run.int_t(start)
        return Src2(s.term, lambda x, i, conv=s.conv: Tup([run.mk(z3.simplify(st + i)), conv(x, i)]))
    if n == 'reversed':
        v = a[0]
        if isinstance(v, Abs) and hasattr(v, 'reversed_'): return v.reversed_(run)
        if isinstance(v, Tup): return It(run, v.items[::-1])
        c = run.content(v)
        if isinstance(c, list): return It(run, c[::-1])
        return It(run, th.REV.app(run, (), run.known(c)))
    if n == 'sorted' and len(a) == 1 and not kw and hasattr(a[0], 'sorted_'): return a[0].sorted_(run)
    if n == 'id' and len(a) == 1 and run.isloc(a[0]): return run.mk(T_.IDOF(run.loc(a[0])))
    if n == 'range':
        if all(isinstance(x, int) for x in a): return LObj(run, list(range(*a)))
        if len(a) == 1: return th.range_(run, run.int_t(a[0]))
        raise Unsupported('range')
    if n in ('any', 'all'):
        box = []
        def cb(x):
            if run.truth(x) == (n == 'any'): raise _Brk()
        r = run.iterate(a[0], cb, (n,) + tuple(run.callstack[-1:]))
        return (r == 'break') == (n == 'any')
    if n == 'next': return nextv(run, a[0], *(a[1:2]))
    if n == 'str':
        if not a: return ''
        return run.tostr(a[0])
    if n == 'bool': return run.truth(a[0]) if a else False
    if n == 'int':
        if len(a) == 1:
            v = a[0]
            if isinstance(v, S) and v.t.sort() == Val: v = run.concretize(v)
            if isinstance(v, bool): return int(v)
            if isinstance(v, int): return v
            if isinstance(v, S) and v.t.sort() in (Int, Bool): return run.mk(run.int_t(v))
            if isinstance(v, S) and v.t.sort() == Flt: return th.f2int(run, v)
        raise Unsupported('int()')
    if n == 'float': return th.tofloat(run, a[0])
    if n == 'hasattr': return run.hasattr(a[0], a[1])
    if n == 'getattr':
        if isinstance(a[1], str):
            if len(a) == 2: return run.attr(a[0], a[1])
            if run.isloc(a[0]) and run.task.hasattr_hook:
                r = run.task.hasattr_hook(run, run.loc(a[0]), a[1])
                if r is not NotImplemented: return run.attr(a[0], a[1]) if run.truth(r) else a[2]
            try: return run.attr(a[0], a[1])
            except PyRaise as e:
                if e.exc.name == 'AttributeError': return a[2]
                raise
    if n == 'setattr' and isinstance(a[1], str): run.setattr(a[0], a[1], a[2]); return None
    if n == 'weakref.ref': return Weak(a[0])
    if n in ('copy.copy',): raise Unsupported(n)
    if n == 'callable':
        v = a[0]
        if isinstance(v, (Fn, BM, Ext, BExt, ClassInfo)): return True
        if isinstance(v, MObj): return v.cls is not None and v.cls.find(run.prog, '__call__')[0] is not None
        if isinstance(v, Abs) and hasattr(v, 'callable'): return v.callable
        if run.sortof(v) in ('str', 'int', 'bool', 'flt', 'none', 'loc'): return False
    if n in ('max', 'min') and len(a) == 2:
        if all(isinstance(x, int) for x in a): return max(a) if n == 'max' else min(a)
        x, y = run.int_t(a[0]), run.int_t(a[1])
        return run.mk(z3.simplify(z3.If(x >= y, x, y) if n == 'max' else z3.If(x <= y, x, y)))
    if n == 'type': return th.type_(run, a[0])
    if n == 'dict' and not a and not kw and run.task.emptydict_hook: return run.task.emptydict_hook(run)
    if n == 'dict' and not a and not kw: return DObj(run, {})
    if n == 'functools.wraps' and len(a) == 1: return Same()
    if n in ('itertools.chain', 'itertools.chain.from_iterable'):
        import ast
        f = CHAIN.get(n)
        if f is None:
            f = ast.parse('def chain(%s):\n    for it in its:\n        yield from it\n' % ('*its' if n == 'itertools.chain' else 'its')).body[0]
            ast.increment_lineno(f, 100000); CHAIN[n] = f
        fn = Fn(f, run.prog.module('amara3.uxml.treeutil'), qual=None); fn.defaults = []
        return run.call(fn, a, {})
    if n == 'itertools.dropwhile': return dropwhile(run, a[0], a[1])
    if n in ('repr', 'abs', 'decimal.Decimal', 'format') and isinstance(a[0], S) and a[0].t.sort() == Val: a[0] = run.concretize(a[0])
    if n == 'repr' and isinstance(a[0], S) and a[0].t.sort() == Flt: return S(T_.REPRF(a[0].t))
    if n == 'decimal.Decimal' and run.sortof(a[0]) == 'str': return T_.DecV(run.str_t(a[0]))
    if n == 'format' and isinstance(a[0], T_.DecV) and a[1:] == ['f']: return S(T_.PLAIN(a[0].t_))
    if n.startswith('operator.') and len(a) == 2:
        import ast
        op = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE}.get(n[9:])
        if op: return run.compare(op(), a[0], a[1])
    if n == 'repr': return S(run.fresh('repr', Str))
    if n == 'ord' and run.sortof(a[0]) == 'str':
        t = run.str_t(a[0])
        if is_unit(t): return run.mk(t.arg(0))
    if n == 'chr':
        c = run.int_t(a[0])
        if not run.truth(run.mk(z3.And(c >= 0, c <= 0x10FFFF))): raise PyRaise(Exc('ValueError'))
        return S(z3.Unit(c))
    if n == 'print': return None
    if n == 'object': return Sentinel('obj%d' % len(run.mut))
    if n in EXCNAMES: return Exc(n)
    if n in ('xml.sax.saxutils.escape', 'xml.sax.saxutils.quoteattr'): return th.sax(run, n.rsplit('.', 1)[1], a[0])
    if n == 'math.floor' and len(a) == 1: return run.mk(z3.ToInt(th.exact(run, a[0])))
    if n == 'fractions.Fraction' and len(a) == 1: return T_.RealV(th.exact(run, a[0]))
    if n == 'fractions.Fraction' and len(a) == 2 and all(isinstance(x, int) for x in a) and a[1]: return T_.RealV(z3.Q(a[0], a[1]))
    if n == 'math.isnan': return th.isnan(run, a[0])
    if n == 'math.isinf': return th.isinf(run, a[0])
    if n == 'math.nan': raise Unsupported('call of nan')
    raise Unsupported('call of %s' % n)
EXCNAMES = ('RuntimeError', 'ValueError')

class Same(Abs):
    'a decorator that does not change what the function does'
    def call(self, run, args, kw):
        if len(args) == 1 and not kw: return args[0]
        raise Unsupported('decorator')
    def isinstance(self, run, cls): raise Unsupported('isinstance')

class STup(Abs):
    'a tuple of unknown length'
    def __init__(self, t): self.t = t
    def as_seq(self, run): return self.t
    def iter_src(self, run): return run.src(self.t)
    def isinstance(self, run, cls): return isinstance(cls, Ext) and cls.name == 'tuple'
    def truth(self, run): return run.nonempty(self.t)
    def len(self, run): return run.mk(z3.Length(self.t))
    def attr(self, run, n): raise Unsupported('tuple.' + n)

class Src2(Abs):
    'an iterator with converted items (enumerate, items)'
    def __init__(self, term, conv): self.term, self.conv = term, conv
    def iter_src(self, run): return Src(self.term, self.conv)
    def truth(self, run): return True
    def isinstance(self, run, cls): return False

def dropwhile(run, pred, it):
    'keeps the items from the first one on for which pred is false'
    src = run.iter_src(it)
    def test(x): return run.truth(run.call(pred, [x], {}))
    if isinstance(src, list):
        for i, x in enumerate(src):
            if not test(x): return It(run, src[i:])
        return It(run, [])
    res = []
    def cb(x):
        if not test(x):
            res.append(x); raise _Brk()
    St = src.term
    mark = {}
    if run.loop(Src(St, lambda x, i: (mark.update(x=x), src.conv(x, i))[1]), cb, ('dropwhile',) + tuple(run.callstack[-1:])) == 'break':
        whole = parts_of(run.known(St))
        # St == P ++ [x] ++ R, as noted by the loop rule
        for k, p in enumerate(whole):
            if is_unit(p) and p.arg(0).eq(mark['x']): return It(run, cat(*whole[k:]))
        raise Unsupported('dropwhile')
    return It(run, [])

def call_method(run, o, name, args, kw):
    th = run.task.theory
    o = run.norm(o)
    a = [run.norm(x) for x in args]
    if isinstance(o, S) and o.t.sort() == Val: o = run.concretize(o)
    if isinstance(o, Super):
        if name == '__new__':
            # str.__new__
            cls = a[0]
            l = run.new_loc(run.newkind, 'new_' + cls.name)
            if run.newkind in run.task.strkinds: run.fact(SVAL(l) == run.str_t(run.tostr(a[1])))
            return S(l)
        if name == '__init__': return None
        raise Unsupported('super().' + name)
    if isinstance(o, (LObj, HList)):
        if name == 'append': run.append(o, a[0]); return None
        if name == 'extend':
            v = a[0]
            if isinstance(v, (It, Gen)): c = run.force(v)
            elif isinstance(v, (LObj, HList)): c = run.content(v)
            else:
                s = run.iter_src(v); c = s if isinstance(s, list) else s.term
            run.extend(o, c); return None
        c = run.content(o)
        if name == 'copy':
            r = LObj(run, list(c) if isinstance(c, list) else c); return r
        if name == 'insert':
            if isinstance(c, list) and isinstance(a[0], int):
                c = list(c); c.insert(a[0], a[1]); run.set_content(o, c); return None
            t = run.seq_t(c); L = z3.Length(t); i = run.int_t(a[0])
            k = z3.simplify(z3.If(i < 0, z3.If(i + L < 0, z3.IntVal(0), i + L), z3.If(i > L, L, i)))
            run.set_content(o, th.insert_at(run, t, k, run.toval(a[1]))); return None
        if name == 'pop':
            if isinstance(c, list) and (not a or isinstance(a[0], int)):
                i = a[0] if a else -1
                if not c or not -len(c) <= i < len(c): raise PyRaise(Exc('IndexError'))
                c = list(c); v = c.pop(i); run.set_content(o, c); return v
            t = run.seq_t(c)
            if not a or a[0] == -1:
                r = th.unsnoc(run, t)
                if r is None: raise PyRaise(Exc('IndexError'))
                run.set_content(o, r[0]); return run.fromval(r[1])
            return th.pop_at(run, o, t, a[0])
        if name == 'index': return th.list_index(run, run.seq_t(c), a[0])
        if name == 'remove': return th.list_remove(run, o, run.seq_t(c), a[0])
        if name == 'reverse':
            run.set_content(o, c[::-1] if isinstance(c, list) else th.REV.app(run, (), run.known(c))); return None
        if name == 'clear': run.set_content(o, []); return None
    if isinstance(o, DObj) and isinstance(o.content, dict):
        if name == 'items': return It(run, [Tup([k, v]) for k, v in o.content.items()])
        if name == 'keys': return It(run, list(o.content))
        if name == 'values': return It(run, list(o.content.values()))
        if name == 'copy': return DObj(run, dict(o.content))
        if name == 'get':
            k = a[0]; d = a[1] if len(a) > 1 else None
            if isinstance(k, S):
                for kk in o.content:
                    if run.truth(run.eq(k, kk)): return o.content[kk]
                return d
            return o.content.get(k, d)
        if name == 'setdefault' and isinstance(a[0], str):
            if a[0] not in o.content: o.content = dict(o.content); o.content[a[0]] = a[1]
            return o.content[a[0]]
    if isinstance(o, (DObj, HDict)):
        d = run.dict_t(o)
        if name == 'items': return Src2(run.keys(d), lambda x, i: Tup([run.mk(Val.s(x)), run.mk(GET(d, Val.s(x)))]))
        if name == 'keys': return Src2(run.keys(d), lambda x, i: run.mk(Val.s(x)))
        if name == 'copy': return DObj(run, d)
        if name == 'get':
            k = run.str_t(a[0])
            if run.truth(run.mk(HAS(d, k))): return run.mk(GET(d, k))
            return a[1] if len(a) > 1 else None
    if isinstance(o, Regex): return th.regex(run, o, name, a)
    if isinstance(o, (It, Gen)):
        if name == '__next__': return nextv(run, o)
        if name == 'close': return None
    if isinstance(o, Tup):
        raise Unsupported('tuple.' + name)
    if run.sortof(o) in ('str', 'loc'):
        if name == 'join': return join(run, o, a[0])
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and name in ('strip', 'startswith', 'endswith', 'upper', 'lower', 'replace', 'index', 'find', 'split'):
            r = getattr(o, name)(*a)
            return LObj(run, r) if isinstance(r, list) else r
        return th.strmethod(run, o, name, a, kw)
    if (o is None or isinstance(o, (int, bool))) and not hasattr(o, name): raise PyRaise(Exc('AttributeError'))
    raise Unsupported('method %s of %r' % (name, o))

def join(run, sep, it):
    th = run.task.theory
    if sep != '': raise Unsupported('join with a separator')
    it = run.norm(it)
    if isinstance(it, Gen) and it.content is None or isinstance(it, Abs):
        acc = Acc(run)
        def cb(x):
            if run.sortof(x) not in ('str', 'loc') and not (isinstance(x, S) and x.t.sort() == Val): raise PyRaise(Exc('TypeError'))
            acc.content = cat(acc.content, run.str_t(x))
        if isinstance(it, Gen):
            it.content = It(run, []); it.loop(cb)
        else: run.iterate(it, cb, ('join',) + tuple(run.callstack[-1:]))
        return run.mk(acc.content)
    if isinstance(it, (It, Gen)): c = run.force(it)
    elif isinstance(it, (LObj, HList)): c = run.content(it)
    else:
        s = run.iter_src(it); c = s if isinstance(s, list) else s.term
    if isinstance(c, list):
        return run.mk(cat(*[run.str_t(x) for x in c])) if c else ''
    return run.mk(th.JOIN.app(run, (), run.known(c)))

class Acc(Mut):
    'a string being put together'
    def __init__(self, run): self.content = EMPTY_S; run.mut.append(self)
CHAIN = {}
