'''pyvc: a deductive verifier for the subset of Python that amara3-xml is written in.

Every function under contract is executed symbolically, path by path, from the AST of the source that is
in the repository now. Calls to functions under contract use the contract only, loops use an invariant (inferred
from the homomorphisms that the contract speaks about, and checked like any other obligation), recursion
is admitted when the measure of the contract decreases. The rest is inlined. What the engine does not know raises
Unsupported: the function then counts as not within reach.
'''
import ast, os, time, itertools, hashlib
import z3

# ---------------------------------------------------------------------------------------------- sorts
Loc = z3.DeclareSort('Loc')
Int, Bool = z3.IntSort(), z3.BoolSort()
Str = z3.SeqSort(Int)
Flt = z3.FPSort(11, 53)
Dict = z3.DeclareSort('Dict')
_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('boolv', ('b', Bool)); _V.declare('intv', ('i', Int)); _V.declare('fltv', ('f', Flt))
_V.declare('strv', ('s', Str)); _V.declare('ref', ('l', Loc)); _V.declare('opq', ('o', Int)); _V.declare('pairv', ('p0', Int), ('p1', Int))
Val = _V.create()
VSeq = z3.SeqSort(Val)
EMPTY_V, EMPTY_S = z3.Empty(VSeq), z3.Empty(Str)

ALIVE = {}
def tid(t):
    'what identifies a term; z3 reuses the identifiers of terms that are gone, so it stays'
    i = t.get_id(); ALIVE[i] = t
    return i
def cat(*ts):
    ts = [t for t in ts]
    sort = ts[0].sort()
    parts = []
    for t in ts: parts.extend(parts_of(t))
    if not parts: return z3.Empty(sort)
    # merge nothing: constants stay unit by unit
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)
def parts_of(t):
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            r = []
            for c in t.children(): r.extend(parts_of(c))
            return r
        if k == z3.Z3_OP_SEQ_EMPTY: return []
    return [t]
def is_unit(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT
def unit(v): return z3.Unit(v)
def strc(s): return cat(*[z3.Unit(z3.IntVal(ord(c))) for c in s]) if s else EMPTY_S
def const_str(t):
    'the Python string a term of sort Str denotes, if it is made of constants'
    out = []
    for p in parts_of(t):
        if is_unit(p) and z3.is_int_value(p.arg(0)): out.append(chr(p.arg(0).as_long()))
        else: return None
    return ''.join(out)

class Unsupported(Exception): pass
class PathEnd(Exception): pass
class Restart(Exception): pass
class PyRaise(Exception):
    def __init__(self, exc, node=None): self.exc, self.node = exc, node
class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass

# ---------------------------------------------------------------------------------------------- values
class S:                                   # symbolic scalar: .t term, sort tells what it is
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'S(%s)' % self.t
class Mut:                                 # mutable, tracked
    pass
class LObj(Mut):                           # a list the code made; content: VSeq term, or python list of values
    def __init__(self, run, content): self.content = content; run.mut.append(self)
class HList:                               # the list in field xml_children of a node
    def __init__(self, loc): self.loc = loc
class DObj(Mut):                           # a dict the code made; content: ('d', Dict term) or python dict
    def __init__(self, run, content): self.content = content; run.mut.append(self)
class HDict:
    def __init__(self, loc): self.loc = loc
class MObj(Mut):                           # an object of a class which is not a tree node
    def __init__(self, run, cls, fields): self.cls, self.content = cls, fields; run.mut.append(self)
    def __repr__(self): return '<%s>' % (self.cls.name if self.cls else '?')
class Tup:
    def __init__(self, items): self.items = list(items)
class It(Mut):                             # an iterator: content = VSeq term or python list of what is left
    def __init__(self, run, content, conv=None): self.content, self.conv = content, conv; run.mut.append(self)
class Gen(Mut):                            # a generator not started: content = None or the It that it became
    def __init__(self, run, loop, key=''): self.loop, self.content, self.key = loop, None, key; run.mut.append(self)
class Src:                                 # something to loop over: term VSeq, conv(x, i) -> value
    def __init__(self, term, conv): self.term, self.conv = term, conv
class Fn:
    def __init__(self, node, module, frame=None, cls=None, qual=None): self.node, self.module, self.frame, self.cls, self.qual = node, module, frame, cls, qual
class BM:
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn
class Ext:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Ext(%s)' % self.name
class BExt:                                # bound method of a builtin kind of value
    def __init__(self, obj, name): self.obj, self.name = obj, name
class Weak:
    def __init__(self, v): self.v = v
class EnumM:
    def __init__(self, cls, name): self.cls, self.name = cls, name
    def __eq__(self, o): return isinstance(o, EnumM) and (self.cls, self.name) == (o.cls, o.name)
    def __hash__(self): return hash((self.cls, self.name))
    def __repr__(self): return '%s.%s' % (self.cls, self.name)
class Regex:
    def __init__(self, pat): self.pat = pat
class Sentinel:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Sentinel(%s)' % self.name
class Exc:
    def __init__(self, name): self.name = name
class ModV:
    def __init__(self, mod): self.mod = mod
class Abs:                                 # abstract value with hooks: .attr(run,name) .call(run,args,kw) .truth(run) ...
    pass
class Star(Abs):                           # * arguments of unknown number
    def __init__(self, t): self.t = t
class Undef: pass
UNDEF = Undef()
class Unset(Undef): pass                    # a local variable to which nothing has been assigned on this path
UNSET = Unset()
class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

# ---------------------------------------------------------------------------------------------- source
class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.members = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef): self.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.members[t.id] = st
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name): self.members[st.target.id] = st
            elif isinstance(st, (ast.If, ast.For, ast.With, ast.Try, ast.AsyncFunctionDef)): self.members['__getattr__'] = st      # more than we look at
        self._bases = None
    @property
    def qual(self): return self.module.short + '.' + self.name
    def bases(self, prog):
        if self._bases is None:
            self._bases = [prog.resolve_static(self.module, b) for b in self.node.bases]
        return self._bases
    def mro(self, prog):
        # depth first, left to right, last occurrence kept: agrees with C3 for the diamonds here
        out = [self]
        lists = []
        for b in self.bases(prog):
            if isinstance(b, ClassInfo): lists.append(b.mro(prog))
        flat = [c for l in lists for c in l]
        for i, c in enumerate(flat):
            if c not in flat[i+1:]: out.append(c)
        return out
    def is_enum(self, prog): return any(isinstance(b, Ext) and b.name.endswith('Enum') for b in self.bases(prog))
    def find(self, prog, name):
        for c in self.mro(prog):
            if name in c.members: return c, c.members[name]
        return None, None
    def subclass_of(self, prog, other): return other in self.mro(prog)

class Module:
    def __init__(self, name, path):
        self.name, self.short, self.path = name, name.split('amara3.uxml.')[-1].replace('.__init__', ''), path
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src)
        self.names = {}; self.stars = []; self.cache = {}
        self._scan(self.tree.body)
    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef): self.names[st.name] = ('def', st)
            elif isinstance(st, ast.ClassDef): self.names[st.name] = ('class', ClassInfo(st, self))
            elif isinstance(st, ast.Import):
                for a in st.names: self.names[(a.asname or a.name).split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self.rel(st)
                for a in st.names:
                    if a.name == '*': self.stars.append(base)
                    else: self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.names[t.id] = ('assign', st.value)
            elif isinstance(st, ast.Try): self._scan(st.body)
    def rel(self, st):
        if not st.level: return st.module
        pkg = self.name.split('.')
        if not self.path.endswith('__init__.py'): pkg = pkg[:-1]
        pkg = pkg[:len(pkg) - (st.level - 1)]
        return '.'.join(pkg + ([st.module] if st.module else []))

class Program:
    def __init__(self, root):
        self.root = root; self.mods = {}
    def module(self, name):
        if name in self.mods: return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        m = None
        if os.path.isfile(p + '.py'): m = Module(name, p + '.py')
        elif os.path.isfile(os.path.join(p, '__init__.py')): m = Module(name, os.path.join(p, '__init__.py'))
        self.mods[name] = m
        return m
    PRIVATE = {'writer': '_fp _whandler _indent _depth _awaiting_indent _mapping _prefixes _first_element _ns_handled', 'tree': '_xml_parent _root _parent', 'xml': '_elem_stack _handler',
        'treeiter': '_patterns _pattern_count _sinks _roots _parents _stateses _evstacks _building_depths', 'uxpath.xast': '_xml_root_node'}
    def renamed(self):
        'the private state of a class, of which the contracts speak, is kept otherwise now: what they refute need not be wrong'
        if not hasattr(self, '_renamed'):
            self._renamed = False
            for m, names in self.PRIVATE.items():
                m = self.module('amara3.uxml.' + m)
                src = m and ast.dump(m.tree)
                if m and any("attr='%s'" % x not in src and "'%s'" % x not in src for x in names.split()): self._renamed = True
        return self._renamed
    def lookup(self, mod, name, seen=()):
        'static value of a module-level name'
        if name in mod.cache: return mod.cache[name]
        if name in mod.names:
            d = mod.names[name]
            if d[0] == 'def': v = Fn(d[1], mod, qual=mod.short + '.' + name)
            elif d[0] == 'class': v = d[1]
            elif d[0] == 'import':
                m = self.module(d[1]); v = ModV(m) if m else Ext(d[1])
            elif d[0] == 'from':
                sub = self.module(d[1] + '.' + d[2]); m = self.module(d[1])
                if sub: v = ModV(sub)
                elif m: v = self.lookup(m, d[2], seen + ((mod.name, name),))
                else: v = Ext(d[1] + '.' + d[2])
            else:
                v = self.const(mod, d[1], name)
                if v is None: return ('expr', d[1], mod)
            mod.cache[name] = v
            return v
        for s in mod.stars:
            m = self.module(s)
            if m and (m.name, name) not in seen and not name.startswith('_'):
                r = self.lookup(m, name, seen + ((mod.name, name), (m.name, name)))
                if r is not None: return r
        return None
    def const(self, mod, e, name):
        if isinstance(e, ast.Constant) and e.value is not None: return e.value
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 're' and f.attr == 'compile' and len(e.args) == 1 and not e.keywords:
                try: return Regex(ast.literal_eval(e.args[0]))
                except ValueError: return None
            if isinstance(f, ast.Name) and f.id == 'object' and not e.args: return Sentinel(mod.short + '.' + name)
        return None
    def resolve_static(self, mod, e):
        if isinstance(e, ast.Name): return self.lookup(mod, e.id) or Ext(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_static(mod, e.value)
            if isinstance(b, ModV): return self.lookup(b.mod, e.attr)
            if isinstance(b, Ext): return Ext(b.name + '.' + e.attr)
        return None
    def func(self, dotted):
        "dotted: 'tree.element.xml_encode', 'uxpath.xast.step.compute', also nested functions 'treeutil.any_until._any_until'"
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.module('amara3.uxml.' + '.'.join(parts[:i]))
            if m: break
        else: return None
        v = self.lookup(m, parts[i]); cls = None
        if isinstance(v, ClassInfo) and len(parts) > i + 1:
            cls = v
            c, st = v.find(self, parts[i+1])
            if not isinstance(st, ast.FunctionDef): return None
            v = Fn(st, c.module, cls=c, qual=dotted)
            i += 1
        return v

def is_gen(fn):
    if getattr(fn, '_isgen', None) is None:
        r = False
        stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
            stack.extend(ast.iter_child_nodes(n))
        fn._isgen = r
    return fn._isgen

class Frame:
    def __init__(self, module, parent=None, cls=None, fn=None, key=''):
        self.module, self.parent, self.cls, self.fn, self.key = module, parent, cls, fn, key
        self.env = {}; self.out = None; self.self_ = None; self.globals = set()
    def find(self, name):
        f = self
        while f:
            if name in f.env: return f
            f = f.parent
