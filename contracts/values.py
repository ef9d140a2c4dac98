"""Contracts of conversions and comparison of values, and of the XPath functions (C18)."""
import ast
import z3
from pyvc.core import *
from pyvc.interp import *
from pyvc.theory import *
from pyvc.task import *
from pyvc.builtins_ import nextv
from .axes import XC, obj, make_ctx, cls_of, ALLK, step_facts

CONTRACTS = []
def add(c, *props): c.props = props; CONTRACTS.append(c); return c
# ---------------------------------------------------------------------- what values convert to
NUMPAT = r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*'       # what XPath takes for a number
V_ = Val
def fl(x): return z3.FPVal(x, Flt)
def VALUE(run, l): return run.task.theory.VALof(run, l)
def hv(run): return run.harr('xml_children'), run.harr('xml_value')
def FSTR(run, f):
    th = run.task.theory; i = th.trunc(run, f)
    return z3.If(z3.fpIsNaN(f), strc('NaN'), z3.If(z3.fpIsInf(f), z3.If(z3.fpIsPositive(f), strc('Infinity'), strc('-Infinity')), z3.If(th.freal(run, f) == z3.ToReal(i), th.ISTR(i), PLAIN(REPRF(f)))))
def NUMOFSTR(run, s):
    m = run.task.theory.rmatch(NUMPAT, 'fullmatch', s)
    return z3.If(m, FLOATOF(s), z3.fpNaN(Flt))
def strof(run, h, hx, v):
    th = run.task.theory
    return z3.If(V_.is_ref(v), th.VAL(run, h, hx, V_.l(v)), z3.If(V_.is_strv(v), V_.s(v), z3.If(V_.is_boolv(v), z3.If(V_.b(v), strc('true'), strc('false')),
        z3.If(V_.is_fltv(v), FSTR(run, V_.f(v)), z3.If(V_.is_intv(v), th.ISTR(V_.i(v)), EMPTY_S)))))
STROF = Rec('STROF', [HArr, SArr, Val], Str, strof, recursive=False)
def numof(run, h, hx, v):
    return z3.If(V_.is_ref(v), V_.fltv(NUMOFSTR(run, run.task.theory.VAL(run, h, hx, V_.l(v)))), z3.If(V_.is_strv(v), V_.fltv(NUMOFSTR(run, V_.s(v))), z3.If(V_.is_boolv(v), V_.intv(z3.If(V_.b(v), 1, 0)),
        z3.If(z3.Or(V_.is_fltv(v), V_.is_intv(v)), v, V_.fltv(z3.fpNaN(Flt))))))
NUMOF = Rec('NUMOF', [HArr, SArr, Val], Val, numof, recursive=False)
def boolof(run, v):
    f = V_.f(v)
    return z3.If(V_.is_boolv(v), V_.b(v), z3.If(V_.is_ref(v), z3.BoolVal(True), z3.If(V_.is_strv(v), z3.Length(V_.s(v)) > 0, z3.If(V_.is_fltv(v), z3.Not(z3.Or(z3.fpIsZero(f), z3.fpIsNaN(f))), z3.If(V_.is_intv(v), V_.i(v) != 0, z3.BoolVal(False))))))
BOOLOF = Rec('BOOLOF', [Val], Bool, boolof, recursive=False)
def S_(run, v): return STROF(run, *hv(run), v)
def N_(run, v):
    n = NUMOF(run, *hv(run), v); run.axiom(('num', tid(n)), z3.Or(V_.is_intv(n), V_.is_fltv(n))); return n
def B_(run, v): return BOOLOF(run, v)
def item_facts(v, none=False): return [z3.Or(*([V_.is_none(v)] if none else []), V_.is_boolv(v), V_.is_intv(v), V_.is_fltv(v), V_.is_strv(v), z3.And(V_.is_ref(v), z3.Or(*[KIND(V_.l(v)) == k for k in ALLK]), BORN(V_.l(v)) == -1, HT(V_.l(v)) >= 0))]
def item(run, name='item', none=False):
    v = run.fresh(name, Val)
    for f in item_facts(v, none): run.fact(f)
    return v
def items(run, name='items'):
    t = run.fresh(name, VSeq); run.set_prov(t, item_facts); return t
FLOATS = 'float(), repr(), int() and str() of numbers and format(Decimal(..), "f") are as Python defines them; every string of the form XPath calls a number is accepted by float()'
# ---------------------------------------------------------------------- conversions
class Cast(XC):
    kind = 'gen'; cases = ('sequence', 'value', 'literal'); assumes = (FLOATS,)
    def setup(self, run):
        case = run.task.case
        if case == 'sequence': self.t0 = items(run); return [It(run, self.t0)]
        if case == 'value': return [S(item(run, 'value', True))]
        v = run.fresh('literal', Val); run.fact(z3.Or(V_.is_intv(v), V_.is_fltv(v), V_.is_strv(v)))
        return [obj(run, 'uxpath.xast.literal_wrapper', obj=S(v))]
    def first(self, run, a):
        a = run.norm(a)
        if isinstance(a, (It, Gen)):
            if run.task.contract is self and run.task.case == 'sequence' and a.content is not self.t0: a = It(run, self.t0)
            return run.toval(nextv(run, a, None))
        if isinstance(a, MObj):
            if a.cls is None or a.cls.qual != 'uxpath.xast.literal_wrapper': raise Unsupported('conversion of %r' % a)
            return run.toval(a.content['obj'])
        return run.toval(a)
    def spec(self, run, a): return [run.mk(self.F(run, self.first(run, a)))]
    def check(self, run, args, result):
        t = run.seq_t(result); v = self.first(run, args[0])
        run.oblige('yields', t == unit(run.toval(S(self.F(run, v)))))
class CastS(Cast):
    def F(self, run, v): return S_(run, v)
class CastN(Cast):
    def F(self, run, v): return N_(run, v)
class CastB(Cast):
    def F(self, run, v): return B_(run, v)
add(CastS('uxpath.xast.to_string'), 'C18', 'C16')
add(CastN('uxpath.xast.to_number'), 'C18', 'C16')
add(CastB('uxpath.xast.to_boolean'), 'C18', 'C16')
# ---------------------------------------------------------------------- expressions of which only their results are known
EV = z3.Function('results_of', Int, Val, Val, Int, VSeq)       # expression, context item, position, the rest of the context
FREE.update({'results_of', 'string_before', 'float_of', 'float_accepts', 'value_of_float', 'repr_of_float', 'decimal_notation', 'decimal'})
PURE = 'the parts of an expression, and functions that users add, change nothing and give the same answer each time (for the parts: by induction over the expression, C17)'
CTXF = ('variables', 'extras', 'lookuptables', 'functions', 'parent')
class Expr(Abs):
    'any expression'
    callable = True
    def __init__(self, run, i=None): self.i = run.fresh('expr', Int) if i is None else i
    def truth(self, run): return True
    def hasattr(self, run, name):
        if name in ('compute', '__call__'): return True
        raise Unsupported('hasattr(expression, %s)' % name)
    def attr(self, run, name):
        if name == 'compute': return ExprCompute(self)
        raise Unsupported('expression.' + name)
    def call(self, run, args, kw): return ExprCompute(self).call(run, args, kw)
    def isinstance(self, run, cls):
        if isinstance(cls, Ext): return False
        if isinstance(cls, ClassInfo) and cls.module.short != 'uxpath.xast': return False
        raise Unsupported('the class of an expression')
    def same(self, run, o): return self.i == o.i if isinstance(o, Expr) else None
    def eq(self, run, o): raise Unsupported('== of expressions')
    def is_(self, run, o):
        if o is None or not isinstance(o, Expr): return False
        return run.mk(self.i == o.i)
    def toval(self, run): return Val.opq(self.i)
class ExprCompute(Abs):
    def __init__(self, e): self.e = e
    def call(self, run, args, kw):
        if len(args) != 1 or kw: raise Unsupported('compute')
        return It(run, results(run, self.e, args[0]))
def env_of(run, ctx):
    c0 = run.ctx0_fields
    if all(ctx.content.get(f) is c0[f] for f in CTXF): return z3.IntVal(0)
    return run.fresh('another_context', Int)
def results(run, e, ctx):
    if not isinstance(ctx, MObj) or ctx.cls is None or ctx.cls.qual != 'uxpath.context': raise Unsupported('compute(%r)' % (ctx,))
    return ev(run, e.i, run.toval(ctx.content['item']), run.toval(ctx.content['pos']), env_of(run, ctx))
def ev(run, i, item, pos, env=None):
    t = EV(i, item, pos, z3.IntVal(0) if env is None else env)
    if tid(t) not in run.prov: run.set_prov(t, item_facts)
    return t
def ctx_(run, item_=None, pos=None):
    c = make_ctx(run, S(item(run)) if item_ is None else item_, S(run.fresh('pos', Val)) if pos is None else pos)
    run.ctx0_fields = dict(c.content); p = run.toval(c.content['pos'])
    run.fact(z3.Or(V_.is_none(p), V_.is_intv(p)))
    return c
def first(run, t, default):
    'first item of a sequence'
    r = run.uncons(t)
    return default if r is None else r[0]
NONE, EMPTYSTR = V_.none, V_.strv(EMPTY_S)
def arg_item(run, ctx, a, default):
    "the item that an argument stands for"
    if isinstance(a, Expr): return first(run, results(run, a, ctx), default)
    return run.toval(a)
# ---------------------------------------------------------------------- comparison
OPS = ('=', '!=', '<', '>', '<=', '>=')
def number(run, v, k):
    'apply k to the number term, Int or Flt'
    return z3.If(V_.is_fltv(v), k(V_.f(v)), k(V_.i(v)))
def cmpnum(run, op, a, b):
    th = run.task.theory
    f = {'=': th.num_eq, '!=': lambda r, x, y: z3.Not(th.num_eq(r, x, y)), '<': th.num_lt, '<=': lambda r, x, y: th.num_lt(r, x, y, True), '>': lambda r, x, y: th.num_lt(r, y, x), '>=': lambda r, x, y: th.num_lt(r, y, x, True)}[op]
    return number(run, a, lambda x: number(run, b, lambda y: f(run, x, y)))
def cmpstr(op, a, b):
    return {'=': a == b, '!=': a != b, '<': STRLT(a, b), '>': STRLT(b, a), '<=': z3.Or(STRLT(a, b), a == b), '>=': z3.Or(STRLT(b, a), a == b)}[op]
def cmpint(op, a, b): return {'=': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
def cmp_(op):
    def f(run, h, hx, a, b):
        i = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        num = lambda v: z3.Or(V_.is_intv(v), V_.is_fltv(v))
        return z3.If(z3.Or(V_.is_boolv(a), V_.is_boolv(b)), cmpint(op, i(B_(run, a)), i(B_(run, b))),
            z3.If(z3.Or(num(a), num(b)), cmpnum(run, op, N_(run, a), N_(run, b)), cmpstr(op, S_(run, a), S_(run, b))))
    return f
NAMES = {'=': 'EQ', '!=': 'NE', '<': 'LT', '>': 'GT', '<=': 'LE', '>=': 'GE'}
CMP = {op: Rec('CMP_' + NAMES[op], [HArr, SArr, Val, Val], Bool, cmp_(op), recursive=False) for op in OPS}
class Compare(XC):
    cases = OPS; assumes = (FLOATS,)
    def setup(self, run): return [run.task.case, S(item(run, 'left')), S(item(run, 'right'))]
    def spec(self, run, op, a, b): return run.mk(CMP[op](run, *hv(run), run.toval(a), run.toval(b)))
    def result(self, run, args):
        if args[0] not in OPS: raise Unsupported('operator')
        return self.spec(run, *args)
add(Compare('uxpath.xast.compare'), 'C16')
# ---------------------------------------------------------------------- arguments of functions
class Arg(XC):
    kind = 'gen'; cases = ('expression', 'value'); assumes = (FLOATS, PURE)
    def setup(self, run): return [ctx_(run), Expr(run) if run.task.case == 'expression' else S(item(run, 'value'))]
    def spec(self, run, ctx, a): return [run.mk(self.F(run, arg_item(run, ctx, a, self.default)))]
class StringArg(Arg):
    default = EMPTYSTR
    def F(self, run, v): return S_(run, v)
class NumberArg(Arg):
    default = NONE
    def F(self, run, v): return N_(run, v)
class BooleanArg(Arg):
    default = NONE
    def F(self, run, v): return B_(run, v)
class MaybeIt:
    def result(self, run, args):
        ctx, a = args
        a = run.norm(a)
        if isinstance(a, (It, Gen)): return It(run, [run.mk(self.F(run, run.toval(nextv(run, a, None))))])
        return It(run, self.spec(run, ctx, a))
for c, n in ((StringArg, 'string_arg'), (NumberArg, 'number_arg'), (BooleanArg, 'boolean_arg')):
    c.result = MaybeIt.result
    add(c('uxpath.functions.' + n), 'C18')
# ---------------------------------------------------------------------- the XPath functions, found by the name they are registered under
def registered(prog, name):
    m = prog.module('amara3.uxml.uxpath.functions')
    if m is None: return None
    for st in m.tree.body:
        if isinstance(st, ast.FunctionDef) and len(st.decorator_list) == 1:
            d = st.decorator_list[0]
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'microxpath_function' and len(d.args) == 1 and isinstance(d.args[0], ast.Constant) and d.args[0].value == name and not d.keywords:
                f = prog.lookup(m, st.name)
                if isinstance(f, Fn) and f.node is st: return f
                return Fn(st, m, qual=m.short + '.' + st.name)
class XFun(XC):
    'cases: for each argument E, any expression; V, an item; S, a string; L, a list of items; - when it is left out'
    kind = 'gen'; assumes = (FLOATS, PURE)
    def __init__(self, xname, cases, F): Contract.__init__(self, 'xpath function ' + xname); self.xname, self.cases, self.F = xname, cases, F
    def func(self, prog): return registered(prog, self.xname)
    def setup(self, run):
        ctx = ctx_(run); args = []
        for c in run.task.case.strip('-'):
            args.append({'E': lambda: Expr(run), 'V': lambda: S(item(run, 'value')), 'S': lambda: S(run.fresh('string', Str)), 'L': lambda: LObj(run, items(run))}[c]())
        return [ctx] + args
    def spec(self, run, ctx, *args): return self.F(run, ctx, *args)
def one(v): return unit(v)
def opt_item(run, ctx, a, default): return arg_item(run, ctx, a[0], default) if a else run.toval(ctx.content['item'])
def name_(run, ctx, *a):
    v = opt_item(run, ctx, a, NONE)
    return one(V_.strv(z3.If(V_.is_ref(v), z3.Select(run.harr('xml_name'), V_.l(v)), EMPTY_S)))
def str_(run, ctx, a): return S_(run, arg_item(run, ctx, a, EMPTYSTR))
def num_(run, ctx, a): return N_(run, arg_item(run, ctx, a, NONE))
def XF(xname, cases, F): add(XFun(xname, cases, F), 'C18')
two = ('EE', 'VV', 'EV', 'VE')
XF('name', ('-', 'E', 'V'), name_)
XF('count', ('E',), lambda run, ctx, a: one(V_.intv(z3.Length(results(run, a, ctx)))))
XF('string', ('-', 'E', 'V'), lambda run, ctx, *a: one(V_.strv(S_(run, opt_item(run, ctx, a, EMPTYSTR)))))
XF('number', ('-', 'E', 'V'), lambda run, ctx, *a: one(N_(run, opt_item(run, ctx, a, EMPTYSTR))))
XF('boolean', ('E', 'V'), lambda run, ctx, a: one(V_.boolv(B_(run, arg_item(run, ctx, a, EMPTYSTR)))))
XF('not', ('E', 'V'), lambda run, ctx, a: one(V_.boolv(z3.Not(B_(run, arg_item(run, ctx, a, NONE))))))
XF('true', ('-',), lambda run, ctx: one(V_.boolv(z3.BoolVal(True))))
XF('false', ('-',), lambda run, ctx: one(V_.boolv(z3.BoolVal(False))))
XF('string-length', ('-', 'E', 'V'), lambda run, ctx, *a: one(V_.intv(z3.Length(S_(run, opt_item(run, ctx, a, EMPTYSTR))))))
XF('starts-with', two, lambda run, ctx, a, b: one(V_.boolv(z3.PrefixOf(str_(run, ctx, b), str_(run, ctx, a)))))
XF('contains', two, lambda run, ctx, a, b: one(V_.boolv(z3.Contains(str_(run, ctx, a), str_(run, ctx, b)))))
def sub_before(run, ctx, a, b):
    s, p = str_(run, ctx, a), str_(run, ctx, b)
    return one(V_.strv(z3.If(z3.Contains(s, p), z3.Extract(s, z3.IntVal(0), z3.IndexOf(s, p, 0)), EMPTY_S)))
def sub_after(run, ctx, a, b):
    s, p = str_(run, ctx, a), str_(run, ctx, b); i = z3.IndexOf(s, p, 0) + z3.Length(p)
    return one(V_.strv(z3.If(z3.Contains(s, p), z3.Extract(s, i, z3.Length(s) - i), EMPTY_S)))
XF('substring-before', two, sub_before)
XF('substring-after', two, sub_after)
class Substring(XFun):
    'the characters at positions p, counted from 1, with round(start) <= p, and p < round(start) + round(length) if there is a length; round(x) = floor(x + 1/2)'
    def near(self, run, v):
        r = run.task.theory.freal(run, V_.f(v)); flt = V_.is_fltv(v)
        fin = z3.Not(z3.And(flt, z3.Or(z3.fpIsNaN(V_.f(v)), z3.fpIsInf(V_.f(v)))))
        return fin, z3.If(flt, z3.ToInt(r + z3.Q(1, 2)), V_.i(v)), z3.And(flt, z3.fpIsInf(V_.f(v)), z3.fpGT(V_.f(v), z3.FPVal(0.0, V_.f(v).sort())))
    def spec(self, run, ctx, a, b, *c):
        s = str_(run, ctx, a); L = z3.Length(s); ok, n, _ = self.near(run, num_(run, ctx, b))
        cut = lambda x: z3.If(x < 0, 0, z3.If(x > L, L, x))
        lo = cut(n - 1)
        if c:
            fin, k, inf = self.near(run, num_(run, ctx, c[0]))
            hi = z3.If(inf, L, cut(n - 1 + k)); ok = z3.And(ok, z3.Or(fin, inf))
        else:
            v = num_(run, ctx, b); hi = L
            least = z3.And(V_.is_fltv(v), z3.fpIsInf(V_.f(v)), z3.fpLT(V_.f(v), z3.FPVal(0.0, V_.f(v).sort())))
            ok = z3.Or(ok, least); lo = z3.If(least, z3.IntVal(0), lo)
        return one(V_.strv(z3.If(z3.And(ok, lo < hi), z3.Extract(s, lo, hi - lo), EMPTY_S)))
add(Substring('substring', ('EE', 'VV', 'EV', 'EEE', 'VVV', 'EVV'), None), 'C18')
STRS = Hom('STRS', [HArr, SArr], Str, lambda run, ps, x: STROF(run, ps[0], ps[1], x))
class Concat(XFun):
    def part(self, run, ctx, a): return STRS.app(run, hv(run), results(run, a, ctx)) if isinstance(a, Expr) else run.str_t(a)
    def spec(self, run, ctx, *args): return one(V_.strv(cat(*[self.part(run, ctx, a) for a in args]) if args else EMPTY_S))
    def homs(self, run, *args): return [('STRS', lambda P: STRS.app(run, hv(run), P))]
add(Concat('concat', ('-', 'E', 'S', 'EE', 'ES', 'SE', 'EEE', 'ESE', 'EEEE'), None), 'C18')
PARSE = z3.Function('expression_of', Str, Int); FREE.add('expression_of')
class Parse(Contract):
    'what the grammar makes of a string: lemma.grammar and lemma.tokens say which expression; here only that it depends on the string alone'
    def apply(self, run, f, args, kw):
        args = self.normargs(run, f, args, kw); run.task.used.add(self.name)
        return getattr(self, 'cls', Expr)(run, PARSE(run.str_t(args[0])))
PARSED = 'the parser of expressions gives the same expression for the same string (ply is trusted to be the automaton of its tables; the tables are what lemma.grammar and lemma.tokens are about)'
EACH = Hom('EACH', [Int, Val, Int], VSeq, lambda run, ps, x: ev(run, ps[0], x, ps[1], ps[2]))
class ForEach(XFun):
    calls = {'uxpath.parse': Parse('uxpath.parse')}; assumes = (FLOATS, PURE, PARSED)
    def app(self, run, ctx, b, t): return EACH.app(run, (PARSE(str_(run, ctx, b)), run.toval(ctx.content['pos']), z3.IntVal(0)), t)
    def spec(self, run, ctx, a, b):
        t = results(run, a, ctx) if isinstance(a, Expr) else run.seq_t(a.content)
        return self.app(run, ctx, b, run.known(t))
    def homs(self, run, ctx, a, b): return [('EACH', lambda P: self.app(run, ctx, b, P))]
add(ForEach('for-each', ('EE', 'EV', 'LE', 'LV'), None), 'C18')
class Table(Abs):
    def __init__(self): self.log = []
    def setitem(self, run, k, v): self.log.append((k, v))
class AnyFn(Abs):
    callable = True
    def call(self, run, args, kw): raise Unsupported('call of the function registered')
class Register(Contract):
    'the decorator puts the function, and nothing else, into the table under its name'
    checkonly = True
    def setup(self, run): self.table = Table(); return [S(run.fresh('name', Str))]
    def globals_hook(self, run, mod, nm):
        if mod.short == 'uxpath.functions' and nm == 'BUILTIN_FUNCTIONS': return self.table
    def execute(self, run, fn, args):
        f = AnyFn(); run.call(run.call(fn, list(args), {}), [f], {}); return f
    def check(self, run, args, f):
        log = self.table.log
        run.oblige('one entry, of the function itself', len(log) == 1 and log[0][1] is f)
        run.oblige('under its name', run.str_t(log[0][0]) == run.str_t(args[0]))
add(Register('uxpath.functions.microxpath_function'), 'C18')
