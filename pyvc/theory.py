'''Specification functions: homomorphisms over sequences, recursive functions over the tree, string functions.'''
import z3
from .core import *
from .interp import *

DEFS = {}       # the specification functions by name
class Hom:
    '''A function on sequences with H([]) = unit, H(a ++ b) = H(a) . H(b). step(run, params, x) gives H([x]).'''
    fuse = None     # fuse(run, params, t): H of a part t that is itself put together by a function, as a lemma has it
    def __init__(self, name, params, rng, step, dom=VSeq):
        self.name, self.rng, self.step = name, rng, step
        self.f = z3.Function(name, *params, dom, rng); self.dom = dom; DEFS[name] = self
    def uf(self, params, t): return self.f(*params, t)
    def unit(self):
        return {Int: z3.IntVal(0), Bool: z3.BoolVal(False)}.get(self.rng) if self.rng in (Int, Bool) else z3.Empty(self.rng)
    def join(self, ts):
        if not ts: return self.unit()
        if self.rng == Int: return z3.Sum(*ts) if len(ts) > 1 else ts[0]
        if self.rng == Bool: return z3.Or(*ts) if len(ts) > 1 else ts[0]
        return cat(*ts)
    def app(self, run, params, t):
        out = []
        for p in parts_of(t):
            if is_unit(p): out.append(self.step(run, params, p.arg(0)))
            elif isinstance(self, RevHom) and p.decl().name() == 'REV': out.append(p.arg(0))
            elif self.rng in (Int, Bool) and p.decl().name() == 'REV': out.append(self.app(run, params, run.known(p.arg(0))))       # a sum, or a disjunction: the order does not matter
            elif self.fuse and (q := self.fuse(run, params, p)) is not None: out.append(q)
            elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and all(is_unit(q) for b in p.children()[1:] for q in parts_of(b)):
                out.append(z3.If(p.arg(0), self.app(run, params, p.arg(1)), self.app(run, params, p.arg(2))))
            else:
                u = self.uf(params, p)
                run.note_app(self, tuple(params), p)
                if isinstance(self, RevHom) and tid(p) in run.prov: run.prov[tid(u)] = run.prov[tid(p)]
                if self.rng == Int: run.axiom(('nonneg', tid(u)), u >= 0); run.keep.append(u)
                out.append(u)
        return self.join(out)
class RevHom(Hom):
    'H(a ++ b) = H(b) . H(a)'
    def join(self, ts): return Hom.join(self, ts[::-1])
class IHom(Hom):
    'F(a ++ b, n) = F(a, n) ++ F(b, n + len(a)): what an element gives depends on its place as well; the last parameter is the place of the first'
    def app(self, run, params, t):
        out = []; *ps, off = params
        for p in parts_of(t):
            if is_unit(p): out.append(self.step(run, tuple(ps) + (off,), p.arg(0))); off = z3.simplify(off + 1)
            else:
                params = tuple(ps) + (off,)
                out.append(self.uf(params, p)); run.note_app(self, params, p); off = z3.simplify(off + z3.Length(p))
        return self.join(out)
class Fold:
    'F(acc, P ++ [x]) = step(run, params, F(acc, P), x)'
    def __init__(self, name, params, rng, step):
        self.f = z3.Function(name, *params, rng, VSeq, rng); self.step = step; DEFS[name] = self
    def app(self, run, params, acc, t):
        for p in parts_of(t):
            acc = self.step(run, params, acc, p.arg(0)) if is_unit(p) else self.f(*params, acc, p)
        return acc
class Rec:
    'a recursive function, unfolded where the proof touches it'
    def __init__(self, name, args, rng, unfold, depth=1, recursive=True):
        self.f = z3.Function(name, *args, rng); self.unfold, self.depth, self.recursive = unfold, depth, recursive; DEFS[name] = self
    def __call__(self, run, *args):
        t = self.f(*args)
        if run.unf < self.depth and (tid(t), 'unf') not in run.axdone:
            run.axdone.add((tid(t), 'unf')); run.keep.append(t)
            run.unf += self.recursive
            try: run.fact(t == self.unfold(run, *args))
            finally: run.unf -= self.recursive
        return t

def charmap(table):
    'the function on strings that puts table[c] for each character c it has, and leaves the others: {character: string}'
    table = dict(sorted((k, v) for k, v in table.items() if k != v)); n = 'map' + ''.join('_%x>%s' % (ord(k), v) for k, v in table.items())
    if n not in DEFS or not isinstance(DEFS[n], Hom):
        def step(run, ps, x):
            t = unit(x)
            for k, v in table.items(): t = z3.If(x == ord(k), strc(v), t)
            if z3.is_int_value(x): t = strc(table[chr(x.as_long())]) if chr(x.as_long()) in table else unit(x)
            return t
        Hom(n, [], Str, step, Str).table = table
    return DEFS[n]
def piecewise(run, t, a, b):
    """str.replace of a by b in a string put together from parts, done part by part where no occurrence can lie across a seam: of the parts that an occurrence would touch, the first has to
    end with a proper part of a's beginning and the last to begin with one of its end. None if that is not known."""
    INF = None
    def ends(pieces, u):            # may u be the end of a row of such pieces? pieces: (strings, the characters which stand for themselves but these)
        strs, keys = pieces
        if any(z.endswith(u) for z in strs) or (keys is not None and u[-1] not in keys and len(u) == 1): return True
        if any(z and len(z) < len(u) and u.endswith(z) and ends(pieces, u[:-len(z)]) for z in strs): return True
        return keys is not None and len(u) > 1 and u[-1] not in keys and ends(pieces, u[:-1])
    def begins(pieces, u): return ends(([z[::-1] for z in pieces[0]], pieces[1]), u[::-1])
    ps = parts_of(t); out = []; seams = []; lit = []; n = len(a)
    pre, suf = [a[:i] for i in range(1, n)], [a[i:] for i in range(1, n)]
    def values(c):
        if z3.is_int_value(c): return {c.as_long()}
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
            x, y = values(c.arg(1)), values(c.arg(2)); return x | y if x and y else None
    def flush():
        if lit:
            s = ''.join(lit); del lit[:]; out.append(strc(s.replace(a, b)))
            seams.append((any(s.endswith(u) or u.endswith(s) for u in pre), any(s.startswith(u) or u.startswith(s) for u in suf)))
    for p in ps:
        if is_unit(p):
            c = p.arg(0)
            if z3.is_int_value(c): lit.append(chr(c.as_long())); continue
            flush(); v = values(c)
            seams.append((any(v is None or ord(u[-1]) in v for u in pre), any(v is None or ord(u[0]) in v for u in suf)))
            out.append(p if n > 1 or (v and ord(a) not in v) else z3.If(c == ord(a), strc(b), p)); continue
        flush(); d = DEFS.get(p.decl().name()) if z3.is_app(p) else None; table = getattr(d, 'table', None)
        if table is None and n > 1: return None
        arg = p if table is None else p.arg(0); table = table or {}
        pieces = (list(table.values()), set(table))
        if any(ends(pieces, a[:i]) and begins(pieces, a[i:]) for i in range(1, n)): return None
        seams.append((any(ends(pieces, u) for u in pre), any(begins(pieces, u) for u in suf)))
        new = {k: z.replace(a, b) for k, z in table.items()}
        if n == 1: new.setdefault(a, b)
        out.append(charmap(new).app(run, (), arg))
    flush()
    if any(seams[i][0] and seams[j][1] for i in range(len(seams)) for j in range(i + 1, len(seams))): return None
    return cat(*out) if out else EMPTY_S
ESCAPES = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
HASC = Hom('HASC', [Int], Bool, lambda run, ps, x: x == ps[0], Str)       # the string has the character
QUOTES = dict(ESCAPES, **{'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'})
def quoted(run, v, table):
    'what xml.sax.saxutils.quoteattr makes of v: quotation marks outside, apostrophes if v has quotation marks only'
    def has(c):
        t = HASC.app(run, (z3.IntVal(ord(c)),), v)
        run.axiom(('hasc', tid(v), c), t == z3.Contains(v, strc(c))); run.keep.append(v); return t
    q = '"'
    if run.branch(has('"')):
        if run.branch(has("'")): table = dict(table, **{'"': '&quot;'})
        else: q = "'"
    return q, charmap(table)
FREE = {'kind', 'sval', 'born', 'has', 'get', 'keys', 'height', 'depth'}      # any interpretation of these is that of some input, given the facts
def apps_of(ts, seen, out):
    'applications of functions in the terms'
    todo = list(ts)
    while todo:
        t = todo.pop(); i = tid(t)
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): out.append(None); continue
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(t)
        todo.extend(t.children())
    return out
def confirm(run, goal):
    '''Is there a small input for which the goal is false? Sequences of which nothing is known are taken to be empty or of one element, and
    specification functions are unfolded until nothing is left of them: the counterexample then rests on no function being uninterpreted.'''
    nf = len(run.facts); neg = z3.Not(goal); seen = set(); extra = []; done = set(); keep = []
    saved = (set(run.axdone), {k: list(v) for k, v in run.homapps.items()}, dict(run.prov), dict(run.splits)); run.nochoice = True
    run.solver.push()
    try:
        for rnd in range(5):
            todo = apps_of(run.facts[:nf] + [neg] + extra + run.facts[nf:], seen, []); new = False
            for t in todo:
                if t is None: return False
                n = t.decl().name(); d = DEFS.get(n)
                if d is None:
                    if n in FREE: continue
                    return False
                new = True; a = [t.arg(i) for i in range(t.num_args())]; keep.append(a)
                if isinstance(d, Rec):
                    if rnd >= 4: return False
                    extra.append(t == d.unfold(run, *a)); continue
                if not isinstance(d, Hom): return False
                ps, q = a[:-1], a[-1]
                if len(parts_of(q)) != 1 or is_unit(q): extra.append(t == d.app(run, ps, q)); continue
                if rnd < 3:
                    if tid(q) not in done:
                        done.add(tid(q)); y = run.fresh('one', q.sort().basis()); keep.append(y)
                        pv = run.prov.get(tid(q))
                        extra.append(z3.Or(q == z3.Empty(q.sort()), z3.And(q == z3.Unit(y), *(pv(y) if pv else []))))
                        extra.append(z3.Implies(q == z3.Unit(y), t == d.step(run, ps, y)))
                        run.keep.append((q, y))
                    else:
                        y = next(y for p, y in reversed([k for k in run.keep if isinstance(k, tuple)]) if p.eq(q))
                        extra.append(z3.Implies(q == z3.Unit(y), t == d.step(run, ps, y)))
                else: extra.append(q == z3.Empty(q.sort()))
                extra.append(z3.Implies(q == z3.Empty(q.sort()), t == d.unit()))
            if not new: break
        else: return False
        s = z3.Solver(); s.set('timeout', Z3_MS); s.add(*run.facts); s.add(*extra); s.add(neg)
        return s.check() == z3.sat
    except Unsupported: return False
    finally:
        run.solver.pop(); del run.facts[nf:]; run.nochoice = False
        run.axdone, run.homapps, run.prov, run.splits = saved

HArr = z3.ArraySort(Loc, VSeq)
PArr = z3.ArraySort(Loc, Val)
SArr = z3.ArraySort(Loc, Str)
DArr = z3.ArraySort(Loc, Dict)
R = Val.ref
HT = z3.Function('height', Loc, Int)          # of the subtree
DP = z3.Function('depth', Loc, Int)
SPACE = z3.Function('isspace', Str, Bool)      # empty or only white space, as str.strip() sees it

class Theory:
    def __init__(self):
        self.JOIN = Hom('JOIN', [], Str, lambda run, ps, x: Val.s(x) if not (z3.is_app(x) and x.decl().name() == 'strv') else x.arg(0))
        self.REV = RevHom('REV', [], VSeq, lambda run, ps, x: unit(x))
        self.MEMBER = Hom('MEMBER', [Val], Bool, lambda run, ps, x: x == ps[0])
        # string value of a node
        def val(run, h, hv, l):
            return z3.If(KIND(l) == TEXT, SVAL(l), z3.If(KIND(l) == ATTR, z3.Select(hv, l), self.VALS.app(run, (h, hv), z3.Select(h, l))))
        self.VAL = Rec('VAL', [HArr, SArr, Loc], Str, val)
        self.VALS = Hom('VALS', [HArr, SArr], Str, lambda run, ps, x: self.VAL(run, ps[0], ps[1], Val.l(x)))
        # descendant elements
        self.DESC = Hom('DESC', [HArr], VSeq, lambda run, ps, x: z3.If(z3.And(Val.is_ref(x), KIND(Val.l(x)) == ELEMENT), cat(unit(x), self.DESC_(run, ps[0], Val.l(x))), EMPTY_V))
        self.DESC_ = Rec('DESC_', [HArr, Loc], VSeq, lambda run, h, l: self.DESC.app(run, (h,), z3.Select(h, l)))
        # all nodes of a subtree, in document order
        self.PRE = Hom('PRE', [HArr], VSeq, lambda run, ps, x: self.PRE_(run, ps[0], Val.l(x)))
        self.PRE_ = Rec('PRE_', [HArr, Loc], VSeq, lambda run, h, l: cat(unit(R(l)), self.PRE.app(run, (h,), z3.Select(h, l))))
        self.SIZE = Hom('SIZE', [HArr], Int, lambda run, ps, x: self.SIZE_(run, ps[0], Val.l(x)))
        self.SIZE_ = Rec('SIZE_', [HArr, Loc], Int, lambda run, h, l: 1 + self.SIZE.app(run, (h,), z3.Select(h, l)))
        self.ISTR = z3.Function('decimal', Int, Str)
        self.REP = z3.Function('repeat', Str, Int, Str)
        esc = charmap(ESCAPES)
        self.ESC = esc.f
        self.QUOTE = z3.Function('quoteattr_sax', Str, Str)
        self.FNEG = z3.Function('fneg', Flt, Flt)
        self.FADD = None
    def on_split(self, run, St, P, x, R_): pass
    def VALof(self, run, l): return self.VAL(run, run.harr('xml_children'), run.harr('xml_value'), l)
    # --- engine services
    def repeat(self, run, s, n):
        t = self.REP(s, n)
        if z3.is_int_value(n) and n.as_long() == 0: return EMPTY_S
        if z3.is_int_value(n) and n.as_long() == 1: return s
        return t
    def known_slice(self, run, t, a, b):
        'slices of sequences whose shape is known, at the seams'
        t = run.known(t)
        ps = parts_of(t)
        L = z3.Length(t)
        pos = [z3.IntVal(0)]
        for p in ps: pos.append(z3.simplify(pos[-1] + (z3.IntVal(1) if is_unit(p) else z3.Length(p))))
        def seam(i):
            i = z3.simplify(i)
            for k, q in enumerate(pos):
                if i.eq(q): return k
            for k, q in enumerate(pos):
                if run.entails(i == q): return k
        x, y = seam(a), seam(b)
        if x is None or y is None: return None
        return cat(*ps[x:y]) if y > x else z3.Empty(t.sort())
    def last(self, run, t):
        t = run.known(t); ps = parts_of(t)
        if is_unit(ps[-1]): return ps[-1].arg(0)
        return self.unsnoc(run, t)[1]
    def unsnoc(self, run, t):
        t = run.known(t); ps = parts_of(t)
        if not ps: return None
        p = ps[-1]
        if is_unit(p): return (cat(*ps[:-1]) if len(ps) > 1 else z3.Empty(t.sort())), p.arg(0)
        if run.branch(z3.Length(p) > 0):
            i, x = run.fresh('ini', t.sort()), run.fresh('lst', Val)
            run.split(p, [i, z3.Unit(x)])
            return cat(*(ps[:-1] + [i])), x
        run.split(p, [])
        return self.unsnoc(run, cat(*ps[:-1]) if len(ps) > 1 else z3.Empty(t.sort()))
    def insert_at(self, run, t, k, x):
        t = run.known(t)
        a, b = self.known_slice(run, t, z3.IntVal(0), k), self.known_slice(run, t, k, z3.Length(t))
        if a is not None and b is not None: return cat(a, unit(x), b)
        # 0 <= k <= len(t) by clamping
        d = run.__dict__.setdefault('_cuts', {}); key = (tid(t), tid(z3.simplify(k)))
        if key not in d: d[key] = (run.fresh('a', VSeq), run.fresh('b', VSeq), t, z3.simplify(k))
        a, b = d[key][:2]
        run.fact(z3.Implies(z3.And(k >= 0, k <= z3.Length(t)), z3.And(t == cat(a, b), z3.Length(a) == k)))
        return cat(a, unit(x), b)
    def pop_at(self, run, o, t, i):
        i = run.int_t(i); t = run.known(t)
        L = z3.Length(t)
        if not run.truth(run.mk(z3.And(i < L, i >= -L))): raise PyRaise(Exc('IndexError'))
        ps = parts_of(t); pos = z3.IntVal(0)
        for k, p in enumerate(ps):
            if is_unit(p) and run.entails(i == pos):
                run.set_content(o, cat(*(ps[:k] + ps[k+1:])) if len(ps) > 1 else EMPTY_V)
                return run.fromval(p.arg(0))
            pos = z3.simplify(pos + (z3.IntVal(1) if is_unit(p) else z3.Length(p)))
        a, b, x = run.fresh('a', VSeq), run.fresh('b', VSeq), run.fresh('x', Val)
        k = z3.If(i >= 0, i, i + L)
        run.fact(z3.And(t == cat(a, unit(x), b), z3.Length(a) == k))
        run.set_content(o, cat(a, b))
        return run.fromval(x)
    def list_index(self, run, t, x):
        'first position of an element equal to x (list.index)'
        # for nodes: elements are equal only to themselves, text to text with the same characters
        t = run.known(t); off = []; ps = parts_of(t)
        while ps:
            p = ps[0]
            if is_unit(p):
                c = self.veq(run, p.arg(0), x)
                if run.entails(c): return run.mk(z3.simplify(z3.Sum([z3.IntVal(0)] + [z3.Length(o) for o in off])))
                if not run.entails(z3.Not(c)): break
            elif not run.entails(z3.Not(self.EQMEM(run, x).app(run, (run.toval(x),), p))): break
            off.append(ps.pop(0))
        a, e, b = run.fresh('a', VSeq), run.fresh('e', Val), run.fresh('b', VSeq)
        if run.choose(2) == 0:
            self._split_at(run, t, a, e, b)
            run.fact(self.veq(run, e, x))
            run.fact(z3.Not(self.EQMEM(run, x).app(run, (run.toval(x),), a)))
            return run.mk(z3.Length(a))
        run.fact(z3.Not(self.EQMEM(run, x).app(run, (run.toval(x),), t)))
        raise PyRaise(Exc('ValueError'))
    def _split_at(self, run, t, a, e, b):
        run.split_loop(t, a, e, b)
    def veq(self, run, e, x):
        sk = run.task.strkinds; xv = run.toval(x)
        return z3.Or(e == xv, z3.And(Val.is_ref(e), Val.is_ref(xv), run.kind_in(Val.l(e), sk), run.kind_in(Val.l(xv), sk), SVAL(Val.l(e)) == SVAL(Val.l(xv))))
    def EQMEM(self, run, x):
        # only text can be equal to another node
        if run.isloc(x) and run.entails(z3.Not(run.kind_in(run.loc(x), run.task.strkinds))): return self.MEMBER
        if not hasattr(self, '_eqmem'):
            self._eqmem = Hom('EQMEM', [Val], Bool, lambda r, ps, e: self.veq(r, e, S(ps[0])))
        return self._eqmem
    def seq_contains(self, run, t, x):
        return run.mk(self.EQMEM(run, x).app(run, (run.toval(x),), run.known(t)))
    def list_remove(self, run, o, t, x):
        i = self.list_index(run, t, x)
        self.pop_at(run, o, t, i)
        return None
    def strmethod(self, run, o, name, a, kw):
        if isinstance(o, str) and name in ('lower', 'upper', 'title', 'capitalize') and not a: return getattr(o, name)()
        t = run.str_t(o)
        if name == 'strip' and not a: return StripV(t)
        if name == 'startswith': return run.mk(z3.PrefixOf(run.str_t(a[0]), t))
        if name == 'endswith': return run.mk(z3.SuffixOf(run.str_t(a[0]), t))
        if name == 'index' and len(a) == 1:
            s = run.str_t(a[0])
            if not run.truth(run.mk(z3.Contains(t, s))): raise PyRaise(Exc('ValueError'))
            return run.mk(z3.IndexOf(t, s, 0))
        if name == 'find' and len(a) == 1: return run.mk(z3.IndexOf(t, run.str_t(a[0]), 0))
        if name == 'replace' and len(a) == 2 and isinstance(a[0], str):
            if isinstance(a[1], str) and a[0]:
                r = piecewise(run, run.known(t), a[0], a[1])
                if r is not None: return run.mk(r)
            return run.mk(z3.Function('replace_' + '_'.join('%x' % ord(c) for c in a[0]), Str, Str, Str)(t, run.str_t(a[1])))
        raise Unsupported('str.' + name)
    def sax(self, run, name, v):
        v = run.norm(v)
        if isinstance(v, str):
            import xml.sax.saxutils as x
            return getattr(x, name)(v)
        t = run.str_t(v)
        if name == 'escape':
            run.axiom(('escape space', tid(t)), z3.Implies(SPACE(t), self.ESC(t) == t)); run.keep.append(t)
            return run.mk(charmap(ESCAPES).app(run, (), t))
        if run.task.contract is not None and getattr(run.task.contract, 'quoting', False):
            q, f = quoted(run, t, QUOTES); return run.mk(cat(strc(q), f.app(run, (), t), strc(q)))
        return run.mk(self.QUOTE(t))
    def regex(self, run, rx, name, a):
        if name not in ('match', 'fullmatch', 'search') or len(a) != 1: raise Unsupported('regex ' + name)
        if isinstance(run.norm(a[0]), str):
            import re
            return MatchRes(z3.BoolVal(bool(getattr(re, name)(rx.pat, a[0]))))
        t = run.str_t(a[0])
        if is_unit(t) and run.nochoice is False:
            from .rx import onechar
            try: return MatchRes(incls(run, onechar(rx.pat, name), t.arg(0)))
            except ValueError as e: raise Unsupported('regex: %s' % e)
        return MatchRes(self.rmatch(rx.pat, name, t))
    def rmatch(self, pattern, how, t):
        from .rx import ident
        try: return RMATCH(z3.IntVal(ident(pattern, how)), t)
        except ValueError as e: raise Unsupported('regex: %s' % e)
    # --- floats: IEEE 754 double precision; conversions from and to integers and strings are Python's
    def fltc(self, run, x):
        import math
        return S(z3.fpNaN(Flt) if math.isnan(x) else z3.fpPlusInfinity(Flt) if x == math.inf else z3.fpMinusInfinity(Flt) if x == -math.inf else z3.FPVal(x, Flt))
    def freal(self, run, f):
        run.axiom(('freal', tid(f)), z3.And(z3.Implies(z3.fpIsZero(f), FREAL(f) == 0), z3.Implies(z3.fpGT(f, z3.FPVal(0.0, Flt)), FREAL(f) > 0), z3.Implies(z3.fpLT(f, z3.FPVal(0.0, Flt)), FREAL(f) < 0)))
        run.keep.append(f); return FREAL(f)
    def isnan(self, run, v): return self._fl(run, v, z3.fpIsNaN)
    def isinf(self, run, v): return self._fl(run, v, z3.fpIsInf)
    def _fl(self, run, v, p):
        v = run.norm(v)
        if isinstance(v, S) and v.t.sort() == Val: v = run.concretize(v)
        if isinstance(v, S) and v.t.sort() == Flt: return run.mk(p(v.t))
        if run.sortof(v) in ('int', 'bool'):
            t = run.int_t(v)
            if run.branch(z3.Or(t >= MAXFLT, t <= -MAXFLT)): raise PyRaise(Exc('OverflowError'))
            return False
        if run.sortof(v) in ('str', 'none', 'loc'): raise PyRaise(Exc('TypeError'))
        raise Unsupported('isnan')
    def exact(self, run, v):
        'the value of an integer, a fraction or a finite float, as a real number'
        v = run.norm(v)
        if isinstance(v, RealV): return v.r
        if isinstance(v, S) and v.t.sort() == Val: v = run.concretize(v)
        if isinstance(v, float): v = self.fltc(run, v)
        if isinstance(v, S) and v.t.sort() == Flt:
            if run.branch(z3.fpIsNaN(v.t)): raise PyRaise(Exc('ValueError'))
            if run.branch(z3.fpIsInf(v.t)): raise PyRaise(Exc('OverflowError'))
            return self.freal(run, v.t)
        if run.sortof(v) in ('int', 'bool'): return z3.ToReal(run.int_t(v))
        raise Unsupported('number')
    def trunc(self, run, f):
        r = self.freal(run, f); return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    def f2int(self, run, v):
        if run.branch(z3.fpIsNaN(v.t)): raise PyRaise(Exc('ValueError'))
        if run.branch(z3.fpIsInf(v.t)): raise PyRaise(Exc('OverflowError'))
        return S(self.trunc(run, v.t))
    def tofloat(self, run, v):
        v = run.norm(v)
        if isinstance(v, S) and v.t.sort() == Val: v = run.concretize(v)
        s = run.sortof(v)
        if isinstance(v, str):
            try: return self.fltc(run, float(v))
            except ValueError: raise PyRaise(Exc('ValueError'))
        if s in ('str', 'loc'):
            t = run.str_t(v)
            run.axiom(('floatstr', tid(t)), z3.Implies(self.rmatch(DECIMAL, 'fullmatch', t), FLOATSTR(t)))
            if run.branch(z3.Not(FLOATSTR(t))): raise PyRaise(Exc('ValueError'))
            return S(FLOATOF(t))
        if s == 'flt': return v
        raise Unsupported('float()')
    def num_eq(self, run, a, b):
        'numbers are equal, whether ints or floats'
        if a.sort() == Flt and b.sort() == Flt: return z3.fpEQ(a, b)
        if a.sort() == Flt: a, b = b, a
        if b.sort() != Flt: return a == b
        return z3.And(z3.Not(z3.fpIsNaN(b)), z3.Not(z3.fpIsInf(b)), z3.ToReal(a) == self.freal(run, b))
    def num_lt(self, run, a, b, le=False):
        fa, fb = a.sort() == Flt, b.sort() == Flt
        if fa and fb: return z3.fpLEQ(a, b) if le else z3.fpLT(a, b)
        if not fa and not fb: return a <= b if le else a < b
        f = a if fa else b; x = self.freal(run, a) if fa else z3.ToReal(a); y = self.freal(run, b) if fb else z3.ToReal(b)
        pos = z3.fpGT(f, z3.FPVal(0.0, Flt))
        return z3.And(z3.Not(z3.fpIsNaN(f)), z3.If(z3.fpIsInf(f), z3.Not(pos) if fa else pos, x <= y if le else x < y))
    def fcompare(self, run, op, a, b):
        g = lambda v: v.t if isinstance(v, S) and v.t.sort() == Flt else run.int_t(v)
        x, y = g(a), g(b); n = type(op).__name__
        t = {'Eq': lambda: self.num_eq(run, x, y), 'Lt': lambda: self.num_lt(run, x, y), 'LtE': lambda: self.num_lt(run, x, y, True), 'Gt': lambda: self.num_lt(run, y, x), 'GtE': lambda: self.num_lt(run, y, x, True)}[n]()
        return run.mk(z3.simplify(t))
    def scompare(self, run, op, a, b):
        n = type(op).__name__
        if n in ('Gt', 'GtE'): a, b = b, a
        ca, cb = const_str(a), const_str(b)
        if ca is not None and cb is not None: return ca < cb if n in ('Lt', 'Gt') else ca <= cb
        return run.mk(z3.simplify(STRLT(a, b) if n in ('Lt', 'Gt') else z3.Or(STRLT(a, b), a == b)))
    def type_(self, run, v): return TypeV(run.norm(v))
    def range_(self, run, n):
        p = getattr(run, 'pattern', None)
        if p is not None: return p.range_(run, n)
        raise Unsupported('range of unknown length')

INCLS = z3.Function('in_class', Int, Int, Bool)              # the character is in the class with this number: see incls
SPECIAL = sorted(ord(c) for c in ' \t\n\r&<>"\'#;=/x')
def incls(run, iv, c):
    'the character c is in one of the ranges; of the definition only what holds of the characters of the syntax is put to the solver'
    import hashlib
    inside = lambda k: any(a <= k <= b for a, b in iv)
    if z3.is_int_value(c): return z3.BoolVal(inside(c.as_long()))
    t = INCLS(z3.IntVal(int(hashlib.sha256(repr(tuple(iv)).encode()).hexdigest()[:12], 16)), c)
    if (tid(t), 'cls') not in run.axdone:
        run.axdone.add((tid(t), 'cls')); run.keep.append(t)
        run.fact(z3.Implies(z3.Or(*[c == k for k in SPECIAL]), t == z3.Or(*[c == k for k in SPECIAL if inside(k)])))
        run.fact(z3.Implies(t, z3.And(c >= (iv[0][0] if iv else 0), c <= (iv[-1][1] if iv else 0))))
    return t
STRLT = z3.Function('string_before', Str, Str, Bool)         # the order of strings, which is total
RMATCH = z3.Function('re_match', Int, Str, Bool)
IDOF = z3.Function('identity', Loc, Int)
FREAL = z3.Function('value_of_float', Flt, z3.RealSort())
DECIMAL = r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*'        # some of what float() accepts
FLOATSTR = z3.Function('float_accepts', Str, Bool)
FLOATOF = z3.Function('float_of', Str, Flt)
REPRF = z3.Function('repr_of_float', Flt, Str)
PLAIN = z3.Function('decimal_notation', Str, Str)          # format(Decimal(s), 'f')
class MatchRes(Abs):
    'match object or None'
    def __init__(self, c): self.c = c
    def is_(self, run, o):
        if o is None: return run.mk(z3.Not(self.c))
        return False
    def truth(self, run): return run.branch(self.c)
    def isinstance(self, run, cls): raise Unsupported('match')
class TypeV(Abs):
    'type(v)'
    def __init__(self, v): self.v = v
    def eq(self, run, o): return self.is_(run, o)
    def is_(self, run, o):
        if isinstance(o, Ext):
            v = self.v
            if isinstance(v, S) and v.t.sort() == Val:
                p = {'bool': Val.is_boolv, 'int': Val.is_intv, 'float': Val.is_fltv, 'str': Val.is_strv}.get(o.name)
                if p is not None: return run.mk(z3.simplify(p(v.t)))
                if o.name == 'NoneType': return run.mk(Val.is_none(v.t))
            s = run.sortof(v); n = {'bool': 'bool', 'int': 'int', 'float': 'flt', 'str': 'str'}.get(o.name)
            if s and n: return s == n
        if isinstance(o, ClassInfo):
            v = self.v
            if isinstance(v, S) and v.t.sort() == Val:
                ks = [k for k, c in run.task.kinds.items() if c is o]
                return run.mk(z3.And(Val.is_ref(v.t), run.kind_in(Val.l(v.t), ks))) if ks else False
            if run.isloc(v):
                ks = [k for k, c in run.task.kinds.items() if c is o]
                return run.mk(run.kind_in(run.loc(v), ks)) if ks else False
            if isinstance(v, MObj): return v.cls is o
        raise Unsupported('type() compared with %r' % (o,))
    def truth(self, run): return True
    def isinstance(self, run, cls): raise Unsupported('isinstance of type()')
MAXFLT = z3.IntVal(2 ** 1024 - 2 ** 970)               # the least integer for which there is no float
class RealV(Abs):
    'a fraction'
    def __init__(self, r): self.r = r
    def binop(self, run, op, o):
        import ast
        if not (isinstance(o, (RealV, bool, int)) or isinstance(o, S) and o.t.sort() == Int): raise Unsupported('fraction')
        y = run.task.theory.exact(run, o)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)): return RealV(self.r + y if isinstance(op, ast.Add) else self.r - y if isinstance(op, ast.Sub) else self.r * y)
        raise Unsupported('fraction')
    def truth(self, run): return not run.branch(self.r == 0)
    def isinstance(self, run, cls): return False
class DecV(Abs):
    'Decimal(s)'
    def __init__(self, t): self.t_ = t
    def truth(self, run): raise Unsupported('Decimal')
    def isinstance(self, run, cls): return False
class StripV(Abs):
    's.strip(): only asked whether it is empty'
    def __init__(self, t): self.t_ = t
    def truth(self, run): return not run.branch(SPACE(self.t_))
    def eq(self, run, o):
        if o == '': return run.mk(SPACE(self.t_))
        raise Unsupported('strip')
    def attr(self, run, n): raise Unsupported('strip')
    def isinstance(self, run, cls): raise Unsupported('strip')
    def str_t(self, run): raise Unsupported('strip')
    def len(self, run): raise Unsupported('strip')
