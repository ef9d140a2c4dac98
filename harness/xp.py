'Reference XPath evaluator, on a structural snapshot of a real tree; expressions are nested lists'
import math, re
from . import gen
from decimal import Decimal
class N:
    __slots__ = ('kind', 'name', 'val', 'parent', 'kids', 'attrs', 'real', 'pos', 'root')
    def __repr__(self):
        return {'root': '/', 'e': '<%s #%s>' % (self.name, self.pos), 't': 'text %r #%s' % (self.val, self.pos), 'a': '@%s=%r of #%s' % (self.name, self.val, self.parent and self.parent.pos)}[self.kind]
    def string(self):
        if self.kind in 'ta': return self.val
        return ''.join(k.string() for k in self.kids)
class Snap:
    def __init__(self, top):
        from amara3.uxml import tree
        self.byid = {}; self.n = 0; self.keep = top
        self.root = self.mk('root', '', None, None, None)
        def rec(r, parent):
            if isinstance(r, tree.element):
                x = self.mk('e', r.xml_name, None, parent, r)
                x.attrs = [self.mk('a', k, v, x, None) for k, v in r.xml_attributes.items()]
                x.kids = [rec(c, x) for c in r.xml_children]
            else: x = self.mk('t', '#text', str(r), parent, r)
            return x
        self.top = rec(top, self.root); self.root.kids = [self.top]
    def mk(self, kind, name, val, parent, real):
        x = N(); x.kind, x.name, x.val, x.parent, x.real = kind, name, val, parent, real
        x.kids, x.attrs, x.pos, x.root = [], [], self.n, self.root if self.n else x
        self.n += 1
        if real is not None: self.byid[id(real)] = x
        return x
    def of(self, item):
        'reference item for a real result item, or an unequal marker'
        if item is None or isinstance(item, (bool, int, float)): return item
        if id(item) in self.byid and self.byid[id(item)].real is item: return self.byid[id(item)]
        k = type(item).__name__
        if k == 'root_node' and len(item.xml_children) == 1 and item.xml_children[0] is self.top.real: return self.root
        if k == 'attribute_node':
            p = self.byid.get(id(item.xml_parent))
            if p is not None and p.real is item.xml_parent:
                for a in p.attrs:
                    if a.name == item.xml_name and a.val == item.xml_value: return a
            return 'stray attribute %r' % item
        if isinstance(item, str) and not hasattr(item, 'xml_children'): return item
        return 'stray item %r' % (item,)
def desc(n):
    for k in n.kids:
        yield k
        yield from desc(k)
def anc(n):
    while n.parent is not None:
        n = n.parent
        yield n
def axis(n, ax):
    sib = n.parent.kids if n.parent is not None and n.kind != 'a' else []
    i = next((i for i, s in enumerate(sib) if s is n), None)
    if ax == 'self': return [n]
    if ax == 'child': return n.kids
    if ax == 'parent': return [n.parent] if n.parent is not None else []
    if ax == 'ancestor': return list(anc(n))
    if ax == 'ancestor-or-self': return [n] + list(anc(n))
    if ax == 'descendant': return list(desc(n))
    if ax == 'descendant-or-self': return [n] + list(desc(n))
    if ax == 'attribute': return n.attrs
    if ax == 'following-sibling': return sib[i + 1:] if sib else []
    if ax == 'preceding-sibling': return sib[:i][::-1] if sib else []
    whole = [n.root] + list(desc(n.root))
    ancs = list(anc(n)); ds = list(desc(n))
    def is_in(x, l): return any(x is y for y in l)
    if ax == 'following': return [x for x in whole if x.pos > n.pos and not is_in(x, ds)]
    if ax == 'preceding': return [x for x in whole if x.pos < n.pos and not is_in(x, ancs)][::-1]
    raise ValueError(ax)
AXES = ['self', 'child', 'parent', 'ancestor', 'ancestor-or-self', 'descendant', 'descendant-or-self', 'following-sibling', 'preceding-sibling', 'following', 'preceding', 'attribute']
def test(n, t, ax):
    if t == 'node()': return True
    if t == 'text()': return n.kind == 't'
    return n.kind == ('a' if ax == 'attribute' else 'e') and (t == '*' or n.name == t)
NUM = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*\Z')
def rnd(x):
    'XPath round: halves up; infinities and NaN stay'
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)): return x
    f = math.floor(x); return f + (x - f >= .5)
def num(x):
    if x is None: return math.nan
    if isinstance(x, N): x = x.string()
    if isinstance(x, str): return float(x) if NUM.match(x) else math.nan
    if isinstance(x, bool): return 1 if x else 0
    return x
def string(x):
    if x is None: return ''
    if isinstance(x, N): return x.string()
    if isinstance(x, bool): return 'true' if x else 'false'
    if isinstance(x, str): return x
    if isinstance(x, float) and math.isnan(x): return 'NaN'
    if isinstance(x, float) and math.isinf(x): return 'Infinity' if x > 0 else '-Infinity'
    if x == int(x): return str(int(x))
    return format(Decimal(repr(x)), 'f')
def boolean(x):
    if x is None: return False
    if isinstance(x, N): return True
    if isinstance(x, float) and math.isnan(x): return False
    return bool(x)
def first(s): return s[0] if s else None
class Unsupported(Exception): pass
def compare(op, a, b):
    if isinstance(a, bool) or isinstance(b, bool): a, b = boolean(a), boolean(b)
    elif isinstance(a, (int, float)) or isinstance(b, (int, float)): a, b = num(a), num(b)
    else: a, b = string(a), string(b)
    return {'=': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
def ev(x, it, vs=None):
    'list of items'
    k = x[0]
    if k == 'step': return [n for n in axis(it, x[1]) if test(n, x[2], x[1])]
    if k == '.': return [it]
    if k == '..': return axis(it, 'parent')
    if k == '/': return [r for i in ev(x[1], it, vs) for r in ev(x[2], i, vs)]
    if k == '//':
        out = []
        for i in ev(x[1], it, vs):
            if x[2][0] == 'step' and x[2][1] == 'child': out += ev(['step', 'descendant', x[2][2]], i, vs)
            else:
                for d in [i] + list(desc(i)): out += ev(x[2], d, vs)
        return out
    if k == 'abs':
        r = it.root
        if x[2] is None: return [r]
        pre = [r] if x[2][0] == 'step' and x[2][1] == 'child' and x[2][2] == 'node()' else []
        if x[1] == '/': return pre + ev(x[2], r, vs)
        return pre + [y for d in [r] + list(desc(r)) for y in ev(x[2], d, vs)]
    if k == '|':
        out = []
        for y in ev(x[1], it, vs) + ev(x[2], it, vs):
            if not any(y is z for z in out): out.append(y)
        return sorted(out, key=lambda n: n.pos)
    if k == 'seq': return [y for e in x[1] for y in ev(e, it, vs)]
    if k == 'lit': return [x[1]]
    if k == 'var': return [vs[x[1]]]
    if k == 'neg': return [-num(first(ev(x[1], it, vs)))]
    if k == 'and': return [boolean(first(ev(x[1], it, vs))) and boolean(first(ev(x[2], it, vs)))]
    if k == 'or': return [boolean(first(ev(x[1], it, vs))) or boolean(first(ev(x[2], it, vs)))]
    if k == 'cmp':
        r = ev(x[3], it, vs)
        return [any(compare(x[1], a, b) for a in ev(x[2], it, vs) for b in r)]
    if k == 'pred':
        items = ev(x[1], it, vs)
        for p in x[2]:
            keep = []
            for n, i in enumerate(items):
                v = first(ev(p, i, vs))
                if v is None: v = False
                if isinstance(v, (int, float)) and not isinstance(v, bool): ok = n + 1 == v
                else: ok = boolean(v)
                if ok: keep.append(i)
            items = keep
        return items
    if k == 'call':
        f, args = x[1], x[2]
        arg = lambda i: first(ev(args[i], it, vs))
        if f == 'true': return [True]
        if f == 'false': return [False]
        if f == 'not': return [not boolean(arg(0))]
        if f == 'boolean': return [boolean(arg(0))]
        if f == 'number': return [num(arg(0)) if args else num(it)]
        if f == 'string': return [string(arg(0)) if args else string(it)]
        if f == 'name':
            i = arg(0) if args else it
            return [i.name if isinstance(i, N) else '']
        if f == 'count': return [len(ev(args[0], it, vs))]
        if f == 'concat': return [''.join(string(y) for a in args for y in ev(a, it, vs))]
        if f == 'starts-with': return [string(arg(0)).startswith(string(arg(1)))]
        if f == 'contains': return [string(arg(1)) in string(arg(0))]
        if f == 'substring-before':
            a, b = string(arg(0)), string(arg(1)); return [a[:a.find(b)] if b in a else '']
        if f == 'substring-after':
            a, b = string(arg(0)), string(arg(1)); return [a[a.find(b) + len(b):] if b in a else '']
        if f == 'my-pair': return ev(args[0], it, vs) + [it]
        if f == 'string-length': return [len(string(arg(0)) if args else string(it))]
        if f == 'substring':
            # as XPath defines it: positions p with p >= round(start) and p < round(start) + round(length)
            s, st, ln = string(arg(0)), rnd(num(arg(1))), rnd(num(arg(2))) if len(args) > 2 else None
            if isinstance(st, float): return [s if st < 0 and ln is None else '']
            if ln is None: return [s[max(st - 1, 0):]]
            if isinstance(ln, float): return [s[max(st - 1, 0):] if ln == math.inf else '']
            return [''.join(ch for i, ch in enumerate(s, 1) if st <= i < st + ln)]
        if f == 'for-each': return [y for i in ev(args[0], it, vs) for y in ev(x[3], i, vs)]
    raise Unsupported(k)
# -- text of an expression -------------------------------------------------------------------------------------------
STYLE = None      # random choices among spellings, if set: white space between tokens, quotes, digits
def literal(v):
    rng = STYLE
    if isinstance(v, str):
        q = '"' if len(v) % 3 or "'" in v else "'"
        if rng and "'" not in v: q = rng.choice('"\'')
        if '"' in v: q = "'"
        return q + v + q
    s = repr(v)
    if rng and rng.random() < .3 and 'e' not in s and s[0] != '-':
        r = rng.random()
        if isinstance(v, int) and not isinstance(v, bool): s = '0' * rng.randint(0, 3) + s
        elif r < .3 and s.startswith('0.'): s = s[1:]
        elif r < .6 and s.endswith('.0'): s = s[:-1]
        elif r < .8: s += '0' * rng.randint(1, 3)
        else: s = '0' + s
    return s
TOKEN = re.compile(r'''"[^"]*"|'[^']*'|[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+|//|/|\.\.|::|!=|[<>]=?|[@()\[\]|=+*,$.-]|[^\W\d][^ \t\r\n"'()\[\]/|=<>!,@$*:+]*|[ \t\r\n]+|[^\x00-\x7f][^ \t\r\n"'()\[\]/|=<>!,@$*:+]*''')
def respace(s):
    'the same expression with other white space between its tokens'
    if not STYLE or STYLE.random() < .6: return s
    toks = TOKEN.findall(s)
    if ''.join(toks) != s: return s
    return ''.join(''.join(STYLE.choice(' \t\r\n') for _ in range(STYLE.randint(1, 2))) if t.isspace() else t + (STYLE.choice(['', ' ', '\n', '\t ', '\r\n']) if STYLE.random() < .2 else '') for t in toks)
PREC = {'or': 1, 'and': 2, 'cmp=': 3, 'cmp<': 4, 'neg': 7, '|': 8}
STEPS = ('step', '.', '..')
def is_rel(x): return x[0] in STEPS or x[0] in ('/', '//') and is_rel(x[1]) and x[2][0] in STEPS
def fn_first(x):
    while x[0] in ('/', '//'): x = x[1]
    return x[0] == 'step' and x[1] == 'child' and x[2].endswith('()')
def text(x, lvl=0, rlp=False):
    k = x[0]
    def par(s, p): return '(' + s + ')' if p < lvl else s
    if k == 'step':
        if x[1] == 'child': return x[2]
        if x[1] == 'attribute': return '@' + x[2]
        return x[1] + '::' + x[2]
    if k in ('.', '..'): return k
    if k in ('/', '//'):
        if rlp: return text(x[1], 0, True) + k + text(x[2])
        assert is_rel(x[2]) and (not is_rel(x[1]) or x[2][0] in STEPS)
        # a chain which begins with text() or node() is grouped like one that begins with a function call
        bare = is_rel(x) and not fn_first(x) or x[1][0] in ('call', 'seq', 'var', 'pred') + STEPS
        return (text(x[1]) if bare else '(' + text(x[1]) + ')') + k + text(x[2], 0, True)
    if k == 'abs' and x[2] is None: return '/' if not lvl else '(/)'
    if k == 'abs': return x[1] + text(x[2], 0, True)
    if k == 'seq': return '(' + ', '.join(text(e) for e in x[1]) + ')'
    if k == 'lit': return literal(x[1])
    if k == 'var': return '$' + x[1]
    if k == 'neg': return par('-' + text(x[1], 7), 7)
    if k in ('and', 'or', '|'):
        p = PREC[k]; return par(text(x[1], p) + ' %s ' % k + text(x[2], p + 1), p)
    if k == 'cmp':
        p = PREC['cmp='] if x[1] in ('=', '!=') else PREC['cmp<']
        return par(text(x[2], p) + ' %s ' % x[1] + text(x[3], p + 1), p)
    if k == 'pred':
        bare = x[1][0] in ('call', 'seq', 'var', '/', '//', 'abs') + STEPS and x[1] != ['abs', '/', None]
        return (text(x[1]) if bare else '(' + text(x[1]) + ')') + ''.join('[' + text(p) + ']' for p in x[2])
    if k == 'call':
        if x[1] == 'for-each':
            s = text(x[3]); a = text(['lit', s])
            if STYLE and STYLE.random() < .2:
                i = STYLE.randint(0, len(s)); a = text(['call', 'concat', [['lit', s[:i]], ['lit', s[i:]]]])
            return 'for-each(' + text(x[2][0]) + ', ' + a + ')'
        return x[1] + '(' + ', '.join(text(a) for a in x[2]) + ')'
    raise ValueError(k)
# -- random expressions ----------------------------------------------------------------------------------------------
NAMES = ['a', 'b', 'c', '*']
OPNAMES = ['and', 'or', 'div', 'mod']
def g_step(rng, cx):
    r = rng.random()
    if r < .08: return ['.']
    if r < .14: return ['..']
    ax = 'child' if r < .5 else rng.choice(AXES)
    t = rng.choice(NAMES + ['text()', 'node()'] + cx.get('names', []))
    return ['step', ax, t]
def g_rel(rng, cx):
    x = g_step(rng, cx)
    while rng.random() < .3: x = [rng.choice(['/', '/', '//']), x, g_step(rng, cx)]
    return x
def g_nodes(rng, d, cx):
    'an expression that yields nodes only'
    r = rng.random()
    if d <= 0 or r < .35: return g_rel(rng, cx)
    if r < .5: return ['abs', rng.choice(['/', '//']), g_rel(rng, cx) if rng.random() < .9 else None] if rng.random() < .9 else ['abs', '/', None]
    if r < .65: return ['pred', g_nodes(rng, d - 1, cx), [g_expr(rng, d - 1, cx) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]]
    if r < .75: return ['|', g_nodes(rng, d - 1, cx), g_nodes(rng, d - 1, cx)]
    if r < .85: return ['seq', [g_nodes(rng, d - 1, cx) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
    if r < .97:
        l = g_nodes(rng, d - 1, cx)
        return [rng.choice(['/', '/', '//']), l, g_step(rng, cx) if is_rel(l) else g_rel(rng, cx)]
    return ['call', 'for-each', [g_nodes(rng, d - 1, cx)], ['pred', g_rel(rng, cx), [['lit', 1]]]]
def fix_abs(x):
    if x[0] == 'abs' and x[2] is None: return ['abs', '/', None]
    return x
LITS = ['a\nb', '\n', "it's", 'q"q', '\t', '$v', '(a', '//', 'a]', '\u2028', '', '1', 'a', '2', ' 1 ', 't', '12', '-3.5', 'x1', 0, 1, 2, 3, 10, 1.5, 0.5, 2.0, 0.0, 25, 2**31 + 5, 10**20, '2147483653', 0.125, 8, 9, '&quot;', '&amp;', '&#65;', '\\n', '\\', '%41', '<b>', '\'\'', '""', 'A', 'a  b', 'z\u00e9', 'e\u0301']
FN1 = ['not', 'boolean', 'number', 'string', 'name', 'count', 'string-length']
def g_expr(rng, d, cx):
    r = rng.random()
    if d <= 0: return rng.choice([['lit', rng.choice(LITS)], g_rel(rng, cx), ['lit', rng.choice([1, 2, 3])]])
    if r < .3: return g_nodes(rng, d, cx)
    if r < .31: return ['lit', rng.choice([rng.choice(gen.INTS)] + [x for x in gen.STRS if '"' not in x or "'" not in x])]
    if r < .4: return ['lit', rng.choice(LITS)]
    if r < .52: return [rng.choice(['and', 'or']), g_expr(rng, d - 1, cx), g_expr(rng, d - 1, cx)]
    if r < .7: return ['cmp', rng.choice(['=', '!=', '<', '>', '<=', '>=']), g_expr(rng, d - 1, cx), g_expr(rng, d - 1, cx)]
    if r < .74: return ['neg', g_expr(rng, d - 1, cx)]
    if r < .8: return ['seq', [g_expr(rng, d - 1, cx) for _ in range(rng.choice([0, 1, 2, 3]))]]
    if r < .84: return ['pred', ['seq', [g_expr(rng, d - 1, cx) for _ in range(rng.choice([1, 2, 3]))]], [g_expr(rng, d - 1, cx)]]
    if r < .88 and cx.get('vars'): return ['var', rng.choice(cx['vars'])]
    if r < .96 and cx.get('custom') and rng.random() < .1: return ['call', 'my-pair', [g_expr(rng, d - 1, cx)]]
    if r < .96:
        f = rng.choice(FN1)
        if f == 'name': return ['call', f, [['step', 'self', '*']] if rng.random() < .5 else [['step', rng.choice(['child', 'attribute']), '*']]]
        if f in ('number', 'string', 'string-length') and rng.random() < .2: return ['call', f, []]
        return ['call', f, [g_expr(rng, d - 1, cx)]]
    if r < .97: return ['call', rng.choice(['true', 'false']), []]
    if r < .975: return ['call', 'count', [['pred', ['step', rng.choice(['child', 'descendant']), '*'], [['cmp', '=', ['call', 'name', []], ['lit', rng.choice(['a', 'b', 'c'])]]]]]]
    f = rng.choice(['concat', 'starts-with', 'contains', 'substring-before', 'substring-after'])
    return ['call', f, [g_expr(rng, d - 1, cx) for _ in range(2 if f != 'concat' else rng.choice([1, 2, 3]))]]
def tidy(x):
    'absolute paths without a relative part are always written "/"'
    if not isinstance(x, list): return x
    if x and x[0] == 'abs' and x[2] is None: return ['abs', '/', None]
    return [tidy(y) for y in x]
def size(x): return 1 + sum(size(y) for y in x) if isinstance(x, list) else 0
def eq(a, b):
    if isinstance(a, N) or isinstance(b, N): return a is b
    if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None: return a is b
    if isinstance(a, bool) != isinstance(b, bool): return False
    return a == b or (a != a and b != b)
def same(exp, got): return len(exp) == len(got) and all(eq(a, b) for a, b in zip(exp, got))
