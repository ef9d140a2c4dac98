import io
from .. import gen as G, common as C
RULE = 'random element trees over MicroXML names and characters (adjacent, empty and white space text, markup characters, quotes, tabs, newlines), encoded and parsed back; every code point at a border of the character class as text and as attribute value (thorough: every legal one). Non-trivial: contains a character that needs escaping, or nested elements.'
QUICK, THOROUGH = 120000, 600000
def exhaustive(tier):
    e = G.EDGE_CHARS + list(range(9, 11)) + list(range(32, 127))
    if tier == 'thorough': e = [c for c in range(0x110000) if G.inr(c, G.CHAR_R)]
    for c in e: yield ['a', [['b', 'x' + chr(c) + 'y' + chr(c)]], [chr(c) + 'x' + chr(c)]]
    sp = ['<', '>', '&', '"', "'", '\t', '\n', '&#10;', 'a', ';', '&quot;']
    for x in sp:
        for y in sp:
            for z in sp: yield ['a', [['b', x + y + z]], [x + y, z]]
    yield from G.long_models(depth=200)
def random_case(rng):
    return G.rand_tree(rng, depth=rng.choice([1, 2, 4]), maxkids=rng.choice([2, 4]))
def check(m): return check1(m, C.build(m))
@C.twice
def check1(m, e):
    s = e.xml_encode()
    if not isinstance(s, str): return 'encoding is not text'
    r = C.diff('tree after encoding', m, C.model(e))
    if r: return r
    try: back = C.tree.parse(s)
    except (C.Hang, MemoryError): raise
    except Exception as x: return 'encoded text %s cannot be parsed: %r' % (C.short(s), x)
    if back is None: return 'encoded text %s gives no tree' % C.short(s)
    r = C.diff('encoded as %s; tree parsed back' % C.short(s, 200), G.merged(m), C.model(back))
    if r: return r
    fp = io.StringIO(); e.xml_write(fp)
    return C.diff('xml_write', s, fp.getvalue())
def nontrivial(m): return bool(m[2]) or bool(m[1])
