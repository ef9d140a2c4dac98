import html5lib
from .. import gen as G, common as C
from amara3.uxml import html5
RULE = 'token sequences of up to 12 tags, end tags, texts, comments and references over a vocabulary covering formatting elements, tables, lists, forms, selects, frames, foreign content and names with colons; all pairs of tokens; compared with the tree built by html5lib\'s own ElementTree builder. Inputs on which html5lib itself fails are skipped, as are those on which its ElementTree and DOM builders disagree with each other and with the code. Non-trivial: at least three tokens.'
QUICK, THOROUGH = 100000, 400000
TOKS = ['<p>', '</p>', '<b>', '</b>', '<i>', '</i>', '<table>', '</table>', '<tr>', '<td>', '</td>', 'x', 'y ', '<a href="1">', '</a>', '<div class=q>', '</div>', '<!-- c -->', '<ul>', '<li>', '</ul>', '<br>', '<svg>', '<svg:g>', '</svg>', '<math>', '<mi>', '<title>t</title>', '&amp;', '<body k=v>', '<html q=r>', '<select>', '<option>', '</select>', '<foo:bar>', '</foo:bar>', '<h1>', '</h1>', '<form>', '<nobr>', '</nobr>', '<caption>', '<script>1<2</script>', '<svg xlink:href="u">', '<frameset>', '<head>', '</head>', '<!DOCTYPE html>', '<style>', '</style>', '<font color=r>', '</font>', '<p id=1 id=2>', '&lt;', '&eacute;', '\n', '<input type=hidden>', '<textarea>\n', '</textarea>', '<desc>', '<foreignObject>', '<a>', '</body>', '</html>', '<tbody>', '<th>', '<dl><dt>', '<dd>', '<button>', '<applet>', '<isindex>', '<image>', '<col>']
MORE = ['<pre>', '<pre>\n', '</pre>', '<listing>\n', '<textarea>', '&nbsp;', '\xa0', '<b id=1 class=c>', '<i id=2 k="">', '<a id=3 name=n href=h>', '<x:y:z k:l:m=1>', '</x:y:z>', '<a:>', '<c::d>', '<p xml:lang=en xmlfoo=1>', '<p xmlns=u k=v>', '<div xmlns:q=u xmlnsx=2 k=v>',
    '<svg viewBox="0 0 1 1" preserveAspectRatio=x k:l=m>', '<linearGradient gradientUnits=q>', '<math definitionurl=d xml:lang=e>', '<input disabled>', '<p class="">', '<code>', '</code>', '<em k=v>', '</em>', '<big>', '<small id=s>', '</small>', '<tt>', '<u>', '<strike>', '<marquee>', '</marquee>', '<object>', '</object>', '<hr>', '<noscript>', '</noscript>', '<iframe>', '</iframe>', '<xmp>', '</xmp>',
    '<ruby>', '<rt>', '<rp>', '<template>', '<colgroup>', '<thead>', '</thead>', '<tfoot>', '<optgroup>', '<legend>', '<fieldset>', '<center>', '</center>', '<address>', '<annotation-xml encoding="text/html">', '<mtext>', '<mglyph>', '<![CDATA[c]]>', '<?pi?>', '<P>', '<DIV ID=X Class=Y>', '<b><b><b><b>', '</table>z', '<td k=v>', '</tr>', '<table id=t>', '<li class=l>', '\x00', '&#0;', '&#x80;', '&notit;', '<meta charset=utf-8>', '<link>', '<base>', '<title>', '</title>', '<body a=b k=w>', '<html a=b q=s>', '<plaintext>', '</p k=v>', '</br>', '<frame>', '</frameset>', '<noframes>', 'ab cd', '\t', '<h2>', '</h2>', '<font size=1 color=b>', '<a href="2" id=4>', '</form>', '</button>', '</select>q', '<keygen>', '<param>', '</nosuch>', '<nosuch a=1 b=2>', '<g>', '</g>', '<mi k=v>', '</math>', '😀', '\u0301', '<p title="a&amp;b&lt;">', "<p title='q\"q'>"]
def exhaustive(tier):
    for a in MORE:
        for b in ['', 'z'] + MORE if tier == 'thorough' else ['', 'z', '<p>', '<b>', '<table>', '</b>', '<svg>', '\n']:
            yield a + b + 'w'; yield b + a

    for a in TOKS:
        yield a
        for b in TOKS:
            yield a + 'z' + b + 'w'
            if tier == 'thorough':
                for c in TOKS: yield a + b + c
def random_case(rng):
    s = ''.join(rng.choice(MORE if rng.random() < .45 else TOKS) for _ in range(rng.randint(1, 12)))
    if rng.random() < .03: s += rng.choice(TOKS + MORE) * min(60, G.size(rng))
    return s
def local(n): return n.split('}')[-1].split(':')[-1]
def ref(src):
    d = html5lib.HTMLParser(tree=html5lib.getTreeBuilder('etree')).parse(src)
    def conv(e):
        if not isinstance(e.tag, str): return None
        ch = [e.text] if e.text else []
        for c in e:
            x = conv(c)
            if x is not None: ch.append(x)
            if c.tail: ch.append(c.tail)
        return [local(e.tag), [], ch, sorted((k.split('}')[-1], v) for k, v in e.attrib.items() if k != 'xmlns' and not k.startswith('xmlns:'))]
    return conv(d)
def refdom(src):
    d = html5lib.HTMLParser(tree=html5lib.getTreeBuilder('dom')).parse(src)
    def conv(e):
        ch = []
        for c in e.childNodes:
            if c.nodeType == c.ELEMENT_NODE: ch.append(conv(c))
            elif c.nodeType == c.TEXT_NODE: ch.append(c.data)
        at = [e.attributes.item(i) for i in range(e.attributes.length)]
        return [local(e.tagName), [], ch, sorted((local(a.name) if a.namespaceURI else a.name, a.value) for a in at if a.name != 'xmlns' and not a.name.startswith('xmlns:'))]
    return conv(d.documentElement)
def merge(m):
    k = []
    for c in m[2]:
        if isinstance(c, str):
            if not c: continue
            if k and isinstance(k[-1], str): k[-1] += c
            else: k.append(c)
        else: k.append(merge(c))
    return [m[0], m[3], k]
def act(e):
    if not isinstance(e, C.tree.element): return str(e)
    return [e.xml_name, [], [act(c) for c in e.xml_children], sorted(e.xml_attributes.items())]
def check(src):
    if len(src) % 4 == 0: src = src.encode('utf-8', 'replace')
    try: exp = merge(ref(src))
    except (C.Hang, MemoryError): raise
    except Exception: return None
    try: d = html5.parse(src)
    except (C.Hang, MemoryError): raise
    except Exception as e: return 'parse fails with %r, expected %s' % (e, C.short(exp))
    got = merge(act(d))
    r = C.diff('tree', exp, got)
    if r:
        # the ElementTree builder loses or moves nodes of some misnested tables: what the two builders of
        # html5lib do not agree on is not claimed
        try: dom = merge(refdom(src))
        except (C.Hang, MemoryError): raise
        except Exception: dom = None
        return r if dom is None or dom == exp else None
    def links(e):
        for c in e.xml_children:
            if c.xml_parent is not e: return 'wrong parent of %r' % c
            if isinstance(c, C.tree.element):
                r = links(c)
                if r: return r
    r = links(d) or C.own(d)
    if r or len(src) % 3: return r
    # the tree belongs to whoever parsed it: an edit of it changes nothing that is parsed later
    for k in range(2): C.edit(C.model(d), d, k + len(src))
    was = C.model(d)
    again = html5.parse(src)
    return C.diff('tree of a document parsed again after the first tree was edited', exp, merge(act(again))) or links(again) or C.own(again) or C.diff('edited tree, after another parse', was, C.model(d))
def nontrivial(src): return src.count('<') > 2
