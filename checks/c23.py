""" C23: options apply at every depth of a recursive conversion. """

from itertools import product
from .xmllib import *
from .enclib import DEC

RULE = ('Abstract interpretation of toXml(), pprint(), xmlElement2ebml() and xml2ebml() over documents and XML trees nested to '
        'five levels whose values are symbolic, with every combination of options. What is produced for each nested '
        'element must be what the same element gives when converted by itself with the same options (as abstract XML '
        'attributes and text, abstract printed text, or abstract bytes), apart from the indentation printed before it, '
        'which must be the indent given times its depth. For the elements themselves the options\' meaning is required: '
        'an attribute is there exactly if asked for, a codec renders exactly the elements it is for, values are printed '
        'exactly if wanted, everything is written to the stream given, every size has the length given, and unknown '
        'elements are refused at any depth unless permitted.')
LEVEL = 'other'

SAME = 'a nested element converts to XML as it does by itself'
ATTR = 'toXml writes exactly the attributes asked for'
CODEC = 'the codec given renders the data'
LINE = 'a nested element is printed as by itself, indented to its depth'
TOP = 'printing starts with the headings and goes on with the element'
VALUE = 'values are printed exactly if wanted'
OUT = 'everything is printed to the stream given'
WIDTH = 'the size length given applies at every depth'
BYTES = 'a nested XML element converts as it does by itself'
REFUSE = 'unknown elements are refused at any depth'
ALLOW = 'unknown elements are allowed at any depth'
DONE = 'conversion does not raise'

LEAVES = ['U', 'I', 'F', 'S', 'D', 'T', 'B', 'P', 'Void', '#9F']
SHORT = ['U', 'S', 'B', 'Void', '#9F', 'Crc']
DEEP = [('Seg', ['U', ('Sub', ['B', ('Deep', SHORT), 'Void']), 'B'])]
TREES = {
    'all types': [('Seg', LEAVES)],
    'deep': DEEP,
    'several': [('Seg', SHORT + [('Sub', SHORT), ('Eager', ['U']), ('Sub', [])]), 'Void', ('Seg', ['B'])],
    'recursive': [('Seg', ['#9F', ('Sub', [('Sub', [('Seg', [('Sub', SHORT), 'B']), 'Void'])])])],
    'header': [('EBML', ['EBMLVersion', 'Void']), ('Seg', ['B'])],
}
FLAGS = [dict(zip(('offsets', 'sizes', 'types', 'ids'), v)) for v in product((True, False), repeat=4)]
CODECS = [{}, {'binary_codec': 'hex'}, {'binary_codec': 'base64', 'void_codec': 'hex'}, {'void_codec': 'base64'},
          {'binary_codec': 'ignore', 'void_codec': 'hex'}, {'binary_codec': 'ignore'},
          {'binary_codec': ('HexCodec', {'width': 4, 'cols': 4, 'offsets': False}), 'void_codec': ('Base64Codec', {'cols': 0})},
          {'binary_codec': ('Base64Codec', {'cols': 4}), 'void_codec': ('IgnoreCodec', {})},
          {'binary_codec': ('IgnoreCodec', {}), 'void_codec': ('HexCodec', {'cols': 2})}]
INDENTS = (None, '', '\t', '    ', ' |', 'x')


def run(C):
    for t in TREES:
        for f in FLAGS:
            for c in CODECS if C.thorough or t == 'deep' and f is FLAGS[0] else CODECS[2:7:4] if t == 'deep' else \
                    CODECS[:3] if f in (FLAGS[0], FLAGS[-1]) else ():
                C.scenario('XML of %s, %r %r' % (t, f, c), xml, TREES[t], dict(f, **c))
        for values in (None, True, False):
            for i, indent in enumerate(INDENTS):
                for j, c in enumerate(CODECS):
                    if C.thorough or (i + j) % (3 if t == 'deep' else 9) == (values is not False):
                        C.scenario('print of %s, %s %r %r' % (t, values, indent, c), printed, TREES[t], values, indent, c)
    for t in XTREES:
        for sl in (None, 1, 2, 3, 4, 5, 6, 7, 8):
            for unknown in (None, True, False) if sl in (None, 2) or C.thorough else (None,):
                C.scenario('encoding of %s, %s %s' % (t, sl, unknown), encoded, XTREES[t], sl, unknown)
    for name, spec in NAMES.items():
        for sl in (None, 4):
            for how in ('element', 'document', 'tree', 'file'):
                for unknown in (None, True, False):
                    C.scenario('%s as %s, %s %s' % (name, how, unknown, sl), unknowns, spec, sl, how, unknown)
    for how in ('element', 'document', 'tree', 'file'):
        for sl in (None, 1, 2, 4, 8):
            C.scenario('size lengths of %s, %s' % (how, sl), widths, sl, how)


def options(S, st, opts):
    kw = {}
    for k, v in opts.items():
        if isinstance(v, tuple):
            st, v = one(S.call(st, 'ebmlite.xml_codecs.' + v[0], **{n: K(x) for n, x in v[1].items()}), 'codec')
            kw[k] = v
        else:
            kw[k] = K(v)
    return st, kw


def isa(S, st, el, cls):
    return one(S.call(st.clone(), Ext('builtins.isinstance'), el, S.ip.resolve(st, CORE + cls)), 'isinstance')[1] == TRUE


# ------------------------------------------------------------------- toXml
def xml(S, tree, opts):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    st, doc = loaded(S, st, schema, Encoder(S, st, textlen=7).tree(tree))
    st, kw = options(S, st, opts)
    for s, x in S.normal(S.call(st, TOXML, doc, **kw), DONE, TOXML):
        whole(S, s, doc, x, kw, opts, True)


def whole(S, st, el, x, kw, opts, top=False):
    """ x, found in a larger conversion, is the conversion of el. """
    S.ip.steps = 0
    for s, y in S.normal(S.call(st.clone(), TOXML, el, **kw), DONE, TOXML):
        alike(S, s, x, y)
        if not top:
            meaning(S, s, el, y, kw, opts)
    if not isa(S, st, el, 'MasterElement'):
        return
    for s, kids in kids_of(S, st, el, TOXML, SAME):
        xs = xmlkids(s, x)
        S.true(s, len(kids) == len(xs), SAME, TOXML, '%d children, expected %d' % (len(xs), len(kids)))
        for k, y in zip(kids, xs):
            whole(S, s.clone(), k, y, kw, opts)


def alike(S, st, x, y):
    a, b = xattrs(st, x), xattrs(st, y)
    tag = st.get(y).attrs['tag']
    what = tag.v if type(tag) is K else '?'
    S.eq(st, st.get(x).attrs['tag'], tag, SAME, TOXML, 'tag')
    S.eq(st, st.get(x).attrs['text'], st.get(y).attrs['text'], SAME, TOXML, 'text of %s' % what)
    if a is None or b is None:
        S.undecided(st, SAME, TOXML, 'attributes not determined')
        return
    S.true(st, set(a) == set(b), SAME, TOXML, '%s: attributes %s, by itself %s' % (what, sorted(a), sorted(b)))
    for k in set(a) & set(b):
        S.eq(st, a[k], b[k], SAME, TOXML, '%s: %s' % (what, k))
    p, q = xmlkids(st, x), xmlkids(st, y)
    S.true(st, len(p) == len(q), SAME, TOXML, '%s: %d children, by itself %d' % (what, len(p), len(q)))
    for c, d in zip(p, q):
        alike(S, st, c, d)


def meaning(S, st, el, x, kw, opts):
    """ What the options ask for, of one element. """
    a = xattrs(st, x)
    if a is None:
        S.undecided(st, ATTR, TOXML, 'attributes not determined')
        return
    void, binary = isa(S, st, el, 'VoidElement'), isa(S, st, el, 'BinaryElement')
    master = isa(S, st, el, 'MasterElement')
    for opt, name in (('offsets', 'offset'), ('sizes', 'size'), ('types', 'type'), ('ids', 'id')):
        if void and name == 'size':
            continue
        if opts.get(opt, True):
            S.true(st, name in a, ATTR, TOXML, 'no %s attribute' % name)
        else:
            S.true(st, name not in a, ATTR, TOXML, '%s attribute written' % name)
    for opt, name in (('offsets', 'offset'), ('sizes', 'size')):
        if name in a:
            for s, v in S.normal(S.get(st.clone(), el, name), ATTR, TOXML):
                for s2, t in S.normal(S.call(s, Ext('builtins.str'), v), ATTR, TOXML):
                    S.eq(s2, a[name], t, ATTR, TOXML, name)
    if 'id' in a:
        i = attr(S.ip, st.clone(), el, 'id')
        if type(i) is K and type(a['id']) is K:
            S.true(st, int(a['id'].v, 16) == i.v, ATTR, TOXML, 'id attribute %s' % a['id'].v)
    if master or not binary:
        S.true(st, ('value' in a) == (not master), ATTR, TOXML, 'value attribute')
        S.true(st, 'encoding' not in a, ATTR, TOXML, 'encoding attribute')
        return
    c = kw.get('void_codec' if void else 'binary_codec', K('ignore' if void else 'base64'))
    rendered(S, st, el, c, st.get(x).attrs['text'], a, void)


def rendered(S, st, el, c, text, a, void):
    st = st.clone()
    if type(c) is K:
        table = dict((k.v, v) for k, v in st.get(S.ip.resolve(st, 'ebmlite.xml_codecs.BINARY_CODECS')).data)
        st, c = one(S.ip.call(st, M.deref(st, table[c.v]), Call()), 'codec')
    for s, v in S.normal(S.get(st, el, 'value'), CODEC, TOXML):
        for s2, off in S.normal(S.get(s, el, 'offset'), CODEC, TOXML):
            for s3, t in S.normal(S.method(s2, c, 'encode', v, offset=off), CODEC, TOXML):
                S.eq(s3, text, t, CODEC, TOXML, 'text')
                name = attr(S.ip, s3, c, 'NAME')
                if 'encoding' in a:
                    S.eq(s3, a['encoding'], name, CODEC, TOXML, 'encoding attribute')
                else:
                    S.true(s3, name == K('ignore'), CODEC, TOXML, 'no encoding attribute')


# ------------------------------------------------------------------ pprint
def text_lines(t):
    """ Lines of an abstract text: [text], split at literal newlines. """
    lines, cur = [], []
    for g in segs_of(t, True):
        if g.kind != 'lit':
            cur.append(g)
            continue
        parts = g.a[0].split('\n')
        for p in parts[:-1]:
            lines.append(cur + ([Seg('lit', p)] if p else []))
            cur = []
        cur = (cur if len(parts) == 1 else []) + ([Seg('lit', parts[-1])] if parts[-1] else [])
    return [mkbs(x, True) for x in lines], mkbs(cur, True)


def insert(line, col, tab):
    """ A line with a tab inserted at a column within its leading literal. """
    g = segs_of(line, True)
    if not g:
        return K(tab) if not col else None
    if g[0].kind != 'lit' or len(g[0].a[0]) < col:
        return K(tab) if False else mkbs((Seg('lit', tab),) + tuple(g), True) if not col else None
    t = g[0].a[0]
    return mkbs((Seg('lit', t[:col] + tab + t[col:]),) + tuple(g[1:]), True)


def pprint_text(S, st, el, kw):
    """ Outcomes (state, lines, what is left) of printing el. """
    out = new_stream(S.ip, st, 'mem', 'io.StringIO', text=True, content=K(''))
    res = []
    mark = st.events
    S.ip.steps = 0
    for s, v in S.normal(S.call(st, PPRINT, el, out=out, **kw), DONE, PPRINT):
        S.true(s, not any(e[0] == 'stdio' and e[2] == 'write' for e in s.event_list(mark)), OUT, PPRINT,
               'writes to standard output')
        t = s.get(out).data
        if type(t) not in (K, Bs):
            S.undecided(s, LINE, PPRINT, 'text not determined')
            continue
        lines, rest = text_lines(t)
        S.eq(s, rest, K(''), TOP, PPRINT, 'end of the last line')
        if len(lines) < 3:
            S.violated(s, TOP, PPRINT, '%d lines printed' % len(lines))
            continue
        res.append((s, lines))
    return res


def printed(S, tree, values, indent, opts):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    st, doc = loaded(S, st, schema, Encoder(S, st, textlen=7).tree(tree))
    st, kw = options(S, st, opts)
    if values is not None:
        kw['values'] = K(values)
    if indent is not None:
        kw['indent'] = K(indent)
    tab = '  ' if indent is None else indent
    multi = any(isinstance(c, tuple) or c != 'ignore' for c in opts.values())
    for s, lines in pprint_text(S, st, doc, kw):
        heading = lines[:2]
        lines = list(lines[2:])
        for s2, rest in walk(S, s, doc, lines, 0, kw, tab, heading, values is not False, opts):
            S.true(s2, not rest, LINE, PPRINT, '%d more lines than elements' % len(rest))


def walk(S, st, el, lines, depth, kw, tab, heading, values, opts):
    """ The lines go on with el at a depth: outcomes (state, remaining lines). """
    res = []
    master = isa(S, st, el, 'MasterElement')
    for s, own in pprint_text(S, st.clone(), el, kw):
        for g, w in zip(own[:2], heading):
            S.eq(s, g, w, TOP, PPRINT, 'heading')
        own = own[2:3] if master else own[2:]
        if len(lines) < len(own):
            S.violated(s, LINE, PPRINT, 'no line for a nested element')
            continue
        for i, (got, mine) in enumerate(zip(lines, own)):
            want = insert(mine, 14 if not i else 0, tab * depth)
            if want is None:
                S.undecided(s, LINE, PPRINT, 'line %r' % mine)
            elif i and not segs_of(mine):
                pass
            else:
                S.eq(s, got, want, LINE, PPRINT, 'line')
        if not master:
            shown(S, s, el, own, kw, values, opts)
            res.append((s, lines[len(own):]))
            continue
        for s2, kids in kids_of(S, s, el, PPRINT, LINE):
            states = [(s2, lines[len(own):])]
            for k in kids:
                states = [o for s3, r in states for o in walk(S, s3, k, r, depth + 1, kw, tab, heading, values, opts)]
            res.extend(states)
    return res


def shown(S, st, el, own, kw, values, opts):
    """ Whether a leaf's value is printed. """
    first = segs_of(own[0], True)
    head = first[0].a[0] if first and first[0].kind == 'lit' else ''
    if head.count('): (') != 1:
        S.undecided(st, VALUE, PPRINT, 'line %r' % own[0])
        return
    bare = len(first) == 1 and head.endswith(')') and len(own) == 1
    if isa(S, st, el, 'BinaryElement'):
        void = isa(S, st, el, 'VoidElement')
        c = kw.get('binary_codec', K('ignore'))
        if void:
            # a void element is empty: nothing to see unless a codec names itself
            return
        ignore = c == K('ignore') or type(c) is Ref and attr(S.ip, st.clone(), c, 'NAME') == K('ignore')
        S.true(st, bare == (ignore or not values), CODEC, PPRINT, 'data %sprinted' % ('not ' if bare else ''))
        if not bare and type(c) is K:
            S.true(st, '<%s>' % c.v in head, CODEC, PPRINT, 'codec not named: %r' % own[0])
        return
    if not values:
        S.true(st, bare, VALUE, PPRINT, 'value printed: %r' % own[0])
        return
    for s, v in S.normal(S.get(st.clone(), el, 'value'), VALUE, PPRINT):
        for s2, r in S.normal(S.call(s, Ext('builtins.repr'), v), VALUE, PPRINT):
            at = head.index('): (')
            close = head.index(')', at + 4)
            S.eq(s2, mkbs((Seg('lit', head[close + 1:]),) + tuple(first[1:]), True) if head[close + 1:] else mkbs(first[1:], True),
                 mkbs((Seg('lit', ' '),) + tuple(segs_of(r, True)), True), VALUE, PPRINT, 'value printed')


# ---------------------------------------------------------------- encoding
XSUB = ('Sub', ['U', 'B'])
XTREES = {
    'leaves': ('Seg', ['U', 'S', 'B', '#9F', 'F']),
    'nested': ('Seg', [('Sub', [('Deep', ['U', '#9F', 'B'])])]),
    'siblings': ('Seg', ['#9F', XSUB, 'S', XSUB, ('Eager', ['U']), ('Sub', [])]),
    'recursive': ('Seg', [('Sub', [('Sub', [('Seg', [('Sub', ['B', 'U']), 'U']), '#4FFF']), 'U'])]),
}
NAMES = {}
for _d in range(5):
    _t = '#9F'
    _n = 'unknown'
    for _i in range(_d):
        _t = (('Seg', 'Sub', 'Sub', 'Deep')[_d - _i - 1], ['U', _t, 'B'] if _i % 2 else [_t])
    NAMES['unknown at depth %d' % _d] = _t
NAMES['unknown last'] = ('Seg', ['U', ('Sub', ['U', 'S']), ('Sub', ['S', ('Deep', ['U']), '#9F'])])
NAMES['none unknown'] = ('Seg', ['U', ('Sub', ['U', 'S']), ('Sub', ['S', ('Deep', ['U'])])])


class Maker:
    def __init__(self, S, st):
        self.S, self.st, self.n = S, st, 0

    def make(self, spec):
        S, st = self.S, self.st
        if isinstance(spec, tuple):
            kids = [self.make(k) for k in spec[1]]
            return new_xml(S.ip, st, spec[0], (), NONE, [k[0] for k in kids]), (spec[0], kids)
        self.n += 1
        attrs, text = [], NONE
        tag = spec
        if spec[0] == '#':
            tag, attrs = 'Unheard', [('id', '0x' + spec[1:])]
        if spec in ('U', 'F'):
            attrs.append(('value', '%d' % (self.n * 7)))
        elif spec == 'S':
            v = Sym('text%d' % self.n, 'str')
            st.facts.tr[Op('has', (v, K('\0')), 'bool')] = False
            st.facts.tr[Op('printable', (v,), 'bool')] = True
            st.facts.restrict(mklen(v), 5, 5)
            attrs.append(('value', v if not S.concrete else 'value'))
        elif S.concrete:
            text = K('aGVsbG8=')
        else:
            codec = one(S.call(st, 'ebmlite.xml_codecs.Base64Codec'), 'codec')[1]
            text = one(S.method(st, codec, 'encode', mkbs([Seg('rd', K('data%d' % self.n), ZERO, K(4))])), 'text')[1]
        return new_xml(S.ip, st, tag, attrs, text), (spec, None)


def x2e(S, st, x, schema, kw):
    out = new_stream(S.ip, st, 'mem', content=K(b''))
    S.ip.steps = 0
    return [(s, sig, v if sig != 'v' else M.deref(s, s.get(out).data)) for s, sig, v in S.call(st, X2E, x, out, schema, **kw)]


def encoded(S, spec, sl, unknown):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    x, shape = Maker(S, st).make(spec)
    kw = {}
    if sl is not None:
        kw['sizeLength'] = K(sl)
    if unknown is not None:
        kw['unknown'] = K(unknown)
    outs = x2e(S, st, x, schema, kw)
    if unknown is False and has_unknown(spec):
        S.raises(outs, 'NameError', REFUSE, X2E)
        return
    for s, data in S.normal(outs, DONE, X2E):
        nested(S, s, x, shape, data, schema, kw, sl)


def has_unknown(spec):
    return spec[0] == '#' if isinstance(spec, str) else any(has_unknown(k) for k in spec[1])


def nested(S, st, x, shape, data, schema, kw, sl):
    """ data is the master's frame and its children's own encodings. """
    tag, kids = shape
    bodies = []
    for k, ks in kids:
        good = S.normal(x2e(S, st.clone(), k, schema, kw), DONE, X2E)
        if len(good) != 1:
            S.undecided(st, BYTES, X2E, 'a child converts in %d ways' % len(good))
            return
        bodies.append(good[0][1])
        if ks[1] is not None:
            nested(S, good[0][0], k, ks, good[0][1], schema, kw, sl)
    body = cat(st, K(b''), *bodies)
    w = sl if sl is not None else 4
    n = st.facts.const(bytes_len(body))
    if n is None:
        S.undecided(st, BYTES, X2E, 'size not determined')
        return
    S.eq(st, data, cat(st, K(eid_bytes(IDS[tag])), K(size_bytes(n, w)), body), BYTES, X2E, 'bytes of %s' % tag)


def whole_document(S, st, schema, x, spec, sl, how, unknown):
    """ Outcomes of a whole conversion. """
    kw = {'headers': FALSE}
    if sl is not None:
        kw['sizeLength'] = K(sl)
    if unknown is not None:
        kw['unknown'] = K(unknown)
    if how == 'element':
        kw.pop('headers')
        return x2e(S, st, x, schema, kw)
    tag = one(S.get(st.clone(), one(S.get(st.clone(), schema, 'document'), 'document')[1], '__name__'), 'name')[1]
    x = new_xml(S.ip, st, tag, (), NONE, [x])
    if how == 'tree':
        st, x = one(S.call(st, Ext('xml.etree.ElementTree.ElementTree'), x), 'tree')
    if how != 'file':
        out = new_stream(S.ip, st, 'mem', content=K(b''))
        return [(s, sig, v if sig != 'v' else M.deref(s, s.get(out).data)) for s, sig, v in S.call(st, XDOC, x, out, schema, **kw)]
    mark = st.events
    res = []
    for s, sig, v in S.call(st, XDOC, x, K('/data/out.ebml'), schema, **kw):
        if sig == 'v':
            opened = [e for e in s.event_list(mark) if e[0] == 'open']
            if len(opened) != 1:
                S.undecided(s, WIDTH, XDOC, 'opens %d files' % len(opened))
                continue
            v = M.deref(s, s.get(opened[0][1]).data)
        res.append((s, sig, v))
    return res


def unknowns(S, spec, sl, how, unknown):
    st, schema = S.w.with_schema(peel=40, recursion=16, plainfs=True)
    x, shape = Maker(S, st).make(spec)
    outs = whole_document(S, st, schema, x, spec, sl, how, unknown)
    where = X2E if how == 'element' else XDOC
    if unknown is False and has_unknown(spec):
        S.raises(outs, 'NameError', REFUSE, where)
        return
    S.normal(outs, ALLOW, where)
    for s, sig, v in outs:
        if sig == 'v':
            S.holds(s, ALLOW, where)


def widths(S, sl, how):
    st, schema = S.w.with_schema(peel=40, recursion=16, plainfs=True)
    spec = XTREES['siblings']
    x, shape = Maker(S, st).make(spec)
    where = X2E if how == 'element' else XDOC
    for s, data in S.normal(whole_document(S, st, schema, x, spec, sl, how, None), DONE, where):
        nested(S, s, x, shape, data, schema, {} if sl is None else {'sizeLength': K(sl)}, sl)
