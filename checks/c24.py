""" C24: XML-to-EBML conversion writes masters with correct sizes in place. """

from .xmllib import *
from .enclib import DEC

RULE = ('Abstract interpretation of xmlElement2ebml() and xml2ebml() over abstract XML trees (master elements nested to five '
        'levels holding no, one or several children of symbolic contents and symbolic length, comments anywhere), every '
        'size-length option, sizeLength and size attribute, and output streams that already hold an unconstrained number of '
        'arbitrary bytes, positioned at their end or before other data. The bytes written are read apart frame by frame: the '
        'ID of each master, a size that is exactly the number of bytes its children occupy, in the width asked for, then '
        'each child in order, every leaf as the bytes it converts to by itself, and nothing else. What was in the stream '
        'before and after is unchanged, the stream is left at the end of what was written, and the returned count is the '
        'number of bytes written; comments write nothing and count for nothing. A size that does not fit its width must '
        'raise.')
LEVEL = 'other'

FRAME = 'a master is its ID, the size of its children and its children in order'
WIDTH = 'a size uses the width asked for'
COUNT = 'the returned count is the number of bytes written'
END = 'the stream is left at the end of what was written'
KEEP = 'other data in the stream is kept'
COMMENT = 'comments write nothing'
OK = 'conversion does not raise'
FIT = 'a size that does not fit its width is refused'

# XML trees: (tag, kids or leaf kind, attributes)
SUB = ('Sub', ['U', 'S'], {})
TREES = {
    'empty': ('Seg', [], {}),
    'one leaf': ('Seg', ['U'], {}),
    'leaves': ('Seg', ['S', '#9F', 'U', 'B', 'Void', 'I', 'T', 'F', 'D', 'Crc'], {}),
    'empty leaves': ('Seg', ['B0', 'S0', 'Void0'], {}),
    'nested': ('Seg', [('Sub', [('Deep', ['U', 'Lazy'], {})], {})], {}),
    'siblings': ('Seg', ['U', SUB, 'S', SUB, ('Eager', ['U'], {}), 'B'], {}),
    'empty masters': ('Seg', [('Sub', [], {}), ('Sub', [('Deep', [], {})], {}), ('Eager', [], {})], {}),
    'comments': ('Seg', ['#', 'U', '#', ('Sub', ['#', '#'], {}), ('Sub', ['#', 'U', '#'], {}), '#'], {}),
    'recursive': ('Seg', [('Sub', [('Sub', [('Seg', [('Sub', ['B', 'U'], {}), 'U'], {}), 'S'], {}), 'U'], {})], {}),
    'long': ('Seg', ['T9', 'T9', ('Sub', ['T9', 'T9'], {})], {}),
    'exactly 126': ('Seg', ['D', ('B', 114)], {}),
    'exactly 127': ('Seg', ['D', ('B', 115)], {}),
    'exactly 128': ('Seg', [('Sub', ['D', ('B', 114)], {})], {}),
    'mixed case comment': ('Seg', ['#', ('Sub', ['U'], {}), '#', 'U'], {}),
}
ATTRS = {
    'size attribute on all': lambda tag: {'size': '500'},
    'small size attribute': lambda tag: {'size': '12'} if tag == 'Seg' else {},
    'wrong size attribute': lambda tag: {'size': '0'} if tag == 'Sub' else {},
    'sizeLength on top': lambda tag: {'sizeLength': '3'} if tag == 'Seg' else {},
    'sizeLength on nested': lambda tag: {'sizeLength': '7'} if tag == 'Sub' else {},
    'sizeLength on deepest': lambda tag: {'sizeLength': '2'} if tag in ('Deep', 'Eager') else {},
    'narrow nested': lambda tag: {'sizeLength': '1'} if tag == 'Sub' else {'sizeLength': '8'},
    'sizeLength and size': lambda tag: {'sizeLength': '5', 'size': '3'},
}
PLACES = ('empty', 'end', 'middle')


def run(C):
    some = ('empty', 'leaves', 'siblings', 'comments')
    for t in TREES:
        for sl in (None, 1, 2, 3, 4, 5, 6, 7, 8):
            for place in PLACES if t in some or C.thorough else (PLACES[(sl or 0) % 3],):
                C.scenario('%s, size length %s, %s' % (t, sl, place), convert, TREES[t], sl, None, place)
    for a in ATTRS:
        for t in ('leaves', 'siblings', 'nested', 'recursive', 'long', 'empty masters') if C.thorough else ('siblings', 'nested', 'long'):
            for sl in (None, 1, 4, 8) if C.thorough else (None, 4):
                C.scenario('%s, %s, size length %s' % (t, a, sl), convert, TREES[t], sl, a, 'end')
    for t in ('leaves', 'siblings', 'comments', 'empty', 'recursive'):
        for sl in (None, 1, 2, 8):
            for place in PLACES:
                for how in ('element', 'tree', 'root', 'roots', 'with header'):
                    C.scenario('document %s as %s, size length %s, %s' % (t, how, sl, place), document, TREES[t], sl, place, how)
    for n in ('U', 'I', 'F', 'S', 'T', 'D', 'B', 'P', 'Crc', 'Void', '#9F', 'S0', 'B0', 'U8', 'F8', 'S40', 'B40', 'Usl', 'Bsl'):
        for place in PLACES:
            C.scenario('leaf %s, %s' % (n, place), leaf, n, place)
    for place in PLACES:
        C.scenario('comment, %s' % place, comment, place)


class Tree:
    """ An abstract XML tree, and for each of its nodes what it stands for. """

    def __init__(self, S, st, sl, marks=None):
        self.S, self.st, self.sl, self.n, self.marks = S, st, sl, 0, ATTRS[marks] if marks else None

    def make(self, spec):
        """ (XML element, shape); a shape is None for a comment, a list
            [id, width or None, shapes] for a master, ('leaf', XML element) for others. """
        if spec == '#':
            f = self.S.ip.resolve(self.st, UTIL + 'ET')
            return new_xml(self.S.ip, self.st, Ext('xml.etree.ElementTree.Comment'), (), K('U')), None
        if isinstance(spec, str) or not isinstance(spec[1], list):
            x = self.leaf(spec)
            return x, ('leaf', x)
        tag, kids, attrs = spec
        if self.marks:
            attrs = dict(attrs, **self.marks(tag))
        made = [self.make(k) for k in kids]
        w = int(attrs['sizeLength']) if 'sizeLength' in attrs else self.sl
        x = new_xml(self.S.ip, self.st, tag, list(attrs.items()), NONE, [m[0] for m in made])
        return x, [IDS[tag], w if 'sizeLength' in attrs or not self.marks else None, [m[1] for m in made if m[1] is not None]]

    def leaf(self, spec):
        name, n = spec if isinstance(spec, tuple) else (spec, None)
        self.n += 1
        attrs, text = [], NONE
        S, st = self.S, self.st
        if name[0] != '#' and name not in IDS:
            name, mod = name[0] if not name.startswith('Void') else 'Void', name.lstrip('VoidUIFSTDB')
            if mod == 'sl':
                attrs.append(('sizeLength', '3'))
            elif mod == '9':
                n = 60
            elif mod == '0':
                n = 0
            else:
                attrs.append(('size', mod))
        if name[0] == '#':
            attrs.append(('id', '0x' + name[1:]))
            name = 'Unheard'
        if name in ('B', 'P', 'Crc', 'Void', 'Unheard'):
            n = (6 if name != 'Void' else 3) if n is None else n
            import base64
            if S.concrete or not n:
                text = K(base64.b64encode(bytes(range(self.n, self.n + n))).decode()) if n else NONE
            else:
                data = mkbs([Seg('rd', K('data%d' % self.n), ZERO, K(n))])
                codec = one(S.call(st, 'ebmlite.xml_codecs.Base64Codec'), 'codec')[1]
                text = one(S.method(st, codec, 'encode', data), 'text')[1]
            if name == 'Void':
                attrs.append(('size', str(n)))
        elif name in ('S', 'T'):
            lo, hi = (0, 0) if n == 0 else (n - 20, n) if n else (1, 9)
            v = Sym('text%d' % self.n, 'str')
            st.facts.tr[Op('has', (v, K('\0')), 'bool')] = False
            if name == 'S':
                st.facts.tr[Op('printable', (v,), 'bool')] = True
            ln = mklen(v) if name == 'S' else mklen(Op('encodestr', (v, K('utf-8')), 'bytes'))
            st.facts.restrict(ln, lo, hi)
            attrs.append(('value', K('') if n == 0 else v if not S.concrete else K('t' * hi)))
        else:
            text_ = {'F': '%d.5' % self.n, 'D': '2020-02-0%d 01:02:03.000004' % (self.n % 9 + 1)}.get(name, str(self.n * 3))
            if name == 'I':
                text_ = '-' + text_
            attrs.append(('value', text_))
        return new_xml(S.ip, st, IDS and name, attrs, text)


def place_stream(S, st, place):
    """ (stream, starting position, what is there). """
    before = K(b'') if place == 'empty' else K(b'before') if S.concrete else Bs([Seg('rd', K('before'), ZERO, Sym('before', 'int'))])
    after = K(b'') if place != 'middle' else K(b'after' * 400) if S.concrete else \
        Bs([Seg('rd', K('after'), ZERO, K(4000))])
    if place != 'empty' and not S.concrete:
        st.facts.restrict(Sym('before', 'int'), 1)
    out = new_stream(S.ip, st, 'mem', content=cat(st, before, after))
    S.ip.mut(st, out).info['pos'] = bytes_len(before)
    return out, bytes_len(before), before, after


def written(S, st, out, start, before, after, where):
    """ The bytes written since, or None; and checks the rest. """
    pos = st.get(out).info['pos']
    data = st.get(out).data
    n = sub(pos, start)
    total = bytes_len(data)
    end = add(start, bytes_len(after))
    if after == K(b''):
        S.eq(st, total, pos, END, where, 'position')
    ref = new_stream(S.ip, st, 'mem', content=data)
    s, head = one(S.method(st, ref, 'read', start), 'read')
    S.eq(s, head, before, KEEP, where, 'earlier data')
    s, body = one(S.method(s, ref, 'read', n), 'read')
    if after != K(b''):
        s, rest = one(S.method(s, ref, 'read'), 'read')
        src = new_stream(S.ip, s, 'mem', content=after)
        s, _ = one(S.method(s, src, 'read', n), 'read')
        s, want = one(S.method(s, src, 'read'), 'read')
        S.eq(s, rest, want, KEEP, where, 'later data')
    return body, n


def convert(S, spec, sl, marks, place):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    T = Tree(S, st, sl, marks)
    x, shape = T.make(spec)
    out, start, before, after = place_stream(S, st, place)
    kw = {} if sl is None else {'sizeLength': K(sl)}
    finish(S, S.call(st, X2E, x, out, schema, **kw), schema, out, start, before, after, [shape], X2E, place)


def finish(S, outs, schema, out, start, before, after, shapes, where, place, headers=False):
    good = []
    for s, sig, v in outs:
        if sig == 'raise' and S.is_exc(s, v, 'ValueError') and refusable(shapes):
            S.true(s, True, FIT, where)
            continue
        good.append((s, sig, v))
    for s, n in S.normal(good, OK, where):
        S.ip.steps = 0
        try:
            data, count = written(S, s, out, start, before, after, where)
        except AnalysisError as e:
            S.undecided(s, FRAME, where, str(e))
            continue
        S.eq(s, n, count, COUNT, where, 'count')
        stream = new_stream(S.ip, s, 'mem', content=M.deref(s, data))
        for s2 in elements(S, s, schema, stream, shapes, where):
            for s3, rest in S.normal(S.method(s2, stream, 'read'), FRAME, where):
                S.eq(s3, bytes_len(M.deref(s3, rest)), ZERO, FRAME, where, 'bytes after the last element')


def refusable(shapes):
    """ Some size may not fit its width. """
    return any(isinstance(x, list) and (x[1] is None or x[1] == 1 or refusable(x[2])) for x in shapes)


def position(S, st, stream):
    return st.get(stream).info['pos']


def elements(S, st, schema, stream, shapes, where):
    """ The stream goes on with these elements: states at their end. """
    states = [st]
    for shape in shapes:
        states = [s2 for s in states for s2 in element(S, s, schema, stream, shape, where)]
    return states


def element(S, st, schema, stream, shape, where):
    if shape[0] == 'leaf':
        x, out = shape[1], new_stream(S.ip, st, 'mem', content=K(b''))
        res = []
        for s, n in S.normal(S.call(st, X2E, x, out, schema), FRAME, where):
            want = s.get(out).data
            for s2, got in S.normal(S.method(s, stream, 'read', bytes_len(want)), FRAME, where):
                S.eq(s2, M.deref(s2, got), want, FRAME, where, 'child')
                res.append(s2)
        return res
    eid, width, kids = shape
    res = []
    for s, v in S.normal(S.call(st, DEC + 'readElementID', stream), FRAME, where):
        for s2, v2 in S.normal(S.call(s, DEC + 'readElementSize', stream), FRAME, where):
            if type(v) is not Tup or type(v2) is not Tup:
                S.undecided(s2, FRAME, where, 'frame not determined')
                continue
            S.eq(s2, v.items[0], K(eid), FRAME, where, 'ID')
            size, sl = v2.items
            if width is not None:
                S.eq(s2, sl, K(width), WIDTH, where, 'size width')
            begin = position(S, s2, stream)
            if size == NONE:
                S.violated(s2, FRAME, where, 'the size reads back as unknown')
                continue
            for s3 in elements(S, s2, schema, stream, kids, where):
                S.eq(s3, sub(position(S, s3, stream), begin), size, FRAME, where, 'bytes of children')
                res.append(s3)
    return res


def leaf(S, name, place):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    x, shape = Tree(S, st, None).make(name)
    out, start, before, after = place_stream(S, st, place)
    for s, n in S.normal(S.call(st, X2E, x, out, schema), OK, X2E):
        data, count = written(S, s, out, start, before, after, X2E)
        S.eq(s, n, count, COUNT, X2E, 'count')
        for s2, i, il, size, nl, stream in split(S, s, data, X2E, FRAME):
            S.eq(s2, count, add(add(il, nl), size), 'a leaf is its frame and payload', X2E, 'length')


def comment(S, place):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    x = Tree(S, st, None).make('#')[0]
    for sl in (None, 1, 8):
        for unknown in (TRUE, FALSE):
            s = st.clone()
            out, start, before, after = place_stream(S, s, place)
            for s2, n in S.normal(S.call(s, X2E, x, out, schema, sizeLength=K(sl), unknown=unknown), COMMENT, X2E):
                data, count = written(S, s2, out, start, before, after, X2E)
                S.eq(s2, n, ZERO, COMMENT, X2E, 'count')
                S.eq(s2, count, ZERO, COMMENT, X2E, 'bytes written')


def document(S, spec, sl, place, how):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    T = Tree(S, st, sl)
    made = [T.make(spec)]
    if how == 'roots':
        made = [T.make('#'), made[0], T.make('#'), T.make(('Seg', ['U'], {})), T.make('Void')]
    x = made[0][0]
    if how in ('root', 'roots'):
        tag = one(S.get(st.clone(), one(S.get(st.clone(), schema, 'document'), 'document')[1], '__name__'), 'name')[1]
        x = new_xml(S.ip, st, tag, (), NONE, [m[0] for m in made])
    if how == 'tree':
        st, x = one(S.call(st, Ext('xml.etree.ElementTree.ElementTree'), x), 'tree')
    out, start, before, after = place_stream(S, st, place)
    kw = {} if sl is None else {'sizeLength': K(sl)}
    if how == 'with header':
        # the header that is written in front is a fixed one
        return with_header(S, st, x, schema, kw, made, sl, place)
    finish(S, S.call(st, XDOC, x, out, schema, headers=FALSE, **kw), schema, out, start, before, after,
           [m[1] for m in made if m[1] is not None], XDOC, place)


def with_header(S, st, x, schema, kw, made, sl, place):
    """ A generated header counts, and what follows is as without it. """
    out, start, before, after = place_stream(S, st, place)
    good = [(s, sig, v) for s, sig, v in S.call(st, XDOC, x, out, schema, headers=TRUE, **kw)
            if not (sig == 'raise' and S.is_exc(s, v, 'ValueError') and refusable([m[1] for m in made]))]
    for s, n in S.normal(good, OK, XDOC):
        S.ip.steps = 0
        data, count = written(S, s, out, start, before, after, XDOC)
        S.eq(s, n, count, COUNT, XDOC, 'count')
        stream = new_stream(S.ip, s, 'mem', content=M.deref(s, data))
        for s2, v in S.normal(S.call(s, DEC + 'readElementID', stream), FRAME, XDOC):
            for s3, v2 in S.normal(S.call(s2, DEC + 'readElementSize', stream), FRAME, XDOC):
                if type(v) is not Tup or type(v2) is not Tup or type(v2.items[0]) is not K:
                    S.undecided(s3, FRAME, XDOC, 'frame not determined')
                    continue
                S.eq(s3, v.items[0], K(0x1A45DFA3), FRAME, XDOC, 'ID')
                for s4, _ in S.normal(S.method(s3, stream, 'read', v2.items[0]), FRAME, XDOC):
                    for s5 in elements(S, s4, schema, stream, [m[1] for m in made if m[1] is not None], XDOC):
                        for s6, rest in S.normal(S.method(s5, stream, 'read'), FRAME, XDOC):
                            S.eq(s6, bytes_len(M.deref(s6, rest)), ZERO, FRAME, XDOC, 'bytes after the last element')
