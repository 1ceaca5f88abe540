""" C30: header information and header options are consistent. """

from checks.doclib import *
from checks import enclib
from checks.enclib import dictref, listref, cat
from checks.schemalib import dict_items, schema_xml

RULE = ('Abstract interpretation of Document.__init__ on symbolic layouts (headers of every size length, of unknown '
        'size, with void and unknown children, missing, not first, behind other data), opened through every public '
        'way with and without the headers option: the info dictionary must hold the values the header\'s children '
        'have, and the root elements be the laid-out ones, less the header exactly if it was not asked for. '
        'Abstract interpretation of encoding with and without headers, and of XML conversion with the header first, '
        'later, at the root or absent: the output must be the output without headers, preceded by the bytes of one '
        'header holding the schema\'s defaults exactly when one is called for.')
LEVEL = 'other'

INIT, ITER, X2E = CORE + 'Document.__init__', CORE + 'Document.__iter__', 'ebmlite.util.xml2ebml'
INFO = 'the header\'s contents are read into the info'
ROOTS = 'the headers option decides whether the header is a root element'
TYPE = 'type and version are those of the header'
ONE_ = 'one header with the defaults is written before the data'
NOHEAD = 'no header is written unless asked for'
XONE = 'XML conversion adds a header exactly if asked to and there is none'

FIELDS = {0x4286: 'EBMLVersion', 0x42F7: 'EBMLReadVersion', 0x4282: 'DocType', 0x4287: 'DocTypeVersion',
          0x4285: 'DocTypeReadVersion', 0xEC: 'Void', 0x4FFF: 'UnknownElement', 0xBF: 'Crc'}


def body_all(f):
    f.leaf(0x4286, 1, 1)
    f.leaf(0x42F7, 2, 1)
    f.data(0x4282, b'abs')
    f.leaf(0x4287, 1, 2)
    f.leaf(0x4285, 8, 1)


def body_odd(f):
    f.leaf(0xEC, 1)
    f.data(0x4282, b'other\0\0')
    f.leaf(0x4287, 1, 0)
    f.leaf(0xBF, 1, 4)


def rest(f):
    f.master(0x81, lambda f: kid(f, 'U'))
    kid(f, 'Void')
    f.master(0x81, lambda f: (kid(f, 'B'), kid(f, 'F')))


def seq(*parts):
    def layout(f):
        for p in parts:
            p(f)
    return layout


def head(body, n=1):
    return lambda f: f.master(0x1A45DFA3, body, sizelen=n)


def ohead(body):
    return lambda f: f.open_master(0x1A45DFA3, body)


NOTHING = lambda f: None
DOCS = {
    'all fields': seq(head(body_all), rest), 'other fields': seq(head(body_odd, 3), rest),
    'long size': seq(head(body_all, 8), rest), 'unknown size': seq(ohead(body_all), rest),
    'unknown size, other fields': seq(ohead(body_odd), rest),
    'empty header': seq(head(NOTHING), rest), 'only a header': head(body_all), 'no header': rest,
    'header later': seq(rest, head(body_all), rest), 'two headers': seq(head(body_all), rest, head(body_odd)),
    'unknown first': seq(lambda f: f.leaf(0x4FFF, 1), rest), 'only an unknown-size header': ohead(body_all),
}
WAYS = ('load', 'load default', 'document', 'document default', 'call')


def run(C):
    for name, lay in DOCS.items():
        for way in WAYS:
            for hdr in ((True, False) if 'default' not in way and way != 'call' else (None,)):
                C.scenario('%s, %s headers=%s' % (name, way, hdr), reading, lay, way, hdr, ZERO)
        for hdr in (True, False):
            C.scenario('%s behind other data, headers=%s' % (name, hdr), reading, seq(lambda f: f.leaf(0xEC, 1, 3), lay), 'load', hdr, None)
            if name == 'all fields':
                C.scenario('%s at any position, headers=%s' % (name, hdr), reading, lay, 'load', hdr, Sym('start', 'int'))
    C.scenario('from bytes', strings)
    for d in DEFAULTS:
        for shape in ('dict', 'pairs', 'dicts', 'empty', 'none'):
            for api in ('document', 'encode', 'encodes'):
                C.scenario('encoding %s as %s with %s' % (shape, api, d), encoding, d, shape, api)
    for where in ('none', 'first', 'last', 'twice', 'root', 'other root', 'empty'):
        for n in (None, 1, 4):
            C.scenario('XML with the header %s, size length %s' % (where, n), xml, where, n)
    C.scenario('XML with a schema without headers', xml_no_ebml)


# ---------------------------------------------------------------- reading
def reading(S, layout, way, hdr, start):
    d = Doc(S, layout, start=ZERO if start is None else start, load=False)
    st = d.st.clone()
    if start is None:
        # the document begins behind the first element
        d.file.elements = d.elements[1:]
        S.ip.mut(st, d.stream).info['pos'] = d.elements[0]['offset']
    kw = {} if hdr is None else {'headers': K(hdr)}
    if way.startswith('load'):
        outs = S.method(st, d.schema, 'load', d.stream, **kw)
        shown = bool(hdr)
    elif way.startswith('document'):
        outs = S.call(st, attr(S.ip, st, d.schema, 'document'), d.stream, **kw)
        shown = hdr is not False
    else:
        outs = S.call(st, d.schema, d.stream)
        shown = False
    for s, doc in S.normal(outs, 'a document can be opened', INIT):
        d.doc = doc
        check_info(S, d, s, doc)
        want = d.elements
        if want and want[0]['id'] == 0x1A45DFA3 and not shown:
            want = want[1:]
        for s2, v in S.normal(S.listof(s.clone(), doc), ROOTS, ITER):
            d.children(s2, v, want, ITER, ROOTS)
        for s2, n in S.normal(S.call(s.clone(), Ext('builtins.len'), doc), ROOTS, ITER):
            S.eq(s2, n, K(len(want)), ROOTS, CORE + 'Document.__len__', 'length')
        if want:
            for s2, el in S.normal(S.method(s.clone(), doc, '__getitem__', ZERO), ROOTS, CORE + 'Document.__getitem__'):
                d.element(s2, el, want[0], CORE + 'Document.__getitem__', ROOTS)


def check_info(S, d, s, doc):
    els = d.elements
    hdr = els[0]['children'] if els and els[0]['id'] == 0x1A45DFA3 else []
    info = attr(S.ip, s, doc, 'info')
    its = dict_items(s, info) if info is not None else None
    if its is None:
        S.undecided(s, INFO, INIT, 'info not determined')
        return
    names = [FIELDS[e['id']] for e in hdr]
    keys = [k.v if type(k) is K else None for k, v in its]
    S.true(s, None if None in keys else sorted(keys) == sorted(names), INFO, INIT, 'fields %r, the header has %r' % (keys, names))
    for e in hdr:
        for k, v in its:
            if k == K(FIELDS[e['id']]) and e['id'] not in (0xEC,):
                for s2, want in d.values(s, e):
                    if want is not None:
                        S.eq(s2, v, want, INFO, INIT, k.v)
    for prop, eid in (('type', 0x4282), ('version', 0x4287)):
        mine = [e for e in hdr if e['id'] == eid]
        for s2, v in S.normal(S.get(s.clone(), doc, prop), TYPE, CORE + 'Document.' + prop):
            if not mine:
                S.eq(s2, v, NONE, TYPE, CORE + 'Document.' + prop, prop)
            else:
                for s3, want in d.values(s2, mine[0]):
                    if want is not None:
                        S.eq(s3, v, want, TYPE, CORE + 'Document.' + prop, prop)


def strings(S):
    """ Schema.loads. """
    st, schema = S.w.with_schema(peel=12)
    h = bytes.fromhex('4282836162004287812A')
    data = bytes.fromhex('1A45DFA3') + bytes([0x80 | len(h)]) + h + bytes.fromhex('81838281' + '07')
    for s, doc in S.normal(S.method(st, schema, 'loads', K(data)), 'a document can be opened', CORE + 'Schema.loads'):
        its = dict_items(s, attr(S.ip, s, doc, 'info'))
        got = {k.v: v for k, v in its} if its is not None else {}
        S.true(s, None if its is None else set(got) == {'DocType', 'DocTypeVersion'}, INFO, CORE + 'Schema.loads', 'fields %r' % (got,))
        if 'DocType' in got:
            S.eq(s, got['DocType'], K('ab'), INFO, CORE + 'Schema.loads', 'DocType')
        if 'DocTypeVersion' in got:
            S.eq(s, got['DocTypeVersion'], K(42), INFO, CORE + 'Schema.loads', 'DocTypeVersion')
        for s2, v in S.normal(S.listof(s, doc), ROOTS, CORE + 'Schema.loads'):
            its = S.items(s2, v)
            S.true(s2, None if its is None else len(its) == 1, ROOTS, CORE + 'Schema.loads', 'root elements %r' % (its,))


# --------------------------------------------------------------- encoding
def hdefs(*fields):
    return [edef('MasterElement', 0x1A45DFA3, 'EBML', [edef(t, e, n, **({'default': d} if d is not None else {}))
                                                       for t, e, n, d in fields])] + GLOBALS + [BODY]


UI, ST = 'UIntegerElement', 'StringElement'
DEFAULTS = {
    'all defaults': hdefs((UI, 0x4286, 'EBMLVersion', '1'), (UI, 0x42F7, 'EBMLReadVersion', '2'), (ST, 0x4282, 'DocType', 'mine'),
                          (UI, 0x4287, 'DocTypeVersion', '300'), (UI, 0x4285, 'DocTypeReadVersion', '0')),
    'some defaults': hdefs((UI, 0x4286, 'EBMLVersion', None), (ST, 0x4282, 'DocType', 'mine'), (UI, 0x4287, 'DocTypeVersion', None),
                           (UI, 0x4285, 'DocTypeReadVersion', '7'), (UI, 0x42F2, 'EBMLMaxIDLength', '4')),
    'no header element': GLOBALS + [BODY],
}
WANT = {'all defaults': {0x4286: b'\1', 0x42F7: b'\2', 0x4282: b'mine', 0x4287: b'\1\x2c', 0x4285: (b'', b'\0')},
        'some defaults': {0x4282: b'mine', 0x4285: b'\7'}, 'no header element': None}


def take(b, size=False):
    n = 1
    while n < 9 and not b[0] >> (8 - n):
        n += 1
    v = int.from_bytes(b[:n], 'big')
    return (v & ~(1 << (7 * n)) if size else v), b[n:]


def constant(data):
    segs = segs_of(data)
    if not all(s.kind == 'lit' for s in segs):
        return None
    return b''.join(s.a[0] for s in segs)


def header_ok(data, want):
    """ Is this constant text one header with these children? """
    if want is None:
        return data == b''
    try:
        eid, b = take(data)
        n, b = take(b, True)
        if eid != 0x1A45DFA3 or n != len(b):
            return False
        left = dict(want)
        while b:
            eid, b = take(b)
            n, b = take(b, True)
            w = left.pop(eid, None)
            if w is None or b[:n] not in (w if isinstance(w, tuple) else (w,)):
                return False
            b = b[n:]
        return not left
    except IndexError:
        return False


def header_bytes(S, st, schema):
    """ What is written for no data but a header. """
    out = []
    st = st.clone()
    for s, sig, v in S.method(st, schema, 'encodes', dictref(S, st, []), headers=TRUE):
        out.append((s, sig, M.deref(s, v) if sig == 'v' else v))
    return out


def encoding(S, defs, shape, api):
    st, schema = S.w.with_schema(DEFAULTS[defs])
    vals = enclib.values(S, st)
    body = lambda: dictref(S, st, [('U', vals['U']), ('B', vals['B'])])
    if shape == 'dict':
        data = dictref(S, st, [('Seg', body())])
    elif shape == 'pairs':
        data = listref(S, st, [Tup([K('Seg'), body()]), Tup([K('Void'), NONE]), Tup([K('Seg'), body()])])
    elif shape == 'dicts':
        data = listref(S, st, [dictref(S, st, [('Seg', body())]), dictref(S, st, [('Void', NONE)])])
    elif shape == 'empty':
        data = dictref(S, st, [])
    else:
        data = listref(S, st, [])
    where = CORE + 'Document.encode'
    pre = K(b'before')
    for s, r in S.normal(written(S, st.clone(), schema, data, api, None, pre), 'data can be encoded', where):
        plain = r
        for s1, r1 in S.normal(written(S, s.clone(), schema, data, api, FALSE, pre), NOHEAD, where):
            S.eq(s1, r1, plain, NOHEAD, where, 'output')
        for s1, r1 in S.normal(written(S, s.clone(), schema, data, api, TRUE, pre), ONE_, where):
            for s2, h in S.normal(header_bytes(S, s1, schema), ONE_, where):
                c = constant(h)
                S.true(s2, None if c is None else header_ok(c, WANT[defs]), ONE_, where, 'header is %r' % (c,))
                if api == 'encodes':
                    S.eq(s2, r1, cat(s2, h, plain), ONE_, where, 'output with a header')
                else:
                    tail = [x for x in segs_of(plain)]
                    S.eq(s2, r1, cat(s2, pre, h, rest_of(plain, pre)), ONE_, where, 'output with a header')


def rest_of(data, pre):
    """ The bytes after the constant the stream held before. """
    segs = list(segs_of(data))
    n = len(pre.v)
    if segs and segs[0].kind == 'lit' and segs[0].a[0][:n] == pre.v:
        x = segs[0].a[0][n:]
        return mkbs(([Seg('lit', x)] if x else []) + segs[1:])
    raise AnalysisError('the stream\'s earlier contents changed')


def written(S, st, schema, data, api, hdr, pre):
    """ Outcomes whose value is everything that was written. """
    kw = {} if hdr is None else {'headers': hdr}
    if api == 'encodes':
        return [(s, sig, M.deref(s, v) if sig == 'v' else v) for s, sig, v in S.method(st, schema, 'encodes', data, **kw)]
    stream = new_stream(S.ip, st, 'mem', content=M.deref(st, pre))
    S.ip.mut(st, stream).info['pos'] = K(len(pre.v))
    if api == 'encode':
        outs = S.method(st, schema, 'encode', stream, data, **kw)
    else:
        outs = S.method(st, attr(S.ip, st, schema, 'document'), 'encode', stream, data, **kw)
    return [(s, sig, s.get(stream).data if sig == 'v' else v) for s, sig, v in outs]


# -------------------------------------------------------------------- XML
def xe(S, st, tag, kids=(), **a):
    return new_xml(S.ip, st, K(tag), tuple((K(k), v if not isinstance(v, str) else K(v)) for k, v in a.items()), NONE, tuple(kids))


def xml(S, where_, n):
    st, schema = S.w.with_schema()
    name = S.get(st, attr(S.ip, st, schema, 'document'), '__name__')
    tag = one(name, 'document name')[1]
    seg = lambda: xe(S, st, 'Seg', [xe(S, st, 'U', value='300'), xe(S, st, 'S', value=Sym('text', 'str'))])
    hdr = lambda: xe(S, st, 'EBML', [xe(S, st, 'DocType', value='own'), xe(S, st, 'DocTypeVersion', value='5')])
    kids = {'none': [seg(), seg()], 'first': [hdr(), seg()], 'last': [seg(), hdr()], 'twice': [hdr(), seg(), hdr()], 'empty': []}
    st.facts.restrict(mklen(Sym('text', 'str')), 1, 20)
    if where_ == 'root':
        root = hdr()
    elif where_ == 'other root':
        root = seg()
    else:
        root = new_xml(S.ip, st, tag, (), NONE, tuple(kids[where_]))
    none = where_ in ('none', 'other root', 'empty')
    for s, r in S.normal(converted(S, st.clone(), schema, root, n, FALSE), 'XML can be converted', X2E):
        plain, count = r
        for h in (TRUE, None):
            for s1, (r1, c1) in S.normal(converted(S, s.clone(), schema, root, n, h), XONE, X2E):
                for s2, hb in S.normal(header_bytes(S, s1, schema), XONE, X2E):
                    want = cat(s2, hb, plain) if none else plain
                    S.eq(s2, r1, want, XONE, X2E, 'output')
                    S.eq(s2, c1, add(count, bytes_len(hb)) if none else count, 'the header is counted', X2E, 'returned count')


def converted(S, st, schema, root, n, hdr):
    pre = K(b'before')
    stream = new_stream(S.ip, st, 'mem', content=M.deref(st, pre))
    S.ip.mut(st, stream).info['pos'] = K(len(pre.v))
    kw = {} if hdr is None else {'headers': hdr}
    if n is not None:
        kw['sizeLength'] = K(n)
    return [(s, sig, (rest_of(s.get(stream).data, pre), v) if sig == 'v' else v) for s, sig, v in S.call(st, X2E, root, stream, schema, **kw)]


def xml_no_ebml(S):
    st, schema = S.w.with_schema(DEFAULTS['no header element'])
    root = xe(S, st, 'Seg', [xe(S, st, 'U', value='300')])
    for s, (plain, count) in S.normal(converted(S, st.clone(), schema, root, None, FALSE), 'XML can be converted', X2E):
        for s1, (r1, c1) in S.normal(converted(S, s.clone(), schema, root, None, TRUE), XONE, X2E):
            S.eq(s1, r1, plain, XONE, X2E, 'output')
            S.eq(s1, c1, count, XONE, X2E, 'returned count')
