""" C22: XML written from a document is read back as the same elements. """

import struct

from .xmllib import *

RULE = ('Abstract interpretation of toXml over parsed abstract documents with every element type (payload bytes and '
        'text symbolic, unknown and void elements, several depths), followed by abstract interpretation of '
        'xmlElement2ebml on the very XML tree it built and of reading the result: the IDs, structure and values '
        'must be those of the original, for every combination of attribute options and codec. XML attributes must '
        'hold the plain text of the value, and hand-written XML (any value, codec and spelling of the ID) must '
        'convert to the element it spells.')
LEVEL = 'other'

TRIP = 'each element converts to XML and back to the same ID and value'
PLAIN = 'text appears in the XML unescaped'
HAND = 'hand-written XML converts to the element it spells'
CODEC = 'binary data uses the codec named in its encoding'

ALL = [('EBML', ['EBMLVersion', ('DocType', b'abs'), 'Void']),
       ('Seg', ['U', 'I', 'F', ('F', 4), 'S', 'T', 'D', 'B', 'P', 'Void', 'Crc',
                ('Sub', ['U', 'S', ('Deep', ['U', 'Lazy']), ('Sub', [])])]), 'Void', ('Seg', [])]
UNKNOWN = [('#9F', 4), ('Seg', [('#4FFF', 3), 'U', ('#1F43B6FF', 2), ('#203FFE', 1)])]
LEAVES = ['U', 'I', 'F', 'S', 'T', 'D', 'B', 'P', 'Void', 'Crc', 'Lazy', '#9F', '#4FFF', '#201234', '#101FFFFE']


def run(C):
    flags = [{}] + [{k: False} for k in ('offsets', 'sizes', 'types', 'ids')] + [
        {k: False for k in ('offsets', 'sizes', 'types', 'ids')}]
    codecs = [{}, {'binary_codec': 'hex', 'void_codec': 'base64'}, {'binary_codec': 'base64', 'void_codec': 'hex'},
              {'binary_codec': ('HexCodec', {'cols': 0, 'width': 4}), 'void_codec': ('Base64Codec', {'cols': 8})},
              {'binary_codec': ('Base64Codec', {'cols': 0}), 'void_codec': ('HexCodec', {'cols': 2, 'offsets': False})},
              {'binary_codec': 'ignore'}]
    for n in LEAVES:
        for f in flags:
            for c in codecs:
                if not ('ids' in f and n.startswith('#')):
                    C.scenario('%s, %r %r' % (n, f, c), trip, [n], dict(f, **c))
    for f in flags if C.thorough else flags[:1] + flags[-1:]:
        for c in codecs:
            C.scenario('all types, %r %r' % (f, c), trip, ALL, dict(f, **c))
            if 'ids' not in f:
                C.scenario('unknown elements, %r %r' % (f, c), trip, UNKNOWN, dict(f, **c))
    long_ = bytes(i * 37 % 251 for i in range(300))
    for n in ('B', 'P', 'Crc', 'Void', '#9F', '#4FFF'):
        for c in codecs[:5]:
            for k, data in (('empty', b''), ('one zero', b'\0'), ('text', b'<a> &amp; "b"\r\n'), ('long', long_)):
                C.scenario('%s holding %s, %r' % (n, k, c), trip, [(n, data)], c)
    for n, datas in CONSTS.items():
        for i, data in enumerate(datas):
            C.scenario('%s constant %d' % (n, i), trip, [(n, data)], {})
    for f in (flags[0], flags[-1]):
        for n in ('U', 'I', 'F', 'S', 'T', 'Lazy', 'EBMLVersion', 'DocType'):
            C.scenario('empty %s, %r' % (n, f), trip, [(n, b'')], f)
        for n in ('U', 'I', 'Lazy'):
            for k in (1, 3, 8):
                C.scenario('%s of %d bytes, %r' % (n, k, f), trip, [(n, k)], f)
        for n, (a, b) in EDGES.items():
            C.scenario('%s, %r' % (n, f), edged, n[0], a, b, f)
    C.scenario('early dates', trip, ['D'], {}, False)
    C.scenario('first representable dates', first_dates)
    for n in ('S', 'T', 'U', 'I', 'F', 'D'):
        C.scenario('value attribute of %s' % n, plain, n)
    for n in HANDS:
        for size in (None, 9, 40):
            if size is None or n in ('S', 'T', 'B', 'P') or size == 8:
                C.scenario('hand-written %s, size %s' % (n, size), by_hand, n, size)
    for enc in (None, 'base64', 'hex'):
        for tag in ('B', 'P', 'Crc', 'Unheard'):
            C.scenario('hand-written %s in %s' % (tag, enc), by_codec, tag, enc)
    C.scenario('unknown elements by hand', unknown_ids)
    C.scenario('unknown elements without an ID', no_id)


CONSTS = {
    'U': [b'\0', b'\x07', b'\0\0\x01', b'\xff' * 8, b'\x80'],
    'I': [b'\0', b'\xff', b'\x80', b'\xff\xff\xfe', b'\x7f' + b'\xff' * 7, b'\x80' + b'\0' * 7],
    'F': [struct.pack('>d', v) for v in (0.1, -0.0, 1e300, 5e-324, 1e16, -123456789.125, float('inf'), -float('inf'))] +
         [struct.pack('>f', v) for v in (0.1, 3.4e38, 1e-45, -2.5, float('inf'))],
    'D': [struct.pack('>q', v) for v in (0, 1000, 123456789000, -1000, 604800 * 10 ** 9, 86399999999000, -(1 << 62), (1 << 63) - 1, 1999,
                                         -1, -1999)],
    'S': [b'abc\0\0', b'\0', b' x ', b'1e5', b'None', b"''"],
    'T': ['\u20ac<>&\0'.encode(), b' \n', '\U0001F600'.encode(), b'&amp;', b'\xef\xbb\xbfbom'],
}

# literal text around symbolic text
EDGES = {'S between spaces': ('  x ', ' y  '), 'T between spaces': ('\t x\u2003 ', '\xa0 y \n'), 'S markup': ('<&amp;>"', "'&#65;]]>"),
         'T markup': ('\u20ac<&amp;>"', "'&#65;\U0001F600]]>"), 'S number': ('0x12', '34'), 'T case': ('AbC\xdf', '\u0130x'),
         'S lines': ('a~', ' b'), 'T lines': ('\r\na\n\n', '\rb\u2028'), 'T combining': ('e\u0301', '\u00e9\ufb01'),
         'S percent': ('%s %d {0}', '\\x41\\'), 'T null text': ('None', 'None')}


def edged(S, n, a, b, opts):
    """ Text known at its edges only. """
    enc = 'ascii' if n == 'S' else 'utf-8'
    st, schema = S.w.with_schema(peel=40, recursion=16)
    x = Sym('middle', 'str')
    st.facts.tr[Op('has', (x, K('\0')), 'bool')] = False
    if n == 'S':
        st.facts.tr[Op('printable', (x,), 'bool')] = True
    body = Op('encodestr', (x, K(enc)), 'bytes')
    ln = mklen(x) if n == 'S' else mklen(body)
    st.facts.restrict(ln, 5, 5)
    data = cat(st, K(a.encode(enc)), K(b'q w e') if S.concrete else Bs([Seg('t', body, ln)]), K(b.encode(enc)))
    back(S, st, schema, Encoder(S, st).tree([(n, data)]), opts)


def options(S, st, opts):
    kw = {}
    for k, v in opts.items():
        if isinstance(v, tuple):
            st, v = one(S.call(st, 'ebmlite.xml_codecs.' + v[0], **{n: K(x) for n, x in v[1].items()}), 'codec')
            kw[k] = v
        else:
            kw[k] = K(v)
    return st, kw


def trip(S, tree, opts, dates=True):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    back(S, st, schema, Encoder(S, st, textlen=None if len(tree) == 1 else 7, dates=dates).tree(tree), opts)


def back(S, st, schema, data, opts):
    st, doc = loaded(S, st, schema, data)
    st, kw = options(S, st, opts)
    for s, roots in kids_of(S, st, doc, CORE + 'Document.__iter__', TRIP):
        for el in roots:
            S.ip.steps = 0
            for s2, x in S.normal(S.call(s.clone(), TOXML, el, **kw), TRIP, TOXML):
                out = new_stream(S.ip, s2, 'mem', content=K(b''))
                for s3, n in S.normal(S.call(s2, X2E, x, out, schema), TRIP, X2E):
                    again(S, s3, schema, el, s3.get(out).data, opts)


def again(S, st, schema, el, data, opts):
    """ The encoded data holds exactly one element, the same as el. """
    s, doc = loaded(S, st, schema, data)
    for s2, els in kids_of(S, s, doc, X2E, TRIP):
        if len(els) != 1:
            S.violated(s2, TRIP, X2E, '%d elements instead of one' % len(els))
            continue
        same(S, s2, el, els[0], opts)


def same(S, st, a, b, opts):
    """ Two parsed elements have the same ID and value, recursively. """
    ida, idb, name = attr(S.ip, st, a, 'id'), attr(S.ip, st, b, 'id'), attr(S.ip, st, a, 'name')
    what = name.v if type(name) is K else '?'
    S.eq(st, idb, ida, TRIP, X2E, '%s: ID' % what)
    isinst = one(S.call(st.clone(), Ext('builtins.isinstance'), a, S.ip.resolve(st, CORE + 'MasterElement')), 'isinstance')[1]
    if isinst == TRUE:
        for s, ka in kids_of(S, st, a, X2E, TRIP):
            for s2, kb in kids_of(S, s, b, X2E, TRIP):
                if len(ka) != len(kb):
                    S.violated(s2, TRIP, X2E, '%s: %d children instead of %d' % (what, len(kb), len(ka)))
                    continue
                for x, y in zip(ka, kb):
                    same(S, s2.clone(), x, y, opts)
        return
    if opts.get('binary_codec') == 'ignore' and one(S.call(st.clone(), Ext('builtins.isinstance'), a, S.ip.resolve(
            st, CORE + 'BinaryElement')), 'isinstance')[1] == TRUE:
        return
    for s, va in S.normal(S.get(st.clone(), a, 'value'), TRIP, X2E):
        for s2, vb in S.normal(S.get(s, b, 'value'), TRIP, X2E):
            S.eq(s2, vb, va, TRIP, X2E, '%s: value' % what)


# a date as the first 808 nanoseconds of the range round to before it
def first_dates(S):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    low = Sym('low', 'int')
    st.facts.restrict(low, 0, 807)
    st, doc = loaded(S, st, schema, cat(st, K(b'\x87\x88\x80\0\0\0\0\0'), Bs([Seg('ube', low, 2)])))
    name = 'the first representable dates convert to XML and back'
    for s, roots in kids_of(S, st, doc, CORE + 'Document.__iter__', TRIP):
        for s2, x in S.normal(S.call(s.clone(), TOXML, roots[0]), TRIP, TOXML):
            out = new_stream(S.ip, s2, 'mem', content=K(b''))
            S.normal_all(S.call(s2, X2E, x, out, schema), name, X2E)


def plain(S, n):
    """ The value attribute is the text of the value, unescaped. """
    st, schema = S.w.with_schema(peel=40, recursion=16)
    st, doc = loaded(S, st, schema, Encoder(S, st).tree([n]))
    for s, roots in kids_of(S, st, doc, CORE + 'Document.__iter__', PLAIN):
        for s2, v in S.normal(S.get(s, roots[0], 'value'), PLAIN, TOXML):
            for s3, want in S.normal(S.call(s2, Ext('builtins.str'), v), PLAIN, TOXML):
                for s4, x in S.normal(S.call(s3, TOXML, roots[0]), PLAIN, TOXML):
                    a = xattrs(s4, x)
                    if a is None:
                        S.undecided(s4, PLAIN, TOXML, 'attributes not determined')
                    elif 'value' not in a:
                        S.violated(s4, PLAIN, TOXML, '%s has no value attribute' % n)
                    else:
                        S.eq(s4, a['value'], want, PLAIN, TOXML, '%s: value attribute' % n)


# ------------------------------------------------------------ hand-written
HANDS = ('U', 'I', 'F', 'S', 'T', 'D', 'U const', 'U hex', 'I const', 'F int', 'F inf', 'F -inf', 'D T', 'D day', 'S const',
         'T const', 'T markup', 'Lazy')


def hand(S, st, n):
    """ (tag, text of the value, value). """
    import datetime
    if ' ' in n or n == 'F int':
        tag = n.split()[0]
        epoch = datetime.datetime(2001, 1, 1)
        dt = datetime.datetime(2020, 2, 29, 12, 34, 56, 789012)
        text, v = {'U const': ('300', 300), 'U hex': ('0x12C', 300), 'I const': ('-5', -5), 'F int': ('12', 12.0),
                   'F inf': ('inf', float('inf')), 'F -inf': ('-inf', -float('inf')),
                   'D T': ('2020-02-29T12:34:56.789012', dt), 'D day': ('2020-02-29', datetime.datetime(2020, 2, 29)),
                   'S const': ('a &lt; b', 'a &lt; b'), 'T const': ('h\xe9llo', 'h\xe9llo'),
                   'T markup': ('<&>"&amp;\u20ac', '<&>"&amp;\u20ac')}[n]
        if isinstance(v, datetime.datetime):
            d = v - epoch
            return tag, K(text), Desc('dt', K((d.days * 86400 + d.seconds) * 1000000 + d.microseconds))
        return tag, K(text), K(v)
    from .enclib import values
    v = values(S, st)['U' if n == 'Lazy' else n]
    s, t = one(S.call(st, Ext('builtins.str'), v), 'text')
    return n, t, v


def by_hand(S, n, size):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    tag, text, v = hand(S, st, n)
    if size is not None and n not in ('S', 'T'):
        size = 8
    attrs = [('value', text)] + ([('size', str(size))] if size else [])
    if n in ('S', 'T') and size is not None:
        # long enough for the text
        body = Op('encodestr', (v, K('ascii' if n == 'S' else 'utf-8')), 'bytes')
        for b in (mklen(v), mklen(body)):
            st.facts.restrict(b, 1, size)
    convert(S, st, schema, tag, attrs, NONE, None, v)


def convert(S, st, schema, tag, attrs, text, eid, v):
    x = new_xml(S.ip, st, tag, attrs, text)
    out = new_stream(S.ip, st, 'mem', content=K(b''))
    for s, n in S.normal(S.call(st, X2E, x, out, schema), HAND, X2E):
        s1, doc = loaded(S, s, schema, s.get(out).data)
        for s2, els in kids_of(S, s1, doc, X2E, HAND):
            if len(els) != 1:
                S.violated(s2, HAND, X2E, '%s: %d elements instead of one' % (tag, len(els)))
                continue
            S.eq(s2, attr(S.ip, s2.clone(), els[0], 'id'), K(eid if eid is not None else IDS[tag]), HAND, X2E, '%s: ID' % tag)
            for s3, got in S.normal(S.get(s2, els[0], 'value'), HAND, X2E):
                S.eq(s3, got, v, HAND if text == NONE else CODEC, X2E, '%s: value' % tag)


def by_codec(S, tag, enc):
    import base64
    for data in (b'', b'\0', b'hello world', bytes(range(60, 160)), None):
        st, schema = S.w.with_schema(peel=40, recursion=16)
        eid = 0x4FFE if tag == 'Unheard' else None
        attrs = ([('id', '0x4FFE')] if eid else []) + ([('encoding', enc)] if enc else [])
        if data is None:
            # arbitrary data, as the codec itself renders it
            v = mkbs([Seg('rd', K('data'), ZERO, K(6))]) if not S.concrete else K(b'abcdef')
            name = {'hex': 'HexCodec'}.get(enc, 'Base64Codec')
            st, codec = one(S.call(st, 'ebmlite.xml_codecs.' + name), 'codec')
            st, text = one(S.method(st, codec, 'encode', v), 'text')
            convert(S, st, schema, tag, attrs, text, eid, v)
            continue
        b64 = base64.b64encode(data).decode()
        texts = [data.hex(), '\n  ' + data.hex(' ') + '\n', '[000012] ' + data.hex(' ', 2).upper()] if enc == 'hex' else \
            [b64, '\n' + base64.encodebytes(data).decode(), '  ' + b64[:4] + '\n\t' + b64[4:] + '  ']
        for t in texts:
            convert(S, st.clone(), schema, tag, attrs, K(t), eid, K(data))


def unknown_ids(S):
    for text, eid in (('0x9F', 0x9F), ('0x9f', 0x9F), ('9F', 0x9F), ('0X4FFF', 0x4FFF), ('4fff', 0x4FFF),
                      ('0x1F43B6FF', 0x1F43B6FF), ('203FFE', 0x203FFE)):
        for tag in ('UnknownElement', 'Unheard', 'FooElement'):
            st, schema = S.w.with_schema(peel=40, recursion=16)
            convert(S, st, schema, tag, [('id', text)], K('aGVsbG8='), eid, K(b'hello'))


def no_id(S):
    for tag in ('UnknownElement', 'Unheard'):
        st, schema = S.w.with_schema(peel=40, recursion=16)
        x = new_xml(S.ip, st, tag, [('size', '3')], K('aGVsbG8='))
        S.raises(S.call(st, X2E, x, new_stream(S.ip, st, 'mem', content=K(b'')), schema), 'NameError',
                 'an unknown element without an ID is refused', X2E)
