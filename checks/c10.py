""" C10: every encoded element is framed ID, size of payload, payload. """

from checks.enclib import *

RULE = ('Abstract interpretation of Element.encode and MasterElement.encode of every schema class on symbolic values '
        '(every leaf type; payload lengths partitioned by size-descriptor class; explicit lengths; explicit size '
        'lengths; infinite; lists, tuples, nested dictionaries and name/value lists). The abstract bytes returned are '
        'read apart again: the ID must be the class\'s, the decoded size a linear form equal to the number of bytes '
        'that follow (unknown only for infinite masters), and the rest equal to what the class\'s own payload encoder '
        'gives for the value. Lists must give the concatenation of their items\' encodings with the same options; '
        'lists for non-repeatable elements, infinite leaves and unknown names must raise on every path.')
LEVEL = 'other'
LEAVES = {'U': 0x82, 'I': 0x83, 'F': 0x84, 'S': 0x85, 'T': 0x86, 'D': 0x87, 'B': 0x88, 'P': 0x8A}
EL = CORE + 'Element.encode'
MA = CORE + 'MasterElement.encode'
DOC = CORE + 'Document.encode'


def run(C):
    for n in LEAVES:
        C.scenario('leaf %s' % n, leaf, n, {})
        for k in range(1, 9):
            C.scenario('leaf %s, size length %d' % (n, k), leaf, n, {'lengthSize': k})
        C.scenario('leaf %s, length 8' % n, leaf, n, {'length': 8})
        C.scenario('leaf %s, length 8 and size length 3' % n, leaf, n, {'length': 8, 'lengthSize': 3})
        C.scenario('infinite leaf %s' % n, infinite_leaf, n)
    for k in range(1, 8):
        C.scenario('binary payload of class %d' % k, big, k, None)
        for n in range(1, 9):
            C.scenario('binary payload of class %d in size length %d' % (k, n), big, k, n)
    C.scenario('void', void)
    C.scenario('length defined by the schema', schema_length)
    for n, kw in (('U', {}), ('I', {}), ('B', {}), ('U', {'lengthSize': 4}), ('B', {'length': 120}), ('FixedU', {}),
                  ('U', {'length': 8, 'lengthSize': 2})):
        for kind in ('list', 'tuple'):
            C.scenario('%s of %s values %s' % (kind, n, kw), repeated, n, kw, kind)
    for n in ('F', 'S', 'T', 'D', 'P', 'Eager'):
        for kind in ('list', 'tuple'):
            C.scenario('%s for non-repeatable %s' % (kind, n), not_repeatable, n, kind)
    for kw in ({}, {'lengthSize': 1}, {'lengthSize': 4}, {'lengthSize': 8}, {'infinite': True}, {'infinite': True, 'lengthSize': 4}):
        for shape in ('dict', 'pairs', 'tuple'):
            for body in BODIES:
                C.scenario('master from %s, %s %s' % (shape, body, kw), master, shape, body, kw)
        for shape in ('dicts', 'lists', 'tuple of dicts', 'nones'):
            C.scenario('masters from %s %s' % (shape, kw), masters, shape, kw)
    C.scenario('master from nothing', master_none)
    C.scenario('unknown names', unknown_name)
    C.scenario('master from other types', wrong_type)
    for shape in ('dict', 'pairs', 'list of dicts', 'tuple'):
        for hdr in (False, True):
            for api in ('document', 'encode', 'encodes'):
                C.scenario('document from %s, headers %s, %s' % (shape, hdr, api), document, shape, hdr, api)
    C.scenario('documents from lists of lists', documents)


def start(S):
    st, schema = S.w.with_schema(EDEFS)
    return st, schema, values(S, st)


def leaf(S, n, kw):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, n)
    v = vals[n]
    if n in ('S', 'B', 'P') and kw.get('length'):
        st.facts.restrict(mklen(v), 0, 8)
    name = 'encoding frames the payload'
    for s, sig, p in payload_of(S, st.clone(), cls, v, K(kw['length']) if 'length' in kw else None):
        outs = encode(S, s, cls, v, **kw)
        if sig != 'v':
            S.raises(outs, 'Exception', 'a value whose payload cannot be encoded raises', EL)
            continue
        for s2, r in S.normal(outs, name, EL):
            framed(S, s2, r, LEAVES[n], p, EL, name, kw.get('lengthSize'))


def infinite_leaf(S, n):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, n)
    S.raises(encode(S, st.clone(), cls, vals[n], infinite=True), 'ValueError', 'only masters may have unknown size', EL)
    S.raises(encode(S, st, cls, listref(S, st, [vals[n], vals[n]]), infinite=True), 'ValueError', 'only masters may have unknown size', EL)


def big(S, k, n):
    """ Binary payloads whose size needs k bytes. """
    st, schema = S.w.with_schema(EDEFS)
    b = Sym('big', 'bytes')
    st.facts.restrict(mklen(b), 0 if k == 1 else (1 << (7 * (k - 1))) - 1, (1 << (7 * k)) - 2)
    cls = klass(S, st, schema, 'B')
    outs = encode(S, st, cls, b, **({} if n is None else {'lengthSize': n}))
    if n is not None and n < k:
        S.raises(outs, 'ValueError', 'a payload too big for the given size length raises', EL)
        return
    for s, r in S.normal(outs, 'encoding frames the payload', EL):
        framed(S, s, r, 0x88, b, EL, 'encoding frames the payload', k if n is None else n)


def void(S):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, 'Void')
    n = Sym('n', 'int')
    st.facts.restrict(n, 0, 100)
    for length in (None, K(0), K(5), n):
        kw = {} if length is None else {'length': length}
        for s, p in S.normal(payload_of(S, st.clone(), cls, NONE, length), 'void payload', CORE + 'VoidElement.encodePayload'):
            for s2, r in S.normal(encode(S, s, cls, NONE, **kw), 'encoding frames the payload', EL):
                framed(S, s2, r, 0xEC, p, EL, 'encoding frames the payload')


def schema_length(S):
    st, schema, vals = start(S)
    st.facts.restrict(mklen(vals['B']), 0, 6)
    for n, eid, v, length in (('Fixed', 0x4FE0, vals['B'], 6), ('FixedU', 0x4FE1, vals['U'], 4)):
        cls = klass(S, st, schema, n)
        for kw, want in (({}, length), ({'length': 8}, 8)):
            for s, p in S.normal(payload_of(S, st.clone(), cls, v, K(want)), 'payload', EL):
                for s2, r in S.normal(encode(S, s, cls, v, **kw), 'the schema\'s length is applied', EL):
                    framed(S, s2, r, eid, p, EL, 'the schema\'s length is applied unless one is given')


def items_concat(S, st, cls, items, kw, where, name, outs_of):
    """ outs_of(state) is the concatenation of the items' own encodings. """
    states = [(st, [])]
    for v in items:
        nxt = []
        for s, parts in states:
            for s2, r in S.normal(encode(S, s, cls, v, **kw), name, where):
                nxt.append((s2, parts + [M.deref(s2, r)]))
        states = nxt
    for s, parts in states:
        for s2, r in S.normal(outs_of(s), name, where):
            S.eq(s2, M.deref(s2, r), cat(s2, *parts), name, where, 'encoding')


def repeated(S, n, kw, kind):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, n)
    v = vals[n]
    w = Sym(v.name + '2', v.ty) if type(v) is Sym else v
    if v.ty == 'int':
        st.facts.restrict(w, 0, 127)
    else:
        st.facts.restrict(mklen(w), 0, 100)
    for items in ([], [v], [v, w], [w, v, w]):
        arg = listref(S, st, items) if kind == 'list' else Tup(items)
        items_concat(S, st.clone(), cls, items, kw, EL, 'a list encodes as its items in order with the same options',
                     lambda s: encode(S, s, cls, arg, **kw))


def not_repeatable(S, n, kind):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, n)
    if n == 'Eager':
        v = dictref(S, st, [('U', vals['U'])])
    else:
        v = vals[n]
    for items in ([v], [v, v]):
        arg = listref(S, st, items) if kind == 'list' else Tup(items)
        S.raises(encode(S, st.clone(), cls, arg), 'ValueError', 'several values for a non-repeatable element raise', EL)


def sub_pairs(S, st, vals):
    return [('U', vals['U']), ('S', vals['S'])]


# contents of a master: functions giving (name, value, [expected leaf/master encodings])
def body_empty(S, st, vals):
    return []


def body_one(S, st, vals):
    return [('U', vals['U'])]


def body_all(S, st, vals):
    return [(n, vals[n]) for n in ('I', 'D', 'U', 'S', 'B', 'F')]


def body_text(S, st, vals):
    return [('T', vals['T']), ('P', vals['P'])]


def body_lists(S, st, vals):
    return [('U', listref(S, st, [vals['U'], K(3), vals['U']])), ('B', Tup([vals['B'], K(b'')])), ('I', listref(S, st, []))]


def body_nested(S, st, vals):
    return [('U', vals['U']), ('Sub', dictref(S, st, sub_pairs(S, st, vals))), ('I', vals['I'])]


def body_deep(S, st, vals):
    deep = dictref(S, st, [('U', listref(S, st, [K(1), vals['U']]))])
    a = dictref(S, st, [('Deep', deep), ('U', K(2))])
    b = dictref(S, st, [('U', vals['U'])])
    return [('Sub', listref(S, st, [a, b])), ('Void', NONE)]


BODIES = {'empty': body_empty, 'one': body_one, 'all': body_all, 'text': body_text, 'lists': body_lists,
          'nested': body_nested, 'deep': body_deep}


def shaped(S, st, pairs, shape):
    if shape == 'dict':
        return dictref(S, st, pairs)
    items = [Tup([K(k), v]) for k, v in pairs]
    return listref(S, st, items) if shape == 'pairs' else Tup(items)


def expected(S, st, schema, pairs, where, name):
    """ Concatenated encodings of the pairs: [(state, bytes)]. """
    states = [(st, [])]
    for k, v in pairs:
        nxt = []
        for s, parts in states:
            cls = klass(S, s, schema, k)
            for s2, r in S.normal(encode(S, s, cls, v), name, where):
                nxt.append((s2, parts + [M.deref(s2, r)]))
        states = nxt
    return [(s, cat(s, *parts) if parts else K(b'')) for s, parts in states]


def master(S, shape, body, kw):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, 'Seg')
    pairs = BODIES[body](S, st, vals)
    if shape != 'dict' and not pairs:
        return      # an empty list is a list of no values
    arg = shaped(S, st, pairs, shape)
    name = 'a master is its items\' encodings in order'
    for s, want in expected(S, st, schema, pairs, MA, name):
        outs = encode(S, s, cls, arg, **kw)
        if body not in ('empty', 'one') and kw.get('lengthSize') == 1 and not kw.get('infinite'):
            # may not fit a one-byte size
            outs = [o for o in outs if o[1] == 'v' or S.is_exc(o[0], o[2], 'ValueError') is not True]
        for s2, r in S.normal(outs, name, MA):
            framed(S, s2, r, 0x81, want, MA, name, kw.get('lengthSize'), kw.get('infinite', False))


def masters(S, shape, kw):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, 'Seg')
    bodies = [body_one(S, st, vals), [('U', K(7)), ('B', K(b'xyz'))], []]
    if shape == 'nones':
        items = [NONE, NONE]
    elif shape == 'lists':
        items = [shaped(S, st, b, 'pairs') for b in bodies[:2]]
    else:
        items = [shaped(S, st, b, 'dict') for b in bodies]
    arg = listref(S, st, items) if not shape.startswith('tuple') else Tup(items)
    items_concat(S, st, cls, items, kw, MA, 'a list encodes as its items in order with the same options',
                 lambda s: encode(S, s, cls, arg, **kw))


def master_none(S):
    st, schema, vals = start(S)
    for n, eid in (('Seg', 0x81), ('Eager', 0x8C), ('EBML', 0x1A45DFA3)):
        cls = klass(S, st, schema, n)
        for s, r in S.normal(encode(S, st.clone(), cls, NONE), 'nothing encodes as an empty master', MA):
            framed(S, s, r, eid, K(b''), MA, 'nothing encodes as an empty master')


def unknown_name(S):
    st, schema, vals = start(S)
    for n in ('Seg', 'EBML'):
        cls = klass(S, st, schema, n)
        for shape in ('dict', 'pairs'):
            for pairs in ([('Nope', K(1))], [('U', K(1)), ('Nope', K(1))], [('', K(1)), ('U', K(2))]):
                s = st.clone()
                arg = shaped(S, s, pairs, shape)
                S.raises(encode(S, s, cls, arg), 'TypeError', 'names outside the schema raise', MA)


def wrong_type(S):
    st, schema, vals = start(S)
    cls = klass(S, st, schema, 'Seg')
    for v in (vals['U'], vals['S'], vals['B'], vals['F']):
        S.raises(encode(S, st.clone(), cls, v), 'Exception', 'a master\'s value is a mapping or pairs', MA)


def document(S, shape, hdr, api):
    st, schema, vals = start(S)
    seg = dictref(S, st, body_nested(S, st, vals))
    pairs = [('Seg', seg), ('Crc', vals['Crc'])]
    if shape == 'list of dicts':
        arg = listref(S, st, [dictref(S, st, [p]) for p in pairs])
    elif shape == 'dict':
        arg = dictref(S, st, [('Seg', listref(S, st, [seg, dictref(S, st, [('U', K(1))])])), ('Crc', vals['Crc'])])
        pairs = [('Seg', seg), ('Seg', dictref(S, st, [('U', K(1))])), ('Crc', vals['Crc'])]
    else:
        arg = shaped(S, st, pairs, 'tuple' if shape == 'tuple' else 'pairs')
    name = 'a document is its root elements in order'
    if hdr:
        pairs = [('EBML', dictref(S, st, [('EBMLVersion', K(1)), ('EBMLReadVersion', K(1)), ('DocType', K('abs')),
                                          ('DocTypeVersion', K(1)), ('DocTypeReadVersion', K(1))]))] + pairs
    for s, want in expected(S, st, schema, pairs, DOC, name):
        if api == 'encodes':
            for s2, r in S.normal(S.method(s, schema, 'encodes', arg, headers=K(hdr)), name, DOC):
                S.eq(s2, M.deref(s2, r), want, name, DOC, 'encoding')
            continue
        out = new_stream(S.ip, s, 'mem', content=K(b''))
        obj = schema if api == 'encode' else one(S.get(s, schema, 'document'), 'document class')[1]
        for s2, r in S.normal(S.method(s, obj, 'encode', out, arg, headers=K(hdr)), name, DOC):
            if api == 'encode':
                S.eq(s2, r, out, 'encode returns the stream', CORE + 'Schema.encode', 'result')
            for s3, got in S.normal(S.method(s2, out, 'getvalue'), name, DOC):
                S.eq(s3, M.deref(s3, got), want, name, DOC, 'encoding')


def documents(S):
    st, schema, vals = start(S)
    inner = listref(S, st, [Tup([K('Crc'), vals['Crc']])])
    S.raises(S.method(st, schema, 'encodes', listref(S, st, [inner, inner])), 'TypeError', 'several documents cannot be encoded at once', DOC)
