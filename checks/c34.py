""" C34: equality of elements, documents and schemata. """

from absint.scen import make_schema
from .doclib import *

RULE = ('Abstract interpretation of ==, != and the reverse on pairs of elements of every class, made by the interpreted '
        'constructors with symbolic offsets: alike in everything, or different in exactly one of type, ID, offset, size, schema, '
        'contents (and the position of the payload, the stream, what is cached, which must not matter); of unknown elements '
        'likewise; of documents loaded from equal and different data; of schemata with equal definitions and with one '
        'difference; and with objects that are no elements. Each result must be the one documented, on every path, in both '
        'directions, with != its negation.')
LEVEL = 'other'

SAME = 'elements alike in type, ID, offset, size and schema (and value, of numbers, dates and text) are equal'
DIFF = 'elements that differ in any of them are not equal'
UNK = 'unknown elements are equal exactly if their IDs and values are'
OTHER = 'what is no element equals none'
DOCS = 'documents are equal exactly if their sizes, offsets and schemata are'
SCHEMA = 'schemata are equal exactly if the attributes of their elements are'
NEG = '!= is the negation of =='

# two classes of every type, and different contents of the same length
DEFS = [HEADER] + GLOBALS + [edef('MasterElement', 0x81, 'M', [
    edef('UIntegerElement', 0x82, 'U'), edef('UIntegerElement', 0x92, 'U2', precache='0'),
    edef('IntegerElement', 0x83, 'I'), edef('IntegerElement', 0x93, 'I2', precache='0'),
    edef('FloatElement', 0x84, 'F'), edef('FloatElement', 0x94, 'F2', precache='0'),
    edef('StringElement', 0x85, 'S'), edef('StringElement', 0x95, 'S2', precache='1'),
    edef('UnicodeElement', 0x86, 'T'), edef('UnicodeElement', 0x96, 'T2', precache='1'),
    edef('DateElement', 0x87, 'D'), edef('DateElement', 0x97, 'D2', precache='0'),
    edef('BinaryElement', 0x88, 'B'), edef('BinaryElement', 0x98, 'B2', precache='1'),
]), edef('MasterElement', 0x91, 'M2')]
VALUED = {'U': (b'\1\2', b'\1\3'), 'I': (b'\xfe\2', b'\xfe\3'), 'F': (b'\x3f\x80\0\0', b'\xbf\x80\0\0'), 'S': (b'abc', b'abd'),
          'T': (b'a\xc3\xa9', b'a\xc3\xa8'), 'D': (b'\0' * 7 + b'\0', b'\0' * 6 + b'\x20\0')}
# further pairs of contents that are close, or look alike in some way
CLOSE = {'U': [(b'\x80' + b'\0' * 7, b'\x80' + b'\0' * 6 + b'\1'), (b'\xff' * 8, b'\xff' * 7 + b'\xfe'), (b'\0', b'\1'), (b'\1\0', b'\0\1')],
         'I': [(b'\x7f' + b'\xff' * 7, b'\x7f' + b'\xff' * 6 + b'\xfe'), (b'\1', b'\xff'), (b'\0', b'\xff'), (b'\x80' + b'\0' * 7, b'\x80' + b'\0' * 6 + b'\1')],
         'F': [(b'\x3f\x80\0\0', b'\x3f\x80\0\1'), (b'\0\0\0\0', b'\0\0\0\1'), (b'\0' * 7 + b'\1', b'\0' * 7 + b'\2'), (b'\x3f\xf0' + b'\0' * 6, b'\x3f\xf0' + b'\0' * 5 + b'\1'),
               (b'\x7f\x80\0\0', b'\xff\x80\0\0'), (b'\x7f\x7f\xff\xff', b'\x7f\x7f\xff\xfe')],
         'S': [(b'abc', b'ABC'), (b'ab ', b'ab\t'), (b' ab', b'ab '), (b'10', b'1e'), (b'a', b'b')],
         'T': [(b'abc', b'abC'), (b'ab ', b'ab\n'), (b'\xc3\xa9', b'ee'), (b'e\xcc\x81', b'\xc3\xa9 '), (b'\xef\xac\x81', b'fi ')],
         'D': [(b'\0' * 6 + b'\x03\xe8', b'\0' * 6 + b'\x07\xd0'), (b'\x0d\xe0\xb6\xb3\xa7\x64\0\0', b'\x0d\xe0\xb6\xb3\xa7\x64\x27\x10'),
               (b'\x40' + b'\0' * 7, b'\x40' + b'\0' * 5 + b'\x10\0')]}
PLAIN = {'B': (b'abc', b'abd'), 'M': (b'\x82\x81\x05', b'\x82\x81\x06'), 'Void': (b'\0\0', b'\0\1')}
PAIRS = {'Void': 'Crc'}
KIND = dict(VALUED, **PLAIN)
EQ = 'ebmlite.core.%s.__eq__'
OWNER = {'U': 'IntegerElement', 'I': 'IntegerElement', 'D': 'IntegerElement', 'F': 'FloatElement', 'S': 'StringElement', 'T': 'StringElement'}


def run(C):
    for k in KIND:
        for what in ('nothing', 'itself', 'payload', 'cached left', 'cached right', 'cached both', 'contents', 'equal schema'):
            C.scenario('%s: %s' % (k, what), alike, k, what)
        for what in ('offset', 'size', 'ID', 'schema', 'type') + (('unknown',) if k not in ('B', 'Void') else ()):
            C.scenario('%s: %s' % (k, what), unlike, k, what)
        for i in range(len(CLOSE.get(k, ()))):
            for cached in (False, True):
                C.scenario('%s: close contents %d%s' % (k, i, ', cached' if cached else ''), close, k, *CLOSE[k][i], cached)
        C.scenario('%s: no element' % k, foreign, k)
    for what in ('nothing', 'itself', 'offset', 'payload', 'schema', 'cached left', 'cached right', 'ID', 'contents', 'size'):
        C.scenario('unknown: %s' % what, unknown, what)
    C.scenario('unknown: no element', foreign, None)
    for what in ('nothing', 'itself', 'name', 'headers', 'contents', 'size', 'offset', 'schema', 'element'):
        C.scenario('documents: %s' % what, documents, what)
    for what in ('nothing', 'itself', 'name', 'attribute', 'new attribute', 'ID', 'less', 'more', 'order', 'text', 'no schema'):
        C.scenario('schemata: %s' % what, schemata, what)


def stream(S, st, data):
    return new_stream(S.ip, st, 'mem', 'io.BytesIO', content=K(data))


def make(S, st, schema, name, data, offset, payload=0, size=None, cached=False):
    (st, cls), = S.normal(S.method(st, schema, '__getitem__', K(name)), SAME, CORE + 'Schema.__getitem__')
    return built(S, st, cls, data, offset, payload, size, cached)


def built(S, st, cls, data, offset, payload, size, cached, *more):
    src = stream(S, st, b'?' * payload + data)
    (st, e), = S.normal(S.ip.call(st, cls, Call((src, offset, K(len(data) if size is None else size), K(payload)) + more, {})), SAME, CORE + 'Element.__init__')
    if cached:
        (st, _), = S.normal(S.get(st, e, 'value'), SAME, CORE + 'Element.value')
    return st, e


def compared(S, st, a, b, want, rule, where, why):
    for op, x, y in (('Eq', a, b), ('Eq', b, a), ('NotEq', a, b), ('NotEq', b, a)):
        for s, v in S.normal(S.ip.compare_op(st.clone(), op, x, y), rule, where):
            for s1, c in S.ip.branch(s, v):
                S.true(s1, c == (want == (op == 'Eq')) if isinstance(c, bool) else None, rule if op == 'Eq' else NEG, where,
                       '%s, %s is %s' % (why, {'Eq': '==', 'NotEq': '!='}[op], c))


def other_schema(S, st, same):
    defs = list(DEFS) if same else DEFS[:-1]
    return make_schema(S.w, st, defs, name='other')


def where_of(k):
    return EQ % OWNER.get(k, 'Element')


def alike(S, k, what):
    st, schema = S.w.with_schema(DEFS)
    data, diff = KIND[k]
    off = Sym('offset', 'int')
    st, a = make(S, st, schema, k, data, off, cached=what in ('cached left', 'cached both'))
    if what == 'itself':
        return compared(S, st, a, a, True, SAME, where_of(k), 'with itself')
    if what == 'equal schema':
        st, schema = other_schema(S, st, True)
    st, b = make(S, st, schema, k, diff if what == 'contents' else data, off, 3 if what == 'payload' else 0,
                 cached=what in ('cached right', 'cached both'))
    want = not (what == 'contents' and k in VALUED)
    compared(S, st, a, b, want, SAME if want else DIFF, where_of(k), 'with %s different' % what)


def close(S, k, data, diff, cached):
    st, schema = S.w.with_schema(DEFS)
    off = Sym('offset', 'int')
    st, a = make(S, st, schema, k, data, off, cached=cached)
    st, b = make(S, st, schema, k, diff, off, cached=cached)
    st, c = make(S, st, schema, k, data, off, 2)
    compared(S, st, a, b, False, DIFF, where_of(k), 'with contents %r and %r' % (data, diff))
    compared(S, st, a, c, True, SAME, where_of(k), 'with contents %r' % data)


def unlike(S, k, what):
    st, schema = S.w.with_schema(DEFS)
    data = KIND[k][0]
    off = Sym('offset', 'int')
    st, a = make(S, st, schema, k, data, off)
    name, size = k, None
    if what == 'offset':
        more = K(1)
        (st, off), = S.normal(S.ip.binop(st, 'Add', off, more), DIFF, where_of(k))
    elif what == 'size':
        # the same value in fewer or more bytes
        data = {'U': b'\0' + data, 'I': b'\xff' + data, 'F': b'\x3f\xf0' + b'\0' * 6, 'S': data + b'\0', 'T': data + b'\0', 'D': b''}.get(k, data + b'\0')
    elif what == 'ID':
        name = PAIRS.get(k, k + '2')
    elif what == 'schema':
        st, schema = other_schema(S, st, False)
    elif what == 'type':
        name = {'U': 'I', 'I': 'U', 'F': 'B', 'S': 'T', 'T': 'S', 'D': 'U', 'B': 'S', 'M': 'B', 'Void': 'S'}[k]
    elif what == 'unknown':
        eid = attr(S.ip, st, a, 'id')
        cls = S.ip.resolve(st, CORE + 'UnknownElement')
        st, b = built(S, st, cls, data, off, 0, None, False, eid, schema)
        return compared(S, st, a, b, False, DIFF, where_of(k), 'with an unknown element of the same ID')
    st, b = make(S, st, schema, name, data, off, size=size)
    compared(S, st, a, b, False, DIFF, where_of(k), 'with %s different' % what)


def foreign(S, k):
    st, schema = S.w.with_schema(DEFS)
    if k is None:
        st, a = built(S, st, S.ip.resolve(st, CORE + 'UnknownElement'), b'abc', ZERO, 0, None, False, K(0x9F), schema)
    else:
        st, a = make(S, st, schema, k, KIND[k][0], ZERO)
    where = EQ % 'UnknownElement' if k is None else where_of(k)
    (st, v), = S.normal(S.get(st, a, 'value'), OTHER, where)
    cls = S.ip.type_of(st, a)
    for n, x in [('its value', v), ('its class', cls), ('None', NONE), ('0', ZERO), ('a string', K('x')), ('bytes', K(b'abc')),
                 ('its size', attr(S.ip, st, a, 'size')), ('its ID', attr(S.ip, st, a, 'id')), ('a tuple', Tup([ONE])),
                 ('a dictionary', S.ip.alloc(st, Obj('dict', data=()))), ('a list', S.ip.alloc(st, Obj('list', data=()))), ('a schema', schema)]:
        if x is not None:
            compared(S, st, a, x, False, OTHER, where, 'with %s' % n)


def unknown(S, what):
    st, schema = S.w.with_schema(DEFS)
    where = EQ % 'UnknownElement'
    cls = S.ip.resolve(st, CORE + 'UnknownElement')
    st, a = built(S, st, cls, b'abc', Sym('offset', 'int'), 0, None, what == 'cached left', K(0x9F), schema)
    if what == 'itself':
        return compared(S, st, a, a, True, UNK, where, 'with itself')
    if what == 'schema':
        st, schema = other_schema(S, st, False)
    st, b = built(S, st, cls, {'contents': b'abd', 'size': b'abcd'}.get(what, b'abc'), Sym('elsewhere' if what == 'offset' else 'offset', 'int'),
                  3 if what == 'payload' else 0, None, what == 'cached right', K(0x9E if what == 'ID' else 0x9F), schema)
    compared(S, st, a, b, what not in ('ID', 'contents', 'size'), UNK, where, 'with %s different' % what)


DATA = b'\x82\x81\x05\x88\x83abc'


def documents(S, what):
    st, schema = S.w.with_schema(DEFS)
    where = EQ % 'Element'

    def load(st, schema, data, at=0, **kw):
        src = stream(S, st, b'?' * at + data)
        S.ip.mut(st, src).info['pos'] = K(at)
        (st, d), = S.normal(S.method(st, schema, 'load', src, **kw), DOCS, CORE + 'Schema.load')
        return st, d
    st, a = load(st, schema, DATA)
    if what == 'itself':
        return compared(S, st, a, a, True, DOCS, where, 'with itself')
    if what == 'element':
        for s, el in S.normal(S.method(st, a, '__getitem__', ZERO), DOCS, where):
            compared(S, s, a, el, False, DOCS, where, 'with its first element')
        return
    kw = {}
    if what == 'name':
        (st, cls), = S.normal(S.get(st, schema, 'document'), DOCS, where)
        (st, b), = S.normal(S.ip.call(st, cls, Call((stream(S, st, DATA), K('some name')), {})), DOCS, where)
    elif what == 'headers':
        st, b = load(st, schema, DATA, headers=TRUE)
    elif what == 'contents':
        st, b = load(st, schema, DATA[:-1] + b'x')
    elif what == 'size':
        st, b = load(st, schema, DATA + b'\x82\x81\x05')
    elif what == 'offset':
        st, b = load(st, schema, DATA[3:], 3)
    elif what == 'schema':
        st, other = other_schema(S, st, False)
        st, b = load(st, other, DATA)
    else:
        st, b = load(st, schema, DATA)
    compared(S, st, a, b, what not in ('size', 'offset', 'schema'), DOCS, where, 'with %s different' % what)


def schemata(S, what):
    st, a = S.w.with_schema(DEFS)
    where = EQ % 'Schema'
    if what == 'itself':
        return compared(S, st, a, a, True, SCHEMA, where, 'with itself')
    if what == 'no schema':
        st, e = make(S, st, a, 'U', b'\1', ZERO)
        for n, x in (('None', NONE), ('0', ZERO), ('its name', K('abs')), ('an element', e), ('its document class', attr(S.ip, st, a, 'document')),
                     ('its elements', attr(S.ip, st, a, 'elementInfo')), ('a tuple', Tup([]))):
            compared(S, st, a, x, False, OTHER, where, 'with %s' % n)
        return
    extra = []
    changes = {'attribute': edef('MasterElement', 0x91, 'M2', multiple='1'), 'new attribute': edef('MasterElement', 0x91, 'M2', note='x'),
               'ID': edef('MasterElement', 0x99, 'M2'), 'text': edef('MasterElement', 0x91, 'M2')}
    defs = list(DEFS[:-1])
    if what != 'less':
        defs.append(changes.get(what, DEFS[-1]))
    if what == 'more':
        defs.append(edef('UIntegerElement', 0x9A, 'More'))
    if what == 'order':
        defs.reverse()
    st, b = make_schema(S.w, st, defs, name='other')
    compared(S, st, a, b, what in ('nothing', 'name', 'order', 'text'), SCHEMA, where, 'with %s different' % what)
