""" Building blocks of the abstract scenarios: a loaded program, abstract
    schemata, abstract files, and projections of abstract objects.

    Nothing of the analysed program is executed: the functions here create
    abstract objects (heap cells and terms) and hand them to the abstract
    interpreter. """

from .interp import Interp, State, Obj, Call, AnalysisError, Budget, ok
from .terms import (K, Sym, Op, Lin, Tup, Ref, Ext, Fn, Bound, Desc, Gen, Seg, Bs, NONE, TRUE, FALSE, ZERO, ONE,
                    add, sub, scale, mkbs, mklen, bytes_len, byte_at, compare, INF, segs_of, ube_value, floordiv, modulo)
from .lib_models import new_stream, new_xml
from . import models as M

MODULES = ('ebmlite', 'ebmlite.core', 'ebmlite.decoding', 'ebmlite.encoding', 'ebmlite.util', 'ebmlite.xml_codecs',
           'ebmlite.threaded_file', 'ebmlite.schemata')
TOOLS = ('ebmlite.tools.utils', 'ebmlite.tools.ebml2xml', 'ebmlite.tools.xml2ebml', 'ebmlite.tools.view_ebml',
         'ebmlite.tools.list_schemata')

E = 'ebmlite.core.'


class World:
    """ The analysed program, with its modules' top-level code interpreted. """

    def __init__(self, root='/repo', tools=False, **cfg):
        self.ip = Interp(root)
        self.schemas = {}
        self.ip.cfg.update(cfg)
        self.base = self.ip.load(*(MODULES + (TOOLS if tools else ())))

    def fresh(self, **cfg):
        self.ip.cfg.clear()
        self.ip.cfg['recursion'] = 12
        self.ip.cfg.update(cfg)
        self.ip.steps = 0
        return self.base.clone()

    def with_schema(self, defs=None, **cfg):
        """ A fresh state holding the abstract schema (built once). """
        defs = ABS if defs is None else defs
        st = self.fresh(**cfg)
        key = id(defs)
        if key not in self.schemas:
            self.schemas[key] = make_schema(self, st, defs) + (defs,)
        st, schema, _ = self.schemas[key]
        return st.clone(), schema

    def name(self, st, dotted):
        return self.ip.resolve(st, dotted)


# element definitions of the abstract schema used by most scenarios:
#   (tag, id, name, attributes, children)
def edef(tag, eid, name, children=(), **attrs):
    return (tag, eid, name, attrs, children)


HEADER = edef('MasterElement', 0x1A45DFA3, 'EBML', [
    edef('UIntegerElement', 0x4286, 'EBMLVersion', default='1'),
    edef('UIntegerElement', 0x42F7, 'EBMLReadVersion', default='1'),
    edef('StringElement', 0x4282, 'DocType', default='abs'),
    edef('UIntegerElement', 0x4287, 'DocTypeVersion', default='1'),
    edef('UIntegerElement', 0x4285, 'DocTypeReadVersion', default='1'),
])

GLOBALS = [edef('BinaryElement', 0xEC, 'Void', **{'global': 'true', 'multiple': 'true'}),
           edef('BinaryElement', 0xBF, 'Crc', **{'global': '1'})]

BODY = edef('MasterElement', 0x81, 'Seg', [
    edef('UIntegerElement', 0x82, 'U', multiple='1'),
    edef('IntegerElement', 0x83, 'I', multiple='true'),
    edef('FloatElement', 0x84, 'F'),
    edef('StringElement', 0x85, 'S'),
    edef('UnicodeElement', 0x86, 'T'),
    edef('DateElement', 0x87, 'D'),
    edef('BinaryElement', 0x88, 'B', multiple='1'),
    edef('BinaryElement', 0x8A, 'P', precache='1'),
    edef('MasterElement', 0x89, 'Sub', [
        edef('UIntegerElement', 0x82, 'U', multiple='1'),
        edef('StringElement', 0x85, 'S'),
        edef('MasterElement', 0x8B, 'Deep', [edef('UIntegerElement', 0x82, 'U', multiple='1'),
                                            edef('UIntegerElement', 0x8D, 'Lazy', precache='0')]),
    ], multiple='1'),
    edef('MasterElement', 0x8C, 'Eager', [edef('UIntegerElement', 0x82, 'U', multiple='1')], precache='1'),
], multiple='1')

ABS = [HEADER] + GLOBALS + [BODY]
KINDS = {'U': 0x82, 'I': 0x83, 'F': 0x84, 'S': 0x85, 'T': 0x86, 'D': 0x87, 'B': 0x88, 'P': 0x8A, 'Void': 0xEC}


def schema_xml(ip, st, defs, tag='Schema'):
    def conv(d):
        t, eid, name, attrs, kids = d
        a = []
        if name is not None:
            a.append((K('name'), K(name)))
        if eid is not None:
            a.append((K('id'), K('0x%X' % eid) if isinstance(eid, int) else eid))
        for k, v in attrs.items():
            a.append((K(k), v if not isinstance(v, (str, int)) else K(v)))
        return new_xml(ip, st, K(t), tuple(a), K('doc'), tuple(conv(k) for k in kids))
    return new_xml(ip, st, K(tag), (), NONE, tuple(conv(d) for d in defs))


def one(outs, what):
    """ The single normal outcome of a setup step. """
    good = [o for o in outs if o[1] == 'v']
    if len(good) != 1 or len(outs) != 1:
        raise AnalysisError('%s: expected one normal outcome, got %s' % (what, [o[1:] for o in outs][:6]))
    return good[0][0], good[0][2]


def make_schema(w, st, defs=ABS, name='abs', strict=True):
    """ An abstract schema, built by interpreting parseSchema itself. """
    ip = w.ip
    root = schema_xml(ip, st, defs)
    prev = ip.cfg.get('xmlparse')
    ip.cfg['xmlparse'] = lambda ip_, s, src: root
    src = Sym('schema_xml_text', 'str')
    outs = ip.call(st, ip.resolve(st, E + 'parseSchema'), Call([src], {'name': K(name)}))
    if prev is None:
        ip.cfg.pop('xmlparse', None)
    else:
        ip.cfg['xmlparse'] = prev
    if strict:
        return one(outs, 'parseSchema')
    return outs


def attr(ip, st, o, name):
    """ An attribute as a single value, or None. """
    outs = ip.getattr_(st, o, name)
    good = [x for x in outs if x[1] == 'v']
    if len(outs) == 1 and good:
        return good[0][2]
    return None


def show(ip, outs, limit=12, events=False):
    """ Debugging aid: print outcomes. """
    for s, sig, v in outs[:limit]:
        print('--', sig, v, (ip.class_name(s, ip.type_of(s, v)), s.get(v).attrs, s.get(v).info) if sig == 'raise' else '')
        for p in s.path_list():
            print('      path', p)
        if events:
            for e in s.event_list():
                print('      ev', e)
        if s.unsure:
            print('      doubts', s.unsure)


class File:
    """ An abstract EBML file: element headers at given (symbolic) positions
        have known ID bytes and partly known size bytes, everything else is
        unconstrained contents. """

    def __init__(self, w, st, src='f', start=ZERO, concrete=False):
        self.concrete = concrete
        self.w, self.src, self.start, self.pos = w, K(src) if isinstance(src, str) else src, start, start
        self.bytes = {}
        self.elements = []
        self.st = st
        self.n = 0

    def provider(self, st, src, pos):
        b = self.bytes.get(pos)
        if b is None and self.concrete:
            return None
        if b is None:
            for k, v in self.bytes.items():
                if st.facts.interval(sub(k, pos)) == (0, 0):
                    return v
        return b

    def put(self, b):
        self.bytes[self.pos] = b
        self.pos = add(self.pos, ONE)

    def header(self, eid, sizelen=1, size=None, unknown=False):
        """ Lay out a header at the current position: (offset, size, payload offset). """
        st = self.st
        off = self.pos
        if isinstance(eid, int):
            n = (eid.bit_length() + 7) // 8
            for i in range(n):
                self.put((eid >> (8 * (n - 1 - i))) & 255)
        else:
            for b in eid:
                self.put(b)
        self.n += 1
        if size is None and self.concrete and not unknown:
            size = 3 + self.n * 5 % 11
        if unknown:
            self.put((1 << (9 - sizelen)) - 1)
            for _ in range(sizelen - 1):
                self.put(255)
            return off, None, self.pos
        if size is None or not isinstance(size, int):
            sz = Sym('%s.sz%d' % (self.src.v if type(self.src) is K else 's', self.n), 'int')
            st.facts.restrict(sz, 0, (1 << (7 * sizelen)) - 2)
            self.size_bytes(sz, sizelen)
        else:
            v = size | (1 << (7 * sizelen))
            for i in range(sizelen):
                self.put((v >> (8 * (sizelen - 1 - i))) & 255)
            sz = K(size)
        return off, sz, self.pos

    def size_bytes(self, sz, sizelen):
        """ A size descriptor: the base-256 digits of marker plus size. """
        v = add(sz, K(1 << (7 * sizelen)))
        for i in range(sizelen):
            d = floordiv(self.st.facts, v, 256 ** (sizelen - 1 - i))
            b = modulo(self.st.facts, d, 256) if i else d
            self.put(b.v if type(b) is K else b)

    def leaf(self, eid, sizelen=1, size=None):
        off, sz, pay = self.header(eid, sizelen, size)
        self.pos = add(pay, sz)
        if self.concrete:
            for i in range(sz.v):
                self.bytes[add(pay, K(i))] = 33 + (self.n * 29 + i * 7) % 90
        e = {'id': eid, 'offset': off, 'size': sz, 'payload': pay, 'end': self.pos, 'children': []}
        self.elements.append(e)
        return e

    def data(self, eid, content, sizelen=1):
        """ A leaf with known contents. """
        off, sz, pay = self.header(eid, sizelen, len(content))
        for b in content:
            self.put(b)
        e = {'id': eid, 'offset': off, 'size': sz, 'payload': pay, 'end': self.pos, 'children': []}
        self.elements.append(e)
        return e

    def master(self, eid, body, sizelen=1):
        """ A known-size master whose size is exactly its children's. """
        off = self.pos
        n = (eid.bit_length() + 7) // 8
        for i in range(n):
            self.put((eid >> (8 * (n - 1 - i))) & 255)
        szpos = self.pos
        self.pos = add(self.pos, K(sizelen))
        pay = self.pos
        mine = self.elements
        self.elements = kids = []
        body(self)
        self.elements = mine
        sz = sub(self.pos, pay)
        if not self.st.facts.restrict(sz, 0, (1 << (7 * sizelen)) - 2):
            raise AnalysisError('layout: children do not fit a %d-byte size' % sizelen)
        end, self.pos = self.pos, szpos
        self.size_bytes(sz, sizelen)
        self.pos = end
        e = {'id': eid, 'offset': off, 'size': sz, 'payload': pay, 'end': self.pos, 'children': kids}
        self.elements.append(e)
        return e

    def open_master(self, eid, body, sizelen=1):
        """ A master of unknown size. """
        off, _, pay = self.header(eid, sizelen, unknown=True)
        mine = self.elements
        self.elements = kids = []
        body(self)
        self.elements = mine
        e = {'id': eid, 'offset': off, 'size': sub(self.pos, pay), 'payload': pay, 'end': self.pos, 'children': kids,
             'open': True}
        self.elements.append(e)
        return e

    def all(self, els=None):
        for e in (self.elements if els is None else els):
            yield e
            yield from self.all(e['children'])

    end = None

    def end_here(self):
        """ The file ends at the current position. """
        self.end = self.pos
        for e in reversed(list(self.all())):
            self.st.facts.restrict(sub(self.end, e['end']), lo=0)

    def stream(self, st=None, cls='io.BufferedReader', **info):
        info.setdefault('eof', 'any')
        if self.end is not None:
            info.setdefault('end', self.end)
        return new_stream(self.w.ip, st or self.st, 'src', cls, src=self.src, pos=self.start, bytes=self.provider, **info)
