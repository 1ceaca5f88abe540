""" A catalogue of the library's public operations over abstract operands,
    for the properties that quantify over all of them (C15, C16, C18).

    An operation is a function (env, st) -> outcomes; its operands differ with
    the environment's tag, so that two unrelated uses of one operation can be
    told apart. """

from .xmllib import *
from .enclib import dictref, listref, DEC, ENC

CODEC = 'ebmlite.xml_codecs.'

# the same IDs and names with other types and parents
OTHER_HEADER = edef('MasterElement', 0x1A45DFA3, 'EBML', [
    edef('UIntegerElement', 0x4286, 'EBMLVersion', default='2'),
    edef('StringElement', 0x4282, 'DocType', default='other'),
    edef('UIntegerElement', 0x4287, 'DocTypeVersion', default='3'),
])
OTHER = [OTHER_HEADER, edef('BinaryElement', 0xEC, 'Void', **{'global': 'true'}),
         edef('MasterElement', 0x81, 'Seg', [
             edef('FloatElement', 0x82, 'I', multiple='1'),
             edef('UnicodeElement', 0x83, 'U'),
             edef('BinaryElement', 0x84, 'S'),
             edef('UIntegerElement', 0x85, 'F', length='4'),
             edef('StringElement', 0x88, 'B', precache='1'),
             edef('MasterElement', 0x9F, 'Sub', [edef('IntegerElement', 0x8A, 'T')]),
         ])]

# a header whose elements have no defaults
BARE_HEADER = edef('MasterElement', 0x1A45DFA3, 'EBML', [
    edef('UIntegerElement', 0x4286, 'EBMLVersion'),
    edef('StringElement', 0x4282, 'DocType'),
    edef('UIntegerElement', 0x4287, 'DocTypeVersion'),
    edef('UIntegerElement', 0x4285, 'DocTypeReadVersion', default='x'),
])
BARE = [BARE_HEADER] + GLOBALS + [BODY]

# documents: different layouts, and the same layout with different contents
TREES = {
    'all': [('EBML', ['EBMLVersion', ('DocType', b'abs'), 'Void']),
            ('Seg', ['U', 'I', 'F', 'S', 'D', 'T', 'B', 'P', 'Void', '#9F', 'Crc',
                     ('Sub', ['U', 'S', ('Deep', ['U', 'Lazy'])]), ('Eager', ['U', 'U'])])],
    'other': [('Seg', [('U', b'\x07'), ('B', 3), ('Sub', [('Deep', ['Lazy']), ('U', 1), ('S', b'text')]), ('Void', 1)]),
              ('#9F', 2), ('Seg', []), ('Void', 4)],
}


class Env:
    """ Operands of one use of an operation. """

    def __init__(self, S, schema, tag='a', tree='all', concrete=False):
        self.S, self.ip, self.schema, self.tag, self.concrete = S, S.ip, schema, tag, concrete
        self.layout = tree
        self.args = []          # (name, reference, contents): the caller's, not for output
        self.sources = []       # streams read from
        self.codecs = {}
        self.calls = []

    # ------------------------------------------------------------- operands
    def arg(self, st, name, ref):
        self.args.append((name, ref, digest(st, ref)))
        return ref

    def encoder(self, st):
        e = Tagged(self.S, st, textlen=7)
        e.tag, e.fixed = self.tag, self.concrete
        return e

    def data(self, st, tree=None):
        return M.deref(st, self.encoder(st).tree(TREES[tree or self.layout]))

    def stream(self, st, tree=None, data=None):
        r = new_stream(self.ip, st, 'mem', content=self.data(st, tree) if data is None else data, name=K('f%s.ebml' % self.tag))
        self.sources.append(r)
        return r

    def doc(self, st, **kw):
        kw = dict(kw)
        f = self.ip.getattr_(st, self.schema, 'load')
        stream = self.stream(st)
        self.S.c.paths += 1
        return self.ip.bind(f, lambda s, m: self.ip.call(s, m, Call([stream], kw)))

    def out(self, st, text=False):
        return new_stream(self.ip, st, 'mem', content=K('' if text else b''), text=text, cls='io.StringIO' if text else 'io.BytesIO')

    def list(self, st, name, *items):
        return self.arg(st, name, listref(self.S, st, items))

    def dict(self, st, name, *pairs):
        return self.arg(st, name, dictref(self.S, st, pairs))

    def set(self, st, name, *items):
        return self.arg(st, name, self.ip.alloc(st, Obj('set', data=tuple((x, NONE) for x in items))))

    def buffer(self, st, name, data):
        return self.arg(st, name, self.ip.alloc(st, Obj('bytearray', data=data)))

    def num(self, name, lo=256, hi=60000):
        return self.val(name, 'int', lo, hi)

    def val(self, name, ty, lo=None, hi=None):
        n = sum(map(ord, name + self.tag))
        if self.concrete:
            return {'int': lambda: K(lo + n * 37 % (hi - lo)), 'float': lambda: K(n / 8.0), 'str': lambda: K('%s%s' % (name, self.tag)),
                    'bytes': lambda: K(('%s%s' % (name, self.tag)).encode()), 'dt': lambda: Desc('dt', K(n * 1000003))}[ty]()
        if ty == 'dt':
            return Desc('dt', Sym('us_' + name + self.tag, 'int'))
        return Sym(name + self.tag, ty)

    def facts(self, st):
        """ What is known of the symbolic operands. """
        for n in ('u', 'u2', 'n'):
            st.facts.restrict(Sym(n + self.tag, 'int'), 256, 60000)
        st.facts.restrict(Sym('i' + self.tag, 'int'), -30000, -200)
        st.facts.restrict(Sym('us_d' + self.tag, 'int'), -(1 << 40), 1 << 40)
        x = Sym('x' + self.tag, 'float')
        st.facts.tr[Op('eq', (x, K(0.0)), 'bool')] = False
        for n in ('s', 't'):
            y = Sym(n + self.tag, 'str')
            st.facts.tr[Op('has', (y, K('\0')), 'bool')] = False
            st.facts.tr[Op('printable', (y,), 'bool')] = True
            st.facts.restrict(mklen(y), 1, 100)
            st.facts.restrict(mklen(Op('encodestr', (y, K('utf-8')), 'bytes')), 1, 100)
        st.facts.restrict(mklen(Sym('b' + self.tag, 'bytes')), 1, 100)

    def leaves(self):
        return [('U', self.num('u')), ('I', self.val('i', 'int', -30000, -200)), ('F', self.val('x', 'float')), ('S', self.val('s', 'str')),
                ('T', self.val('t', 'str')), ('D', self.val('d', 'dt')), ('B', self.val('b', 'bytes')), ('P', self.val('b', 'bytes'))]

    def tree(self, st, how):
        """ Nested data to encode: a dict of dicts, a list of pairs, or mixed. """
        pairs = self.leaves()
        deep = [('U', self.num('u2')), ('Lazy', K(3))]
        if how == 'dict':
            sub = self.dict(st, 'nested data', ('S', self.val('s', 'str')), ('U', self.list(st, 'values of one name', self.num('u'), K(1))),
                            ('Deep', self.dict(st, 'nested data', *deep)))
            seg = self.dict(st, 'nested data', *(pairs + [('Sub', self.list(st, 'values of one name', sub, self.dict(st, 'nested data'))), ('Void', K(3))]))
            return self.dict(st, 'data', ('Seg', seg))
        tup = lambda l: [Tup([K(k), v]) for k, v in l]
        sub = self.list(st, 'nested data', *tup([('S', self.val('s', 'str')), ('U', K(1)), ('U', K(2)), ('Deep', self.list(st, 'nested data', *tup(deep)))]))
        seg = self.list(st, 'nested data', *tup(pairs + [('Sub', sub), ('Sub', self.dict(st, 'nested data')), ('B', self.buffer(st, 'nested buffer', K(b'xyz' + self.tag.encode())))]))
        return self.list(st, 'data', *tup([('Seg', seg), ('Seg', self.list(st, 'nested data'))]))

    def xml(self, st, bad=None, root=None):
        """ A tree to encode. """
        leaf = lambda tag, v, **a: new_xml(self.ip, st, tag, [('value', v)] + list(a.items()))
        n = '77' if self.tag == 'a' else '1234'
        kids = [leaf('U', n), leaf('I', '-' + n), leaf('F', '1.5'), leaf('S', 'text ' + self.tag, size='9'), leaf('T', 'unicode ' + self.tag),
                leaf('D', '2020-01-02T03:04:05'), new_xml(self.ip, st, 'B', [], K('aGVsbG8=')),
                new_xml(self.ip, st, 'B', [('encoding', 'hex')], K('0102' if self.tag == 'a' else '0304')),
                new_xml(self.ip, st, 'Void', [('size', '3')], NONE),
                new_xml(self.ip, st, 'Other' + self.tag, [('id', '0x9F' if self.tag == 'a' else '0x4FFF')], K('aGVsbG8=')),
                new_xml(self.ip, st, 'Sub', [('sizeLength', '2')], NONE, [leaf('U', '1'), new_xml(self.ip, st, 'Deep', [('size', '3')], NONE, [leaf('U', '2')])])]
        if bad == 'name':
            kids.append(leaf('Nothing', '1'))
        elif bad == 'value':
            kids.append(leaf('U', 'x'))
        elif bad == 'data':
            kids.append(new_xml(self.ip, st, 'B', [('encoding', 'hex')], K('0g')))
        if self.tag != 'a':
            kids.reverse()
        seg = new_xml(self.ip, st, 'Seg', [], NONE, kids)
        if root == 'document':
            dname = attr(self.ip, st, attr(self.ip, st, self.schema, 'document'), '__name__')
            seg = new_xml(self.ip, st, dname, [('source', 'x')], NONE, [seg])
        return self.arg(st, 'XML tree', seg)

    def codec(self, st, cls, **kw):
        key = (cls, tuple(sorted(kw.items())))
        if key in self.codecs:
            return self.codecs[key]
        return one(self.ip.call(st, self.codec_class(st, cls), Call((), {k: K(v) for k, v in kw.items()})), 'codec')[1]

    def codec_class(self, st, cls):
        """ A codec class by name, or ('Custom', base name) for a subclass that is not registered. """
        if type(cls) is not tuple:
            return self.ip.resolve(st, CODEC + cls)
        return self.ip.make_class(st, cls[0], [self.ip.resolve(st, CODEC + cls[1])], {'NAME': K('custom %s' % cls[1].lower())}, 'custom')

    # ----------------------------------------------------------- sequencing
    def then(self, outs, f):
        return self.ip.bind(outs, f)

    def quiet(self, outs):
        """ Continue after failures too (the failed step's result is None). """
        return [(s, 'v', v if sig == 'v' else NONE) for s, sig, v in outs]

    def elements(self, outs):
        """ All elements of a document, depth first, as a Python list. """
        res = []
        for s, sig, doc in outs:
            if sig != 'v':
                res.append((s, sig, doc))
                continue
            res += self.S.call(s, UTIL + 'flatiter', doc)
        return self.then(res, lambda s, it: self.S.listof(s, it))

    def each(self, outs, f):
        """ Apply f(s, element) to every element found by flatiter(). """
        def step(s, lst):
            its = self.S.items(s, lst)
            if its is None:
                raise AnalysisError('elements not determined')
            done = [(s, 'v', Tup([]))]
            for el in its:
                done = self.then(done, lambda s2, acc, el=el: self.then(f(s2, el), lambda s3, v: [(s3, 'v', Tup(list(acc.items) + [v]))]))
            return done
        return self.then(self.elements(outs), step)


class Tagged(Encoder):
    """ Contents that differ with the tag. """
    tag, fixed = 'a', False

    def some(self, name, n):
        if isinstance(n, bytes):
            return K(n)
        if self.fixed:
            self.n += 1
            if name in ('S', 'T'):
                return K(('text%d%s' % (self.n, self.tag)).encode())
            n = SIZES.get(name, 4) if n is None else n
            return K(bytes(17 + (self.n * 31 + i * 13 + sum(map(ord, self.tag)) * 7) % 100 for i in range(n)))
        if name in ('S', 'T') and n is None:
            n = 7
            self.n += 1
            x = Sym('text%d%s' % (self.n, self.tag), 'str')
            self.st.facts.tr[Op('has', (x, K('\0')), 'bool')] = False
            self.st.facts.tr[Op('printable', (x,), 'bool')] = True
            body = Op('encodestr', (x, K('ascii' if name == 'S' else 'utf-8')), 'bytes')
            ln = mklen(x) if name == 'S' else mklen(body)
            self.st.facts.restrict(ln, 7, 7)
            return Bs([Seg('t', body, ln)])
        self.n += 1
        n = SIZES.get(name, 4) if n is None else n
        src = K('payload%d%s' % (self.n, self.tag))
        if name in ('U', 'I', 'Lazy') and n > 1:
            return mkbs([Seg('lit', b'\x01'), Seg('rd', src, ZERO, K(n - 1))])
        if name == 'D':
            self.st.facts.restrict(byte_at(src, ZERO), 0, 127)
        return mkbs([Seg('rd', src, ZERO, K(n))])


OPS = {}


def op(name, group):
    def deco(f):
        OPS[name] = (group, f)
        return f
    return deco


def ops(*groups):
    return [(n, f) for n, (g, f) in OPS.items() if not groups or g in groups]


# ---------------------------------------------------------------- reading
READ = 'reading'


@op('load', READ)
def load(env, st):
    return env.doc(st)


@op('load, with and without headers', READ)
def load_headers(env, st):
    return env.then(env.doc(st, headers=TRUE), lambda s, d: env.then(
        env.S.listof(s, d), lambda s2, l: env.then(env.doc(s2, headers=FALSE), lambda s3, d2: env.S.listof(s3, d2))))


@op('load under a name', READ)
def load_name(env, st):
    return env.then(env.doc(st, name=K('name' + env.tag)), lambda s, d: env.S.get(s, d, 'name'))


@op('schema call', READ)
def schema_call(env, st):
    return env.then(env.S.call(st, env.schema, env.stream(st)), lambda s, d: env.S.listof(s, d))


@op('loads', READ)
def loads(env, st):
    return env.then(env.S.method(st, env.schema, 'loads', env.data(st)), lambda s, d: env.S.listof(s, d))


@op('loads of a buffer', READ)
def loads_buffer(env, st):
    b = env.buffer(st, 'data', env.data(st))
    return env.then(env.S.method(st, env.schema, 'loads', b), lambda s, d: env.each([(s, 'v', d)], lambda s2, e: env.S.get(s2, e, 'value')))


@op('iteration', READ)
def iteration(env, st):
    return env.then(env.doc(st), lambda s, d: env.S.listof(s, d))


@op('all elements', READ)
def all_elements(env, st):
    return env.elements(env.doc(st))


@op('all elements to a depth', READ)
def to_depth(env, st):
    return env.then(env.doc(st), lambda s, d: env.then(env.S.call(s, UTIL + 'flatiter', d, depth=K(2)), lambda s2, i: env.S.listof(s2, i)))


def element_op(name, f, whole=True):
    @op(name, READ)
    def run(env, st):
        return env.then(env.each(env.doc(st), lambda s, e: f(env, s, e)),
                        lambda s, v: env.doc(s) if not whole else [(s, 'v', v)])


for _n in ('value', 'id', 'name', 'size', 'dtype'):
    element_op('element %s' % _n, lambda env, s, e, n=_n: env.S.get(s, e, n))
for _n in ('getRaw', 'getRawValue', 'dump', 'gc'):
    element_op('element %s()' % _n, lambda env, s, e, n=_n: env.S.method(s, e, n))
element_op('element gc(recurse)', lambda env, s, e: env.then(env.S.get(s, e, 'value'), lambda s2, v: env.S.method(s2, e, 'gc', recurse=TRUE)))
element_op('value, gc, value', lambda env, s, e: env.then(env.S.get(s, e, 'value'), lambda s2, v: env.then(
    env.S.method(s2, e, 'gc'), lambda s3, n: env.S.get(s3, e, 'value'))))
element_op('element repr', lambda env, s, e: env.S.call(s, Ext('builtins.repr'), e))
element_op('element ==', lambda env, s, e: env.S.method(s, e, '__eq__', e))
element_op('element == value', lambda env, s, e: env.then(env.S.get(s, e, 'value'), lambda s2, v: env.S.method(s2, e, '__eq__', v)))


@op('master len, [i]', READ)
def masters(env, st):
    def seg(s, d):
        return env.then(env.S.method(s, d, '__getitem__', K(0 if env.tag != 'a' else 1)), lambda s2, m: env.then(
            env.S.call(s2, Ext('builtins.len'), m), lambda s3, n: env.then(
                env.S.method(s3, m, '__getitem__', K(1)), lambda s4, a: env.then(
                    env.S.method(s4, m, '__getitem__', Desc('slice', ZERO, K(2), NONE)) if False else [(s4, 'v', a)],
                    lambda s5, b: env.S.get(s5, a, 'value')))))
    return env.then(env.doc(st, headers=TRUE), seg)


for _n in ('value', 'version', 'type', 'info', 'size', 'name', 'filename'):
    OPS['document %s' % _n] = (READ, lambda env, st, n=_n: env.then(env.doc(st), lambda s, d: env.S.get(s, d, n)))
for _n in ('version', 'type', 'document', 'elements', 'name'):
    OPS['schema %s' % _n] = (READ, lambda env, st, n=_n: env.S.get(st, env.schema, n))
for _n in ('dump', 'gc', 'getRaw', 'getRawValue', '__repr__', '__enter__', 'close', '__len__'):
    OPS['document %s()' % _n] = (READ, lambda env, st, n=_n: env.then(env.doc(st), lambda s, d: env.S.method(s, d, n)))


@op('document gc(recurse)', READ)
def doc_gc(env, st):
    return env.then(env.doc(st), lambda s, d: env.then(env.elements([(s, 'v', d)]), lambda s2, l: env.then(
        env.S.method(s2, d, 'gc', recurse=TRUE), lambda s3, n: env.S.listof(s3, d))))


@op('document context', READ)
def doc_with(env, st):
    return env.then(env.doc(st), lambda s, d: env.then(env.S.method(s, d, '__enter__'), lambda s2, v: env.S.method(s2, d, '__exit__', NONE, NONE, NONE)))


def cut(env, st, n):
    d = env.data(st, 'other')
    return K(d.v[:n]) if type(d) is K else env.S.ip.m.bytes_slice(env.ip, st, d, ZERO, K(n)) if hasattr(env.S.ip.m, 'bytes_slice') else None


BROKEN = {
    'cut in a header': bytes([0x81, 0x8A, 0x82, 0x82, 1, 2, 0x42]),
    'cut in a value': bytes([0x81, 0x8A, 0x82, 0x82, 1, 2, 0x87, 0x88, 1, 2]),
    'invalid ID': bytes([0x81, 0x85, 0x82, 0x81, 1, 0x00, 0x81]),
    'invalid size': bytes([0x81, 0x85, 0x82, 0x81, 1, 0x82, 0x00]),
    'wrong number size': bytes([0x81, 0x85, 0x84, 0x83, 1, 2, 3]),
    'undecodable text': bytes([0x81, 0x84, 0x86, 0x82, 0xC3, 0x28]),
    'non-ASCII string': bytes([0x81, 0x84, 0x85, 0x82, 0xC3, 0x28]),
    'empty values': bytes([0x81, 0x88, 0x82, 0x80, 0x84, 0x80, 0x85, 0x80, 0x87, 0x80]),
    'size unknown': bytes([0x81, 0xFF, 0x82, 0x81, 5, 0x89, 0xFF, 0x82, 0x81, 6, 0x81, 0x80]),
    'wrong child': bytes([0x81, 0x83, 0x8D, 0x81, 4, 0x42, 0x86, 0x81, 1]),
}
for _n, _b in BROKEN.items():
    OPS['broken: %s' % _n] = (READ, lambda env, st, b=_b: env.each(
        env.S.method(st, env.schema, 'load', env.stream(st, data=K(b))),
        lambda s, e: env.quiet(env.then(env.S.get(s, e, 'value'), lambda s2, v: env.S.method(s2, e, 'dump')))))
    OPS['verify broken: %s' % _n] = (READ, lambda env, st, b=_b: env.S.method(st, env.schema, 'verify', env.buffer(st, 'data', K(b))))


@op('verify', READ)
def verify(env, st):
    return env.S.method(st, env.schema, 'verify', env.data(st, 'other'))


@op('verify a buffer', READ)
def verify_buffer(env, st):
    return env.S.method(st, env.schema, 'verify', env.buffer(st, 'data', env.data(st)))


for _fn, _sz in (('readElementID', None), ('readElementSize', None), ('readUInt', 2), ('readInt', 3), ('readFloat', 4), ('readFloat', 8),
                 ('readString', 4), ('readUnicode', 3), ('readDate', 8), ('readUInt', 9), ('readFloat', 3)):
    OPS['%s %s' % (_fn, _sz)] = (READ, lambda env, st, f=_fn, n=_sz: env.S.call(
        st, DEC + f, env.stream(st, data=K(b'\x41\x42\x43\x44\x45\x46\x47' + env.tag.encode() + b'0123456789')), *([] if n is None else [K(n)])))
for _fn in ('decodeIntLength', 'decodeIDLength'):
    OPS[_fn] = (READ, lambda env, st, f=_fn: env.S.call(st, DEC + f, K(0x41 if env.tag == 'a' else 0x21)))


# ---------------------------------------------------------------- printing
SHOW = 'converting'
XOPT = [{}, {'offsets': False, 'sizes': False, 'types': False, 'ids': False}, {'binary_codec': 'hex', 'void_codec': 'base64'},
        {'binary_codec': 'ignore', 'void_codec': 'hex'}, {'binary_codec': 'nothing'}, {'void_codec': 'nothing'}]
for _i, _o in enumerate(XOPT):
    OPS['toXml %r' % (_o,)] = (SHOW, lambda env, st, o=_o: env.then(env.doc(st, headers=TRUE), lambda s, d: env.S.call(
        s, TOXML, d, **{k: K(v) for k, v in o.items()})))
    _p = {k: v for k, v in _o.items() if 'codec' in k}
    _p.update([{}, {'values': False}, {'indent': '\t'}, {}, {}, {}][_i])
    OPS['pprint %r' % (_p,)] = (SHOW, lambda env, st, o=_p: env.then(env.doc(st, headers=TRUE), lambda s, d: env.S.call(
        s, PPRINT, d, out=env.out(s, True), **{k: K(v) for k, v in o.items()})))


for _i, _o in enumerate(XOPT[:4]):
    @op('toXml under a parent %r' % (_o,), SHOW)
    def to_parent(env, st, o=_o):
        old = new_xml(env.ip, st, 'Old', [('a', '1')], K('text'))
        parent = new_xml(env.ip, st, 'Parent', [('b', '2')], K('more'), [old])
        env.arg(st, 'XML tree', old)
        env.arg(st, 'parent', parent)
        return env.then(env.doc(st), lambda s, d: env.S.call(s, TOXML, d, parent, **{k: K(v) for k, v in o.items()}))

    @op('toXml of elements %r' % (_o,), SHOW)
    def to_xml_each(env, st, o=_o):
        parent = env.arg(st, 'parent', new_xml(env.ip, st, 'Parent'))
        return env.each(env.doc(st, headers=TRUE), lambda s, e: env.S.call(s, TOXML, e, parent, **{k: K(v) for k, v in o.items()}))


for _c, _kw in (('Base64Codec', {'cols': 4}), ('HexCodec', {'width': 4, 'cols': 2}), ('IgnoreCodec', {}),
                 (('Custom', 'Base64Codec'), {}), (('Custom', 'HexCodec'), {'cols': 4})):
    @op('toXml and pprint with a %s' % (_c,), SHOW)
    def with_codec(env, st, c=_c, kw=_kw):
        x = env.codec(st, c, **kw)
        return env.then(env.doc(st), lambda s, d: env.then(env.S.call(s, TOXML, d, binary_codec=x, void_codec=x), lambda s2, v: env.then(
            env.S.call(s2, PPRINT, d, out=env.out(s2, True), binary_codec=x, void_codec=x), lambda s3, n: [(s3, 'v', v)])))

    @op('%s encode, decode' % (_c,), SHOW)
    def coded(env, st, c=_c, kw=_kw):
        x = env.codec(st, c, **kw)
        data = env.buffer(st, 'data', K(b'data of some length ' + env.tag.encode()))

        def dec(s, t):
            a = M.deref(s, t)
            if type(a) is K and isinstance(a.v, str):
                a = env.buffer(s, 'encoded data', K(a.v.encode()))
            return env.then(env.S.method(s, x, 'decode', a), lambda s2, v: env.then(
                env.S.method(s2, x, 'decode', t, env.out(s2)), lambda s3, n: [(s3, 'v', v)]))
        return env.then(env.S.method(st, x, 'encode', data, offset=K(4), indent=K('  ')), lambda s, t: env.then(
            env.S.method(s, x, 'encode', data, env.out(s, True), indent=K(' ')), lambda s2, n: dec(s2, t)))

    @op('%s decode of bad data' % (_c,), SHOW)
    def bad_code(env, st, c=_c, kw=_kw):
        return env.S.method(st, env.codec(st, c, **kw), 'decode', env.buffer(st, 'encoded data', K(b'0g!' + env.tag.encode())))


# ---------------------------------------------------------------- encoding
ENCODE = 'encoding'
for _how in ('dict', 'list'):
    @op('encode a %s' % _how, ENCODE)
    def encode_tree(env, st, how=_how):
        return env.S.method(st, env.schema, 'encode', env.out(st), env.tree(st, how))

    @op('encode a %s with headers' % _how, ENCODE)
    def encode_headers(env, st, how=_how):
        return env.S.method(st, env.schema, 'encode', env.out(st), env.tree(st, how), headers=TRUE)

    for _h in (True, False):
        for _to in ('encode', 'encodes', 'document class encode'):
            @op('%s a %s with a header of its own, headers %s' % (_to, _how, _h), ENCODE)
            def own_header(env, st, how=_how, h=_h, to=_to):
                inner = env.dict(st, 'header data', ('DocType', K('own')), ('EBMLVersion', K(1)))
                if how == 'dict':
                    data = env.dict(st, 'data', ('EBML', inner), ('Seg', env.dict(st, 'nested data', ('U', env.num('u')))))
                else:
                    data = env.list(st, 'data', Tup([K('EBML'), inner]), Tup([K('Seg'), env.list(st, 'nested data')]))
                if to == 'encodes':
                    return env.S.method(st, env.schema, 'encodes', data, headers=K(h))
                if to == 'encode':
                    return env.S.method(st, env.schema, 'encode', env.out(st), data, headers=K(h))
                return env.then(env.S.get(st, env.schema, 'document'), lambda s, c: env.S.method(s, c, 'encode', env.out(s), data, headers=K(h)))

    @op('encodes a %s' % _how, ENCODE)
    def encodes_tree(env, st, how=_how):
        return env.S.method(st, env.schema, 'encodes', env.tree(st, how), headers=TRUE)

    @op('document class encode of a %s' % _how, ENCODE)
    def doc_encode(env, st, how=_how):
        return env.then(env.S.get(st, env.schema, 'document'), lambda s, c: env.S.method(s, c, 'encode', env.out(s), env.tree(s, how), headers=TRUE))

    @op('document class encode of a %s, no headers' % _how, ENCODE)
    def doc_encode_plain(env, st, how=_how):
        return env.then(env.S.get(st, env.schema, 'document'), lambda s, c: env.S.method(s, c, 'encode', env.out(s), env.tree(s, how)))

    for _kw in ({}, {'lengthSize': 4}, {'infinite': True}, {'length': 300}, {'length': 3}):
        @op('master encode of a %s %r' % (_how, _kw), ENCODE)
        def master_encode(env, st, how=_how, kw=_kw):
            inner = env.tree(st, how)
            d = st.get(inner).data
            body = d[0][1] if how == 'dict' else d[0].items[1]
            return env.then(env.S.method(st, env.schema, '__getitem__', K('Seg')), lambda s, c: env.S.method(
                s, c, 'encode', body, **{k: K(v) for k, v in kw.items()}))

    @op('master encodePayload of a %s' % _how, ENCODE)
    def master_payload(env, st, how=_how):
        inner = env.tree(st, how)
        d = st.get(inner).data
        body = d[0][1] if how == 'dict' else d[0].items[1]
        return env.then(env.S.method(st, env.schema, '__getitem__', K('Seg')), lambda s, c: env.S.method(s, c, 'encodePayload', body))

    @op('encode a list of %s values' % _how, ENCODE)
    def master_list(env, st, how=_how):
        a, b = (env.dict(st, 'data', ('U', env.num('u'))), env.dict(st, 'data', ('B', K(b'x')))) if how == 'dict' else (
            env.list(st, 'data', Tup([K('U'), env.num('u')])), env.list(st, 'data', Tup([K('B'), K(b'x')])))
        l = env.list(st, 'list of data', a, b)
        return env.then(env.S.method(st, env.schema, '__getitem__', K('Seg')), lambda s, c: env.S.method(s, c, 'encode', l))

    for _bad in (('Nothing', K(1)), ('U', K('x')), ('U', K(-1)), ('S', K(5)), ('D', K('x')), ('B', K(5)), ('F', K('x'))):
        @op('encode a bad %s %r' % (_how, _bad), ENCODE)
        def encode_bad(env, st, how=_how, bad=_bad):
            inner = [('U', env.num('u')), bad, ('I', K(1))]
            seg = env.dict(st, 'nested data', *inner) if how == 'dict' else env.list(st, 'nested data', *[Tup([K(k), v]) for k, v in inner])
            data = env.dict(st, 'data', ('Seg', seg)) if how == 'dict' else env.list(st, 'data', Tup([K('Seg'), seg]))
            return env.S.method(st, env.schema, 'encode', env.out(st), data, headers=TRUE)

for _leaf in range(8):
    for _kw in ({}, {'lengthSize': 4}, {'length': 8}):
        @op('leaf %d encode %r' % (_leaf, _kw), ENCODE)
        def leaf_encode(env, st, n=_leaf, kw=_kw):
            name, v = env.leaves()[n]
            return env.then(env.S.method(st, env.schema, '__getitem__', K(name)), lambda s, c: env.then(
                env.S.method(s, c, 'encode', v, **{k: K(x) for k, x in kw.items()}), lambda s2, e: env.then(
                    env.S.method(s2, c, 'encode', env.list(s2, 'values', v, v)), lambda s3, e2: [(s3, 'v', Tup([e, e2]))])))

    @op('leaf %d encode bad values' % _leaf, ENCODE)
    def leaf_bad(env, st, n=_leaf):
        name, v = env.leaves()[n]
        return env.then(env.S.method(st, env.schema, '__getitem__', K(name)), lambda s, c: env.then(
            env.quiet(env.S.method(s, c, 'encode', env.list(s, 'values', v, NONE, v))), lambda s2, e: env.then(
                env.quiet(env.S.method(s2, c, 'encode', env.dict(s2, 'values', ('U', v)))),
                lambda s3, e2: env.S.method(s3, c, 'encode', v, length=ZERO))))

for _name in ('B', 'S', 'P', 'Void'):
    @op('encode a buffer as %s' % _name, ENCODE)
    def buffers(env, st, name=_name):
        b = env.buffer(st, 'buffer', K(b'buf' + env.tag.encode()))
        return env.then(env.S.method(st, env.schema, '__getitem__', K(name)), lambda s, c: env.then(
            env.quiet(env.S.method(s, c, 'encode', b)), lambda s2, e: env.then(
                env.quiet(env.S.method(s2, c, 'encode', b, length=K(9))), lambda s3, e2: env.then(
                    env.quiet(env.S.method(s3, c, 'encode', env.list(s3, 'values', b, b))), lambda s4, e3: [(s4, 'v', Tup([e, e2, e3]))]))))

for _fn in ('encodeBinary', 'encodeString'):
    for _len in (None, 2, 9):
        OPS['%s of a buffer, %s' % (_fn, _len)] = (ENCODE, lambda env, st, f=_fn, n=_len: env.S.call(
            st, ENC + f, env.buffer(st, 'buffer', K(b'buf' + env.tag.encode())), *([] if n is None else [K(n)])))
for _fn, _n in (('encodeUInt', 0), ('encodeInt', 1), ('encodeFloat', 2), ('encodeString', 3), ('encodeUnicode', 4), ('encodeDate', 5), ('encodeBinary', 6)):
    for _len in (None, 8):
        OPS['%s, %s' % (_fn, _len)] = (ENCODE, lambda env, st, f=_fn, i=_n, n=_len: env.S.call(
            st, ENC + f, env.leaves()[i][1], *([] if n is None else [K(n)])))
OPS['encodeFloat of zero'] = (ENCODE, lambda env, st: env.S.call(st, ENC + 'encodeFloat', K(0.0 if env.tag == 'a' else -0.0), K(4)))
OPS['float element of zero'] = (ENCODE, lambda env, st: env.then(env.S.method(st, env.schema, '__getitem__', K('F')), lambda s, c: env.S.method(
    s, c, 'encode', K(0.0 if env.tag == 'a' else -0.0))))
for _fn in ('encodeInt', 'encodeUInt'):
    OPS['%s of one' % _fn] = (ENCODE, lambda env, st, f=_fn: env.S.call(st, ENC + f, K(1 if env.tag == 'a' else 1.0)))
for _fn in ('encodeId', 'encodeSize', 'getLength'):
    OPS[_fn] = (ENCODE, lambda env, st, f=_fn: env.S.call(st, ENC + f, env.num('n', 0x4100, 0x7ff0) if f == 'encodeId' else env.num('n')))
OPS['encodeSize of None'] = (ENCODE, lambda env, st: env.S.call(st, ENC + 'encodeSize', NONE, K(3 if env.tag == 'a' else 2)))


# --------------------------------------------------------------- from XML
XML = 'from XML'
for _kw in ({}, {'sizeLength': 4}, {'unknown': False}):
    OPS['xmlElement2ebml %r' % (_kw,)] = (XML, lambda env, st, kw=_kw: env.S.call(
        st, X2E, env.xml(st), env.out(st), env.schema, **{k: K(v) for k, v in kw.items()}))
for _bad in ('name', 'value', 'data'):
    OPS['xmlElement2ebml, bad %s' % _bad] = (XML, lambda env, st, bad=_bad: env.S.call(st, X2E, env.xml(st, bad), env.out(st), env.schema))
    OPS['xml2ebml, bad %s' % _bad] = (XML, lambda env, st, bad=_bad: env.S.call(st, XDOC, env.xml(st, bad, 'document'), env.out(st), env.schema))
for _root in (None, 'document'):
    for _kw in ({}, {'headers': False, 'sizeLength': 8}, {'unknown': False}):
        OPS['xml2ebml of %s %r' % (_root or 'element', _kw)] = (XML, lambda env, st, r=_root, kw=_kw: env.S.call(
            st, XDOC, env.xml(st, None, r), env.out(st), env.schema, **{k: K(v) for k, v in kw.items()}))
OPS['xml2ebml of a foreign element'] = (XML, lambda env, st: env.S.call(
    st, XDOC, env.arg(st, 'XML tree', new_xml(env.ip, st, 'Foreign', [], NONE, [new_xml(env.ip, st, 'U', [('value', '1')])])), env.out(st), env.schema))
for _root in (None, 'document'):
    @op('loadXml of %s' % (_root or 'element'), XML)
    def load_xml(env, st, r=_root):
        return env.then(env.S.call(st, UTIL + 'loadXml', env.xml(st, None, r), env.schema, K(':memory:')), lambda s, d: env.each(
            [(s, 'v', d)], lambda s2, e: env.S.get(s2, e, 'value')))


@op('xml2ebml of a tree', XML)
def xml_tree(env, st):
    root = env.xml(st, None, 'document')
    t = one(env.S.call(st, Ext('xml.etree.ElementTree.ElementTree'), root), 'tree')[1]
    return env.S.call(st, XDOC, t, env.out(st), env.schema)


# --------------------------------------------------------------- utilities
UTILS = 'utilities'
for _cls in 'ABCD':
    for _kw in ({}, {'count': 3}, {'minId': 0x90, 'maxId': 0x3FFFFF, 'count': 2}):
        @op('createID %s %r' % (_cls, _kw), UTILS)
        def create(env, st, cls=_cls, kw=_kw):
            ex = {'A': env.list, 'B': env.set, 'C': env.list, 'D': env.set}[cls]
            x = ex(st, 'exclude', K(0xF0), K(0x90 if env.tag == 'a' else 0x91), K(0x4F00), K(0x2F0000))
            return env.S.call(st, UTIL + 'createID', env.schema, K(cls), x, **{k: K(v) for k, v in kw.items()})
OPS['createID bad class'] = (UTILS, lambda env, st: env.S.call(st, UTIL + 'createID', env.schema, K('Z'), env.list(st, 'exclude', K(1))))
OPS['createID nothing left'] = (UTILS, lambda env, st: env.S.call(
    st, UTIL + 'createID', env.schema, K('A'), env.list(st, 'exclude', K(0x91)), minId=K(0x91), maxId=K(0x91)))
for _id in (0x81, 0x4286, 0x1A45DFA3, 0, 0xFF, 0x100000000):
    OPS['validateID 0x%X' % _id] = (UTILS, lambda env, st, i=_id: env.S.call(st, UTIL + 'validateID', K(i)))

for _k in ('U', 'Seg', 'Void', 'Nothing', 0x82, 0x9F, 0x4FFF):
    OPS['schema get %r' % _k] = (UTILS, lambda env, st, k=_k: env.S.method(st, env.schema, 'get', K(k)))
    OPS['schema get %r with default' % _k] = (UTILS, lambda env, st, k=_k: env.S.method(st, env.schema, 'get', K(k), K('default' + env.tag)))
    OPS['schema [%r]' % _k] = (UTILS, lambda env, st, k=_k: env.S.method(st, env.schema, '__getitem__', K(k)))
    OPS['%r in schema' % _k] = (UTILS, lambda env, st, k=_k: env.S.method(st, env.schema, '__contains__', K(k)))
for _n in ('version', 'type'):
    OPS['schema %s' % _n] = (UTILS, lambda env, st, n=_n: env.S.get(st, env.schema, n))
OPS['schema repr'] = (UTILS, lambda env, st: env.S.call(st, Ext('builtins.repr'), env.schema))
OPS['schema =='] = (UTILS, lambda env, st: env.S.method(st, env.schema, '__eq__', env.schema))


# ---------------------------------------------------------------- digests
def digest(st, v, seen=()):
    """ An abstract value with the containers in it, as nested tuples. """
    if type(v) is Tup:
        return ('tuple',) + tuple(digest(st, x, seen) for x in v.items)
    if type(v) is not Ref:
        return v
    if v in seen:
        return ('cycle',)
    o = st.get(v)
    seen = seen + (v,)
    if o.kind == 'list':
        return (o.kind,) + tuple(digest(st, x, seen) for x in o.data)
    if o.kind in ('dict', 'set', 'frozenset'):
        return ('dict',) + tuple(('item', digest(st, k, seen), digest(st, x, seen)) for k, x in o.data)
    if o.kind == 'bytearray':
        return ('bytearray', o.data)
    if o.kind == 'xml':
        return ('xml',) + tuple(digest(st, o.attrs.get(k, NONE), seen) for k in ('tag', 'text', 'tail', 'attrib')) + \
            (('children',) + tuple(digest(st, x, seen) for x in o.data),)
    return v


def differ(facts, a, b, path=''):
    """ Where two digests differ: (path, 'ne' or 'unk'), or None. """
    if type(a) is tuple and type(b) is tuple:
        if a[:1] != b[:1] or len(a) != len(b):
            return path or 'contents', 'ne'
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            r = differ(facts, x, y, '%s/%s' % (path, x[0] if type(x) is tuple else i))
            if r:
                return r
        return None
    if type(a) is tuple or type(b) is tuple:
        return path or 'contents', 'ne'
    if a == b:
        return None
    if type(a) is Ref or type(b) is Ref:
        return path, 'ne'
    r = compare(facts, a, b)
    return None if r == 'eq' else (path or 'contents', r)
