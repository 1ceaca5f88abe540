""" C25: binary codecs keep one contract. """

from absint.scen import *
from absint import models as M

RULE = ('Abstract interpretation of every class registered in BINARY_CODECS: over data of each of several lengths whose '
        'bytes are unconstrained, every configuration of columns, width, offsets, offset and indentation is encoded '
        'with and without a stream. The stream must have received exactly the text returned without one and the '
        'returned count must be its length; decoding the abstract text (base64 and hexadecimal text are represented '
        'symbolically, by the bytes they encode) must give back the same abstract bytes, with and without a stream. '
        'Empty data and data given as text are covered, and the registry\'s keys are compared with the classes\' names.')
LEVEL = 'other'

X = 'ebmlite.xml_codecs.'
SIZES = (1, 2, 3, 4, 5, 33, 56, 57, 58, 114, 115)
CONF = {
    'base64': [{}] + [{'cols': n} for n in (0, None, 1, 3, 4, 16, 75, 76, 77, 100)],
    'hex': [{}] + [dict(cols=c, width=w, offsets=o) for c in (0, None, 1, 3, 16, 32) for w in (1, 2, 3, 4)
                   for o in (True, False)],
    'ignore': [{}],
}
DEFAULT = [{}] + [{'cols': n} for n in (0, 1, 4, 16)]
INDENTS = (None, '', '  ', '\t', b'    ')


def run(C):
    C.scenario('registry', registry)
    for name in codec_names(C):
        confs = CONF.get(name, DEFAULT)
        for conf in confs:
            cols = conf.get('cols')
            sizes = SIZES if name != 'hex' else (1, 2, 5, cols + 1 if cols else 33 if not conf else 7) if cols != 1 else (1, 2, 5)
            if C.thorough:
                sizes = tuple(range(1, 70)) + (75, 76, 77, 113, 114, 115, 171, 200)
            C.scenario('%s %r' % (name, conf), config, name, conf, sizes)
        C.scenario('%s symbolic length' % name, any_length, name)
        C.scenario('%s empty' % name, empty, name)
        C.scenario('%s text data' % name, text_data, name)
        C.scenario('%s decoder' % name, decoder, name)


def table(S, st):
    ref = S.ip.resolve(st, X + 'BINARY_CODECS')
    if type(ref) is not Ref or st.get(ref).kind != 'dict':
        raise AnalysisError('BINARY_CODECS is not a dictionary')
    return [(k.v, M.deref(st, v)) for k, v in st.get(ref).data]


def codec_names(C):
    S = C.probe()
    names = [k for k, v in table(S, S.fresh())]
    if len(names) < 3:
        raise AnalysisError('BINARY_CODECS holds %r' % (names,))
    return names


def registry(S):
    st = S.fresh()
    seen = []
    for k, cls in table(S, st):
        where = X + 'BINARY_CODECS[%r]' % k
        for s, v in S.normal(S.get(st.clone(), cls, 'NAME'), 'codec name', where):
            S.eq(s, v, K(k), 'a codec is registered under its own name', where)
        S.true(st, cls not in seen, 'one name per codec', where, 'registered twice')
        seen.append(cls)
        for m in ('encode', 'decode'):
            S.normal(S.get(st.clone(), cls, m), 'codec has %s' % m, where)


def make(S, st, name, conf):
    cls = dict(table(S, st))[name]
    return one(S.ip.call(st, cls, Call([], {k: K(v) for k, v in conf.items()})), 'codec instance'), cls


def out_stream(S, st, text):
    return one(S.ip.call(st, Ext('io.StringIO' if text else 'io.BytesIO'), Call()), 'stream')


def contents(S, st, stream):
    outs = [o for o in S.method(st, stream, 'getvalue') if o[1] == 'v']
    return outs[0] if len(outs) == 1 else None


def data_of(n):
    return mkbs([Seg('rd', K('data'), ZERO, n if not isinstance(n, int) else K(n))])


def config(S, name, conf, sizes):
    for n in sizes:
        for indent in INDENTS:
            kw = {} if indent is None else {'indent': K(indent)}
            if n in (1, 5, 57) and indent == '  ':
                kw['offset'] = Sym('offset', 'int')
            contract(S, name, conf, data_of(n), kw)


def any_length(S, name):
    for conf in CONF.get(name, DEFAULT)[:1] + ([{'cols': 0}, {'cols': None}] if name == 'base64' else []):
        for kw in ({}, {'indent': K('  ')}):
            if name != 'base64':
                continue
            contract(S, name, conf, data_of(Sym('n', 'int')), kw)
    contract(S, 'ignore', {}, data_of(Sym('n', 'int')), {})


def empty(S, name):
    for conf in CONF.get(name, DEFAULT):
        for kw in ({}, {'indent': K('  ')}):
            contract(S, name, conf, K(b''), kw)


def text_data(S, name):
    """ Data given as a bytearray. """
    for conf in CONF.get(name, DEFAULT)[:4]:
        contract(S, name, conf, data_of(7), {}, ba=True)


def contract(S, name, conf, data, kw, ba=False):
    st = S.fresh()
    n = bytes_len(data)
    if type(n) is not K:
        st.facts.restrict(n, 1, 1 << 30)
    if 'offset' in kw:
        st.facts.restrict(kw['offset'], 0, 1 << 40)
    (st, codec), cls = make(S, st, name, conf)
    where = cls_name(S, st, cls)
    arg = S.ip.alloc(st, Obj('bytearray', data=data)) if ba else data
    tag = '%s %r %r, %r bytes: ' % (name, conf, kw, n)
    for s, text in S.normal(S.method(st.clone(), codec, 'encode', arg, **kw), 'encoding returns text', where + '.encode'):
        text = M.deref(s, text)
        ty = s.facts.typeof(text) if type(text) is not Ref else 'object'
        S.true(s, ty in ('str', None), 'encoding returns text', where + '.encode', tag + 'returned %r' % (text,))
        # with a stream: the same text is written, and its length returned
        s1, stream = out_stream(S, s.clone(), True)
        for s2, count in S.normal(S.method(s1, codec, 'encode', arg, stream, **kw), 'encoding to a stream', where + '.encode'):
            got = contents(S, s2, stream)
            if got is None:
                S.undecided(s2, 'encoding to a stream writes the same text', where + '.encode', 'stream not determined')
                continue
            S.eq(s2, got[2], text, 'encoding to a stream writes what is returned without one', where + '.encode', tag + 'text')
            S.eq(s2, count, bytes_len(text), 'encoding to a stream returns the number of characters', where + '.encode',
                 tag + 'count')
        # decoding gives the data back, whatever the formatting
        want = data if name != 'ignore' else K(b'')
        for form in ('str', 'bytes'):
            s3 = s.clone()
            t = text
            if form == 'bytes':
                outs = [o for o in S.ip.call(s3, Ext('builtins.str.encode'), Call([text])) if o[1] == 'v']
                if len(outs) != 1:
                    continue
                s3, _, t = outs[0]
            decode(S, s3, cls, t, want, where, tag)


def decode(S, st, cls, text, want, where, tag):
    where += '.decode'
    for s, v in S.normal(S.method(st.clone(), cls, 'decode', text), 'decoding', where):
        S.eq(s, M.deref(s, v), want, 'decoding ignores the formatting', where, tag + 'decoded data')
    s1, stream = out_stream(S, st.clone(), False)
    for s, count in S.normal(S.method(s1, cls, 'decode', text, stream), 'decoding to a stream', where):
        got = contents(S, s, stream)
        if got is None:
            S.undecided(s, 'decoding to a stream writes the data', where, 'stream not determined')
            continue
        S.eq(s, got[2], want, 'decoding to a stream writes what is returned without one', where, tag + 'data')
        S.eq(s, count, bytes_len(want), 'decoding to a stream returns the number of bytes', where, tag + 'count')


def decoder(S, name):
    """ The decoder alone, on nothing, and on foreign formatting. """
    st = S.fresh()
    cls = dict(table(S, st))[name]
    where = cls_name(S, st, cls)
    for t in (K(''), K(b''), NONE, K('\n'), K(' \n\t '), K(b'\n  \n')):
        if t is NONE and name not in CONF:
            continue
        decode(S, st.clone(), cls, t, K(b''), where, '%r: ' % (t,))
    texts = {'hex': [('00 ff\n7F', b'\x00\xff\x7f'), ('\n[000000] 0102 0a\n[000003] ff\n', b'\x01\x02\x0a\xff'),
                     ('0001 02', b'\0\1\2'), ('[12] 41', b'A')],
             'base64': [('QUI=', b'AB'), (' QU\n JD ', b'ABC'), ('\n\tQUJD\n\tRA==\n', b'ABCD')]}
    for t, want in texts.get(name, ()):
        for x in (t, t.encode()):
            decode(S, st.clone(), cls, K(x), K(want), where, '%r: ' % (x,))


def cls_name(S, st, cls):
    return X + (S.ip.class_name(st, cls) or '?').rsplit('.', 1)[-1]
