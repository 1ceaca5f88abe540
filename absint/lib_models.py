"""
Models, part 3: streams, struct, dates, paths, ElementTree, threading, and the
other library modules the analysed package uses.
"""
import os
import pathlib

from .terms import *
from .interp import Obj, Call, ok, pyobj, canon_ext, AnalysisError
from .models import (MODELS, ATTRS, model, A, isstr, isbytes, isint, deref, is_rep, plain_list, plain_dict,
                     container_len, key_search, dict_set, dict_update, list_append, known_items, to_items, iterate,
                     concat_text, to_str, getitem, dt_us, mkdt, td_us, mktd, td_parts, mkpath, path_text,
                     path_join, byte_of, DAY, US, floordiv, modulo)
from .builtin_models import (DESC_ATTRS, VALUE_ATTRS, argterms, b64seg, b64sig, to_hex, hex_value, split_words, m_encode, fold_const, call_unknown, partition_int, split_range,
                             pack_int, to_signed, mkbs_segs, none, call_opaque)


# ---------------------------------------------------------------------------
# Streams
# ---------------------------------------------------------------------------
# Obj('stream', cls, info): role 'mem' (contents in data), 'src' (input:
# contents are bytes of `src`), 'out' (output: written contents in data);
# pos, closed, name, mode, text.

def new_stream(ip, st, role, cls='io.BytesIO', **info):
    o = Obj('stream', Ext(cls), info=dict(info, role=role))
    o.info.setdefault('pos', ZERO)
    o.info.setdefault('closed', FALSE)
    text = o.info.get('text', False)
    if role in ('mem', 'out') and o.data is None:
        o.data = info.get('content', K('' if text else b''))
        o.info.pop('content', None)
    return ip.alloc(st, o, 'stream:' + (info.get('tag') or cls.split('.')[-1]))


def sev(ip, st, ref, m, *args):
    st.ev('io', ref, m, tuple(args), ip.where())


def smodel(*names):
    return model(*['stream.' + n for n in names])


def check_open(ip, st, ref, f):
    cl = st.get(ref).info.get('closed', FALSE)
    if cl == TRUE:
        sev(ip, st, ref, 'use-after-close')
        return ip.raise_(st, 'ValueError', 'I/O operation on closed file')
    if cl == FALSE:
        return f(st)
    res = []
    for s, b in ip.branch(st, ip.cond(st, cl)):
        res.extend(ip.raise_(s, 'ValueError', 'I/O operation on closed file') if b else f(s))
    return res


@model('io.BytesIO', 'io.StringIO')
def m_bytesio(ip, st, c):
    return memio(ip, st, c, False)


def memio(ip, st, c, text):
    v = A(c, 0, 'initial_value' if text else 'initial_bytes')
    if v is None or v == NONE:
        v = K('' if text else b'')
    v = deref(st, v)
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    if t is not None and (t == 'str') != text or t in ('int', 'object', 'float'):
        return ip.raise_(st, 'TypeError', 'initial value must be %s' % ('str' if text else 'bytes-like'))
    return ok(st, new_stream(ip, st, 'mem', 'io.StringIO' if text else 'io.BytesIO', content=v, text=text))


MODELS['io.StringIO'] = lambda ip, st, c: memio(ip, st, c, True)


@model('builtins.open')
def m_open(ip, st, c):
    path, mode = A(c, 0, 'file'), A(c, 1, 'mode', K('r'))
    return with_encoding(open_path(ip, st, path, mode, 'io.TextIOWrapper'), A(c, 3, 'encoding', NONE))


def with_encoding(outs, enc):
    for s, sig, ref in outs:
        if sig == 'v':
            s.get(ref).info['encoding'] = enc
    return outs


@model('codecs.open')
def m_codecs_open(ip, st, c):
    return with_encoding(open_path(ip, st, A(c, 0, 'filename'), A(c, 1, 'mode', K('r')), 'io.TextIOWrapper'), A(c, 2, 'encoding', NONE))


@model('os.fdopen', 'os.open')
def m_fdopen(ip, st, c):
    st.ev('open', NONE, c.args[0], A(c, 1, 'mode', K('?')), 'os.open', ip.where())
    return ok(st, Op('fd', tuple(c.args), 'int'))


def open_path(ip, st, path, mode, how):
    path = path_text(st, path)
    mode = st.facts.simp(mode) if type(mode) in (Sym, Op) else mode
    t = st.facts.typeof(path) if type(path) is not Ref else 'object'
    if t in ('NoneType', 'float', 'object', 'tuple'):
        return ip.raise_(st, 'TypeError', 'expected str, bytes or os.PathLike object')
    m = mode.v if isstr(mode) else '?'
    write = any(x in m for x in 'wax+?')
    res = []
    f = ip.cfg.get('open_fails')
    fails = f(st, path, mode) if f is not None else None
    if fails:
        s2 = st.clone()
        s2.ev('openfail', path, mode, ip.where())
        exc = 'FileNotFoundError'
        if isinstance(fails, tuple):
            fails, exc = fails
        res.extend(ip.raise_(s2, exc, 'No such file', path))
        if fails == 'only':
            return res
    text = 'b' not in m and how != 'io.FileIO'
    if how != 'io.FileIO':
        cls = 'io.TextIOWrapper' if text else 'io.BufferedWriter' if write else 'io.BufferedReader'
    else:
        cls = how
    src = Op('file', (path,))
    info = dict(src=src, name=path, mode=mode, text=text, tag='file', how=how, fresh=True)
    prov = ip.cfg.get('filebytes')
    data = ip.cfg['filedata'](st, path) if 'filedata' in ip.cfg and not write else None
    if data is not None:
        ref = new_stream(ip, st, 'mem', cls, content=data, **dict(info, tag='file'))
        st.ev('open', ref, path, mode, how, ip.where())
        return ok(st, ref) + res
    ref = new_stream(ip, st, 'out' if write else 'src', cls, **info)
    if prov is not None:
        st.get(ref).info['bytes'] = prov
    if 'eof' in ip.cfg:
        st.get(ref).info['eof'] = ip.cfg['eof']
    if 'fileend' in ip.cfg and not write:
        end = ip.cfg['fileend'](st, path)
        if end is not None:
            st.get(ref).info.update(end=end, eof='any')
    st.ev('open', ref, path, mode, how, ip.where())
    return ok(st, ref) + res


@model('io.FileIO')
def m_fileio(ip, st, c):
    path, mode = A(c, 0, 'file'), A(c, 1, 'mode', K('r'))
    h = ip.cfg.get('fileio')
    if h is not None:
        r = h(ip, st, c)
        if r is not None:
            return r
    if path is None:
        if c.star is not None or c.dstar is not None:
            path = Op('item', (c.star, ZERO), None)
            mode = Op('item', (c.star, ONE), None)
        else:
            return ip.raise_(st, 'TypeError', 'missing file argument')
    return open_path(ip, st, path, mode, 'io.FileIO')


# Instances of analysed subclasses of io.FileIO have a stream of their own
# once FileIO.__init__ has been called.

def own_stream(name):
    def m(ip, st, c):
        ref = c.args[0]
        if type(ref) is not Ref or st.get(ref).kind != 'inst':
            return ip.call(st, Ext('stream.' + name), c)
        base = st.get(ref).info.get('fileio')
        if base is None:
            return ip.raise_(st, 'ValueError', 'I/O operation on uninitialized object')
        return ip.call(st, Ext('stream.' + name), Call([base] + list(c.args[1:]), c.kw, c.star, c.dstar))
    return m


for _n in ('close', 'fileno', 'isatty', 'read', 'readable', 'readall', 'readinto', 'seek', 'seekable', 'tell', 'truncate',
           'writable', 'write'):
    MODELS['io.FileIO.' + _n] = own_stream(_n)


@model('io.FileIO.__init__')
def m_fileio_init(ip, st, c):
    def keep(s, ref):
        ip.mut(s, c.args[0]).info['fileio'] = ref
        return ok(s, NONE)
    return ip.bind(m_fileio(ip, st, Call(list(c.args[1:]), c.kw, c.star, c.dstar)), keep)


def by_self(name):
    return lambda ip, st, ref, *a: ip.bind(ip.getattr_(st, ref, name), lambda s, f: ip.call(s, f, Call(list(a))))


@model('_io._IOBase.__next__')
def m_iobase_next(ip, st, c):
    return ip.bind(by_self('readline')(ip, st, c.args[0]), lambda s, line: [
        x for s2, b in ip.branch(s, ip.cond(s, line)) for x in (ok(s2, line) if b else ip.raise_(s2, 'StopIteration'))])


@model('_io._IOBase.__enter__', '_io._IOBase.__iter__')
def m_iobase_enter(ip, st, c):
    return ok(st, c.args[0])


@model('_io._IOBase.__exit__')
def m_iobase_exit(ip, st, c):
    return ip.bind(by_self('close')(ip, st, c.args[0]), lambda s, v: ok(s, NONE))


@model('_io._IOBase.flush')
def m_iobase_flush(ip, st, c):
    return ok(st, NONE)


@model('_io._IOBase.writelines')
def m_iobase_writelines(ip, st, c):
    ref = c.args[0]
    return ip.bind(ip.iterate(st, c.args[1], lambda s, line: by_self('write')(ip, s, ref, line)), lambda s, v: ok(s, NONE))


# Streams whose operations stay uninterpreted: each is recorded and returns
# a term over the stream, the operation and its arguments.

def oracle_op(name):
    def m(ip, st, c):
        ref, args = c.args[0], tuple(c.args[1:]) + tuple(Tup([K(k), v]) for k, v in sorted(c.kw.items()))
        st.ev('scall', ref, name, args, ip.where())
        res = []
        f = st.get(ref).info['oracle']
        kinds = f(st, ref, name) if f is not None else None
        for kind in kinds if type(kinds) is tuple else ('OSError',) if kinds else ():
            res = res + ip.raise_(st.clone(), kind, name + ' failed')
        if name == 'close':
            ip.mut(st, ref).info['closed'] = TRUE
            return ok(st, NONE) + res
        if name == '__exit__':
            ip.mut(st, ref).info['closed'] = TRUE
        if name in ('__enter__', '__iter__'):
            return ok(st, ref) + res
        return ok(st, Op('oracle', (K(name), ref, Tup(list(args))), None)) + res
    return m


for _n in ('__enter__', '__exit__', '__iter__', '__next__', '__format__', '__hash__', '__reduce__', '__reduce_ex__', '__sizeof__', '__str__',
           '__repr__', 'close', 'fileno', 'flush', 'isatty', 'read', 'readable', 'readall', 'readinto', 'readline', 'readlines', 'seek',
           'seekable', 'tell', 'truncate', 'writable', 'write', 'writelines'):
    MODELS['oracle.' + _n] = oracle_op(_n)


def content_read(ip, st, ref, n, advance=True):
    """ Read n (None: the rest) from a memory stream. """
    o = st.get(ref)
    data, pos, text = o.data, o.info['pos'], o.info.get('text', False)
    total = bytes_len(data)
    from .models import str_slice
    t = 'str' if text else 'bytes'
    res = []
    end = total if n is None else add(pos, n)
    for s, beyond in ip.branch(st, ip.decide(st, Op('lt0', (sub(total, end),), 'bool'))):
        e = total if beyond else end
        for s1, sig, v in str_slice(ip, s, data, pos, e, t):
            if sig == 'v' and advance:
                m = ip.mut(s1, ref)
                lo, hi = s1.facts.interval(sub(total, pos))
                m.info['pos'] = e if not beyond or hi == INF or lo >= 0 else pos
            res.append((s1, sig, v))
    return res


def src_end(o):
    return o.info.get('end') or Op('end', (o.info['src'],), 'int')


def src_read(ip, st, ref, n):
    o = st.get(ref)
    src, pos, text = o.info['src'], o.info['pos'], o.info.get('text', False)
    if o.info.get('opaquepos'):
        pos = o.info['pos']
    eof = o.info.get('eof', 'none')
    end = src_end(o)
    if n is None:
        # the rest of the stream
        k = sub(end, pos)
        states = []
        for s, b in ip.branch(st, ip.decide(st, Op('lt0', (k,), 'bool'))):
            states.append((s, ZERO if b else k))
    elif eof == 'none':
        states = [(st, n)]
    else:
        states = []
        for s, short in ip.branch(st, ip.decide(st, Op('lt0', (sub(end, add(pos, n)),), 'bool'))):
            if not short:
                states.append((s, n))
                continue
            for s1, none_ in ip.branch(s, ip.decide(s, Op('lt0', (add(sub(end, pos), K(-1)),), 'bool'))):
                states.append((s1, ZERO if none_ else sub(end, pos)))
    res = []
    for s, k in states:
        k = s.facts.simp(k)
        m = ip.mut(s, ref)
        m.info['pos'] = add(pos, k)
        if k == ZERO:
            res.append((s, 'v', K('' if text else b'')))
            continue
        prov = o.info.get('bytes')
        p = s.facts.simp(pos) if type(pos) is not K else pos
        if prov is not None and isint(k) and k.v <= 4096 and not text:
            segs = []
            for i in range(k.v):
                at = add(p, K(i))
                b = prov(s, src, at) if callable(prov) else prov.get(at)
                if b is None:
                    segs.append(Seg('rd', src, at, ONE))
                elif isinstance(b, int):
                    segs.append(Seg('lit', bytes([b])))
                else:
                    segs.append(Seg('ube', b, 1))
            res.append((s, 'v', mkbs(segs)))
        else:
            res.append((s, 'v', mkbs([Seg('rd', src, p, k)], text)))
    return res


@smodel('read', 'read1', 'readall')
def st_read(ip, st, c):
    ref = c.args[0]
    n = A(c, 1, 'size', K(-1))
    o = st.get(ref)
    if o.info.get('role') == 'out' and not (isstr(o.info.get('mode')) and '+' in o.info['mode'].v):
        if 'mode' in o.info:
            return ip.raise_(st, 'io.UnsupportedOperation', 'not readable')

    def go(s):
        nn = s.facts.simp(n) if type(n) in (Sym, Op, Lin) else n
        if nn == NONE:
            nn = K(-1)
        t = s.facts.typeof(nn)
        if t not in ('int', 'bool', None):
            return ip.raise_(s, 'TypeError', 'argument should be integer or None')
        res = []
        for s1, neg in ip.branch(s, ip.decide(s, Op('lt0', (nn,), 'bool'))):
            sev(ip, s1, ref, 'read', s1.get(ref).info['pos'], nn)
            k = None if neg else nn
            if s1.get(ref).info['role'] == 'src':
                f = ip.cfg.get('read_fails')
                fault = f(s1, ref) if f is not None else None
                if fault:
                    exc, msg = fault if type(fault) is tuple else ('OSError', 'read error')
                    s3 = s1.clone()
                    s3.ev('fault', 'read', ref, ip.where())
                    res.extend(ip.raise_(s3, exc, msg))
                res.extend(src_read(ip, s1, ref, k))
            else:
                res.extend(content_read(ip, s1, ref, k))
        return res
    return check_open(ip, st, ref, go)


@smodel('readinto')
def st_readinto(ip, st, c):
    ref, buf = c.args

    def put(s, v):
        if type(buf) is Ref and s.get(buf).kind == 'bytearray':
            m = ip.mut(s, buf, 'readinto')
            rest = sub(bytes_len(m.data), bytes_len(v))
            m.data = v if rest == ZERO else Op('readinto', (m.data, v), 'bytes')
        else:
            s.doubt('readinto')
        return ok(s, bytes_len(v))
    n = bytes_len(st.get(buf).data) if type(buf) is Ref and st.get(buf).kind == 'bytearray' else mklen(buf)
    return ip.bind(st_read(ip, st, Call([ref, n])), put)


@smodel('readline', 'readlines')
def st_readline(ip, st, c):
    ref = c.args[0]
    m = ip.mut(st, ref)
    p = m.info['pos']
    v = Op('readline', (m.info.get('src', ref), p), 'str' if m.info.get('text') else 'bytes')
    m.info['pos'] = add(p, mklen(v))
    sev(ip, st, ref, 'read', p, NONE)
    return ok(st, v)


@smodel('tell')
def st_tell(ip, st, c):
    return check_open(ip, st, c.args[0], lambda s: ok(s, s.get(c.args[0]).info['pos']))


@smodel('seek')
def st_seek(ip, st, c):
    ref = c.args[0]
    off, wh = A(c, 1, 'offset'), A(c, 2, 'whence', ZERO)
    if off is None:
        return ip.raise_(st, 'TypeError', 'seek expected an argument')
    o = st.get(ref)
    if o.info.get('unseekable'):
        return ip.raise_(st, 'io.UnsupportedOperation', 'seek')
    t = st.facts.typeof(off) if type(off) is not Ref else 'object'
    if t not in ('int', 'bool', None):
        return ip.raise_(st, 'TypeError', 'integer argument expected')

    def go(s):
        o = s.get(ref)
        if wh == ZERO:
            p = off
        elif wh == ONE:
            p = add(o.info['pos'], off)
        elif wh == K(2):
            end = bytes_len(o.data) if o.info['role'] in ('mem', 'out') else src_end(o)
            p = add(end, off)
        else:
            p = Op('seekpos', (o.info['pos'], off, wh), 'int')
        p = s.facts.simp(p)
        res = []
        for s1, neg in ip.branch(s, ip.decide(s, Op('lt0', (p,), 'bool'))):
            if neg:
                res.extend(ip.raise_(s1, 'OSError' if o.info['role'] != 'mem' else 'ValueError', 'negative seek position'))
                continue
            m = ip.mut(s1, ref)
            m.info['pos'] = p
            sev(ip, s1, ref, 'seek', p)
            res.extend(ok(s1, p))
        return res
    return check_open(ip, st, ref, go)


@smodel('write')
def st_write(ip, st, c):
    ref, v = c.args[:2]
    o = st.get(ref)
    v = deref(st, v)
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    text = o.info.get('text', False)
    if o.info['role'] == 'src':
        sev(ip, st, ref, 'write', v)
        return ip.raise_(st, 'io.UnsupportedOperation', 'not writable')
    if t is not None and ((t == 'str') != text or t in ('int', 'NoneType', 'object', 'float')):
        return ip.raise_(st, 'TypeError', 'a %s is required' % ('str' if text else 'bytes-like object'))

    def go(s):
        o = s.get(ref)
        pos, data = o.info['pos'], o.data
        n = bytes_len(v)
        total = bytes_len(data)
        sev(ip, s, ref, 'write', pos, v)
        outs = []
        d = sub(total, pos)
        lo, hi = s.facts.interval(d)
        if d == ZERO or lo == hi == 0:
            m = ip.mut(s, ref)
            m.data = mkbs(tuple(segs_of(data, text)) + tuple(segs_of(v, text)), text)
            m.info['pos'] = add(pos, n)
            return ok(s, n)
        # overwrite in place
        from .models import str_slice
        t = 'str' if text else 'bytes'
        if lo > 0 or lo >= 0:
            res = []
            endw = add(pos, n)
            for s0, sig, head in str_slice(ip, s, data, ZERO, pos, t):
                if sig != 'v':
                    res.append((s0, sig, head))
                    continue
                for s1, past in ip.branch(s0, ip.decide(s0, Op('lt0', (sub(total, endw),), 'bool'))):
                    if past:
                        tails = [(s1, 'v', K('' if text else b''))]
                    else:
                        tails = str_slice(ip, s1, data, endw, total, t)
                    for s2, sig2, tail in tails:
                        m = ip.mut(s2, ref)
                        m.data = mkbs(tuple(segs_of(head, text)) + tuple(segs_of(v, text)) + tuple(segs_of(tail, text)), text)
                        m.info['pos'] = endw
                        res.extend(ok(s2, n))
            return res
        m = ip.mut(s, ref)
        m.data = Op('overwritten', (data, pos, v), t)
        m.info['pos'] = add(pos, n)
        s.doubt('write at an unknown position')
        return ok(s, n)
    f = ip.cfg.get('write_fails')
    res = []
    if f is not None and f(st, ref):
        s3 = st.clone()
        s3.ev('fault', 'write', ref, ip.where())
        res.extend(ip.raise_(s3, 'OSError', 'write error'))
    return check_open(ip, st, ref, go) + res


@smodel('writelines')
def st_writelines(ip, st, c):
    ref = c.args[0]
    return none(iterate(ip, st, c.args[1], lambda s, v: st_write(ip, s, Call([ref, v]))))


@smodel('truncate')
def st_truncate(ip, st, c):
    ref = c.args[0]
    n = A(c, 1, 'size', NONE)
    sev(ip, st, ref, 'truncate', n)
    o = st.get(ref)
    if o.info['role'] == 'src':
        return ip.raise_(st, 'io.UnsupportedOperation', 'truncate')
    n = o.info['pos'] if n == NONE else n
    from .models import str_slice

    def put(s, v):
        ip.mut(s, ref).data = v
        return ok(s, n)
    return ip.bind(str_slice(ip, st, o.data, ZERO, n, 'str' if o.info.get('text') else 'bytes'), put)


@smodel('getvalue', 'getbuffer')
def st_getvalue(ip, st, c):
    return check_open(ip, st, c.args[0], lambda s: ok(s, s.get(c.args[0]).data))


@smodel('close', '__del__')
def st_close(ip, st, c):
    ref = c.args[0]
    sev(ip, st, ref, 'close')
    m = ip.mut(st, ref)
    m.info['closed'] = TRUE
    return ok(st, NONE)


@smodel('__enter__', '__iter__')
def st_enter(ip, st, c):
    return check_open(ip, st, c.args[0], lambda s: ok(s, c.args[0]))


@smodel('__exit__')
def st_exit(ip, st, c):
    return st_close(ip, st, Call([c.args[0]]))


@smodel('flush')
def st_flush(ip, st, c):
    return ok(st, NONE)


@smodel('fileno')
def st_fileno(ip, st, c):
    if st.get(c.args[0]).info['role'] == 'mem':
        return ip.raise_(st, 'io.UnsupportedOperation', 'fileno')
    return ok(st, Op('fileno', (c.args[0],), 'int'))


@smodel('isatty')
def st_isatty(ip, st, c):
    return ok(st, FALSE)


@smodel('readable')
def st_readable(ip, st, c):
    return ok(st, K(st.get(c.args[0]).info['role'] != 'out'))


@smodel('writable')
def st_writable(ip, st, c):
    return ok(st, K(st.get(c.args[0]).info['role'] != 'src'))


@smodel('seekable')
def st_seekable(ip, st, c):
    return ok(st, K(not st.get(c.args[0]).info.get('unseekable')))


@smodel('peek')
def st_peek(ip, st, c):
    ref = c.args[0]
    pos = st.get(ref).info['pos']

    def back(s, v):
        ip.mut(s, ref).info['pos'] = pos
        return ok(s, v)
    return ip.bind(st_read(ip, st, Call([ref] + c.args[1:])), back)


for _n in ('__hash__', '__str__', '__repr__', '__format__', '__reduce__', '__reduce_ex__', '__sizeof__', 'detach'):
    MODELS['stream.' + _n] = (lambda n: lambda ip, st, c: ok(st, Op('streamop', (K(n),) + tuple(c.args), None)))(_n)


@model('shutil.copyfileobj')
def m_copyfileobj(ip, st, c):
    src, dst = A(c, 0, 'fsrc'), A(c, 1, 'fdst')

    def write(s, data):
        return ip.bind(ip.getattr_(s, dst, 'write'), lambda s2, f: ip.bind(ip.call(s2, f, Call([data])), lambda s3, n: ok(s3, NONE)))
    return ip.bind(ip.getattr_(st, src, 'read'), lambda s, f: ip.bind(ip.call(s, f, Call([])), write))


# standard streams
for _n in ('stdout', 'stderr'):
    for _b in ('', '.buffer'):
        def _w(ip, st, c, n=_n + _b):
            st.ev('stdio', n, 'write', tuple(c.args), ip.where())
            return ip.call(st, Ext('builtins.len'), Call([c.args[-1]])) if c.args else ok(st, NONE)
        MODELS['sys.%s%s.write' % (_n, _b)] = _w

        def _wl(ip, st, c, w=_w):
            return ip.bind(ip.iterate(st, c.args[-1], lambda s, v: w(ip, s, Call([v]))), lambda s, v: ok(s, NONE))
        MODELS['sys.%s%s.writelines' % (_n, _b)] = _wl

        def _f(ip, st, c, n=_n + _b):
            return ok(st, NONE)
        MODELS['sys.%s%s.flush' % (_n, _b)] = _f
        MODELS['sys.%s%s.close' % (_n, _b)] = lambda ip, st, c, n=_n + _b: (st.ev('stdio', n, 'close', (), ip.where()), ok(st, NONE))[1]


# ---------------------------------------------------------------------------
# struct
# ---------------------------------------------------------------------------
CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False), 'f': (4, None), 'd': (8, None),
         'e': (2, None), '?': (1, False), 'x': (1, 'pad')}


def parse_fmt(fmt):
    import re
    if not isstr(fmt):
        if isbytes(fmt):
            fmt = K(fmt.v.decode())
        else:
            return None
    s = fmt.v.strip()
    order = '@'
    if s and s[0] in '@=<>!':
        order, s = s[0], s[1:]
    out = []
    for n, code in re.findall(r'(\d*)([a-zA-Z?])', s):
        if code not in CODES:
            return None
        out.extend([code] * (int(n) if n else 1))
    if order in '@=' or order == '<':
        big = all(CODES[x][0] == 1 for x in out)
        if not big:
            return (order, out, False)
    return (order, out, True)


@model('struct.Struct')
def m_struct(ip, st, c):
    return ok(st, Desc('struct', c.args[0]))


def struct_attr(ip, st, o, name):
    if name == 'size':
        f = parse_fmt(o.parts[0])
        if f:
            import struct
            return ok(st, K(struct.calcsize(o.parts[0].v)))
    if name == 'format':
        return ok(st, o.parts[0])
    return ok(st, Bound(Ext('structdesc.' + name), o))


DESC_ATTRS[('struct', '*')] = struct_attr


@model('struct.pack')
def m_pack0(ip, st, c):
    return m_pack(ip, st, Call([Desc('struct', c.args[0])] + c.args[1:]))


@model('struct.unpack')
def m_unpack0(ip, st, c):
    return m_unpack(ip, st, Call([Desc('struct', c.args[0])] + c.args[1:]))


@model('struct.unpack_from')
def m_unpack_from0(ip, st, c):
    return m_unpack_from(ip, st, Call([Desc('struct', c.args[0])] + c.args[1:], c.kw))


@model('struct.calcsize')
def m_calcsize(ip, st, c):
    import struct
    return ok(st, K(struct.calcsize(c.args[0].v))) if isstr(c.args[0]) else ok(st, Op('calcsize', tuple(c.args), 'int'))


def pack_one(ip, st, code, v, fmt):
    w, signed = CODES[code]
    v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    bad = lambda s: ip.raise_(s, 'struct.error', 'cannot pack')
    if signed is None:
        if t in ('str', 'bytes', 'NoneType', 'object', 'tuple', 'list'):
            return bad(st)
        if type(v) is K and isinstance(v.v, (int, float)):
            import struct
            try:
                return ok(st, [Seg('lit', struct.pack('>' + code, v.v))])
            except struct.error:
                return bad(st)
            except OverflowError:
                return ip.raise_(st, 'OverflowError', 'float too large to pack')
        op = Op('packf', (K(w), v), 'bytes')
        if type(v) is Op and v.op == 'unpackf' and v.args[0] == K(w):
            return ok(st, list(segs_of(v.args[1])))
        good = ok(st, [Seg('t', op, K(w))])
        if t == 'float' and w == 8:
            return good
        res = []
        for s, b in ip.branch(st, ip.decide(st, Op('packable', (K(w), v), 'bool'))):
            res.extend(ok(s, [Seg('t', op, K(w))]) if b else (bad(s) if t is None else ip.raise_(
                s, 'OverflowError', 'float too large to pack with f format')))
        return res
    if t in ('str', 'bytes', 'NoneType', 'float', 'object', 'tuple', 'list'):
        return bad(st)
    lo, hi = (-(256 ** w) // 2, 256 ** w // 2 - 1) if signed else (0, 256 ** w - 1)
    res = []
    for s, b in split_range(ip, st, v, lo, hi):
        if not b:
            res.extend(bad(s))
            continue
        for s1, sig, x in pack_int(ip, s, v, w):
            res.append((s1, sig, list(segs_of(x))))
    return res


@model('structdesc.pack')
def m_pack(ip, st, c):
    f = parse_fmt(c.args[0].parts[0])
    vals = c.args[1:]
    if f is None or not f[2]:
        return ok(st, Op('pack', (c.args[0].parts[0],) + tuple(vals), 'bytes'))
    codes = [x for x in f[1]]
    if len([x for x in codes if x != 'x']) != len(vals):
        return ip.raise_(st, 'struct.error', 'wrong number of arguments')
    outs = [(st, 'v', ())]
    it = iter(vals)
    for code in codes:
        if code == 'x':
            outs = ip.bind(outs, lambda s, acc: ok(s, acc + (Seg('lit', b'\0'),)))
            continue
        v = next(it)
        outs = ip.bind(outs, lambda s, acc, code=code, v=v: ip.bind(
            pack_one(ip, s, code, v, None), lambda s2, segs: ok(s2, acc + tuple(segs))))
    return ip.bind(outs, lambda s, acc: ok(s, mkbs(acc)))


def unpack_segs(ip, st, codes, segs):
    outs = [(st, 'v', ())]
    pos = 0
    flat = list(segs)
    for code in codes:
        w, signed = CODES[code]
        # take w bytes
        take = []
        need = w
        while need and flat:
            s = flat[0]
            n = st.facts.simp(s.n)
            if not isint(n):
                return ok(st, Tup([Op('unpack', (mkbs(segs), K(''.join(codes)), K(i)), 'int' if CODES[x][1] is not None else 'float')
                                   for i, x in enumerate(codes)]))
            s = simp_seg(st.facts, s)
            if n.v <= need:
                take.append(flat.pop(0))
                need -= n.v
            else:
                a, b = split_seg(st.facts, s, need)
                if a is None:
                    return ok(st, Tup([Op('unpack', (mkbs(segs), K(''.join(codes)), K(i)), 'int' if CODES[x][1] is not None else 'float')
                                       for i, x in enumerate(codes)]))
                take.append(a)
                flat[0] = b
                need = 0
        if signed == 'pad':
            continue
        if signed is None:
            body = mkbs(take)
            if type(body) is K:
                import struct
                v = K(struct.unpack('>' + code, body.v)[0])
            elif len(take) == 1 and take[0].kind == 't' and type(take[0].a[0]) is Op and take[0].a[0].op == 'packf' \
                    and take[0].a[0].args[0] == K(w) and w == 8:
                v = take[0].a[0].args[1]
            else:
                v = Op('unpackf', (K(w), body), 'float')
            outs = ip.bind(outs, lambda s, acc, v=v: ok(s, acc + (v,)))
            continue
        u = ube_value([simp_seg(st.facts, x) for x in take])
        if u is None:
            v = Op('unpacki', (K(code), mkbs(take)), 'int')
            outs = ip.bind(outs, lambda s, acc, v=v: ok(s, acc + (v,)))
            continue
        u2 = st.facts.simp(u)
        if signed:
            outs = ip.bind(outs, lambda s, acc, u=u2, w=w: ip.bind(to_signed(ip, s, u, w), lambda s2, v: ok(s2, acc + (v,))))
        else:
            outs = ip.bind(outs, lambda s, acc, u=u2: ok(s, acc + (u,)))
    return ip.bind(outs, lambda s, acc: ok(s, Tup(acc)))


def do_unpack(ip, st, desc, data, exact, offset=ZERO):
    f = parse_fmt(desc.parts[0])
    data = deref(st, data)
    t = st.facts.typeof(data) if type(data) is not Ref else 'object'
    if t is not None and t not in ('bytes', 'bytearray'):
        return ip.raise_(st, 'TypeError', 'a bytes-like object is required')
    if f is None or not f[2]:
        return ok(st, Op('unpack', (data, desc.parts[0], offset), 'tuple'))
    w = sum(CODES[x][0] for x in f[1])
    n = bytes_len(data)
    d = sub(n, add(offset, K(w)))
    res = []
    cnd = Op('not', (Op('eq0', (d,), 'bool'),), 'bool') if exact else Op('lt0', (d,), 'bool')
    for s, bad in ip.branch(st, ip.decide(st, cnd)):
        if bad:
            res.extend(ip.raise_(s, 'struct.error', 'unpack requires a buffer of %d bytes' % w))
            continue
        from .models import str_slice
        for s1, sig, v in (str_slice(ip, s, data, offset, add(offset, K(w)), 'bytes') if not exact or offset != ZERO else ok(s, data)):
            segs = mkbs_segs(s1, segs_of(v))
            # an opaque value of known total length
            if len(segs) == 1 and segs[0].kind == 't' and not isint(s1.facts.simp(segs[0].n)):
                segs = (Seg('t', segs[0].a[0], K(w)),)
            elif len(segs) == 1 and segs[0].kind == 'rd' and not isint(s1.facts.simp(segs[0].n)):
                segs = (Seg('rd', segs[0].a[0], segs[0].a[1], K(w)),)
            res.extend(unpack_segs(ip, s1, f[1], segs))
    return res


@model('structdesc.unpack')
def m_unpack(ip, st, c):
    return do_unpack(ip, st, c.args[0], c.args[1], True)


@model('structdesc.unpack_from')
def m_unpack_from(ip, st, c):
    return do_unpack(ip, st, c.args[0], A(c, 1, 'buffer'), False, A(c, 2, 'offset', ZERO))


@model('structdesc.iter_unpack')
def m_iter_unpack(ip, st, c):
    return ok(st, Op('iter_unpack', tuple(c.args), None))


# ---------------------------------------------------------------------------
# datetime
# ---------------------------------------------------------------------------

@model('datetime.datetime')
def m_datetime(ip, st, c):
    kw = {k: v for k, v in c.kw.items() if not (k == 'tzinfo' and v == NONE)}
    r = fold_const(ip, st, 'datetime.datetime', Call(c.args, kw))
    if r is not None:
        return r
    return ok(st, Op('mkdate', argterms(Call(c.args, kw)), 'datetime.datetime'))


@model('datetime.timedelta')
def m_timedelta(ip, st, c):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    mult = {'days': DAY, 'seconds': US, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * US, 'hours': 3600 * US,
            'weeks': 7 * DAY}
    vals = dict(zip(names, c.args))
    vals.update(c.kw)
    r = fold_const(ip, st, 'datetime.timedelta', c)
    if r is not None:
        return r
    us = ZERO
    for k, v in vals.items():
        v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
        t = st.facts.typeof(v) if type(v) is not Ref else 'object'
        if t in ('str', 'NoneType', 'bytes', 'object'):
            return ip.raise_(st, 'TypeError', 'unsupported type for timedelta component')
        if t not in ('int', 'bool'):
            if type(v) is K and isinstance(v.v, float) and (v.v * mult[k]).is_integer():
                v = K(int(v.v * mult[k]))
                us = add(us, v)
                continue
            return ok(st, Op('tdelta', argterms(c), 'datetime.timedelta'))
        us = add(us, scale(v, mult[k]))
    return ok(st, mktd(us))


def td_attr(ip, st, o, name):
    us = td_us(o)
    if us is None:
        return ok(st, Op({'days': 'tddays', 'seconds': 'tdsecs', 'microseconds': 'tdmicros'}.get(name, 'attr'), (o, name) if name not in (
            'days', 'seconds', 'microseconds') else (o,), 'int' if name in ('days', 'seconds', 'microseconds') else None)) \
            if name != 'total_seconds' else ok(st, Bound(Ext('td.total_seconds'), o))
    if name in ('days', 'seconds', 'microseconds'):
        d, s, u = td_parts(st, us)
        return ok(st, {'days': d, 'seconds': s, 'microseconds': u}[name])
    if name == 'total_seconds':
        return ok(st, Bound(Ext('td.total_seconds'), o))
    return ip.raise_(st, 'AttributeError', name)


DESC_ATTRS[('td', '*')] = td_attr
for _n in ('days', 'seconds', 'microseconds', 'total_seconds'):
    VALUE_ATTRS[('datetime.timedelta', _n)] = td_attr
    VALUE_ATTRS[('timedelta', _n)] = td_attr


@model('td.total_seconds', 'datetime.timedelta.total_seconds')
def m_total_seconds(ip, st, c):
    us = td_us(c.args[0])
    if isint(us or NONE):
        return ok(st, K(us.v / 1e6))
    return ok(st, Op('total_seconds', (us if us is not None else c.args[0],), 'float'))


def dt_attr(ip, st, o, name):
    if name == 'tzinfo':
        if type(o) is Desc:
            return ok(st, NONE)
        return ok(st, Op('attr', (o, 'tzinfo'), None))
    po = pyobj('datetime.datetime.' + name)
    if po is None:
        return ip.raise_(st, 'AttributeError', name)
    if callable(po):
        return ok(st, Bound(Ext('datetime.datetime.' + name), o))
    return ok(st, Op('attr', (o, name), 'int'))


DESC_ATTRS[('dt', '*')] = dt_attr
VALUE_ATTRS[('datetime.datetime', 'tzinfo')] = dt_attr
for _n in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
    VALUE_ATTRS[('datetime.datetime', _n)] = dt_attr


@model('datetime.datetime.utcnow', 'datetime.datetime.now', 'datetime.datetime.today')
def m_now(ip, st, c):
    st.ev('now', ip.where())
    return ok(st, Op('now', (K(len(st.event_list())),), 'datetime.datetime'))


@model('datetime.datetime.fromisoformat')
def m_fromiso(ip, st, c):
    v = c.args[-1]
    if isstr(v):
        return fold_const(ip, st, 'datetime.datetime.fromisoformat', Call([v]))
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    if t not in ('str', None):
        return ip.raise_(st, 'TypeError', 'fromisoformat: argument must be str')
    if type(v) is Op and v.op == 'str' and (type(v.args[0]) is Desc and v.args[0].kind == 'dt' or
                                            st.facts.typeof(v.args[0]) == 'datetime.datetime'):
        return ok(st, v.args[0])
    if type(v) is Op and v.op == 'isoformat' and len(v.args) == 1:
        return ok(st, v.args[0])
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('isiso', (v,), 'bool'))):
        res.extend(ok(s, Op('fromiso', (v,), 'datetime.datetime')) if b else ip.raise_(s, 'ValueError', 'Invalid isoformat string'))
    return res


@model('datetime.datetime.isoformat')
def m_isoformat(ip, st, c):
    if len(c.args) == 2 and c.args[1] == K(' '):
        return ok(st, Op('str', (c.args[0],), 'str'))
    return ok(st, Op('isoformat', argterms(c), 'str'))


# ---------------------------------------------------------------------------
# Paths and the operating system
# ---------------------------------------------------------------------------

PATHQ = {'os.path.exists': 'exists', 'os.path.isfile': 'isfile', 'os.path.isdir': 'isdir', 'os.path.lexists': 'exists'}


def pathq(op):
    def m(ip, st, c):
        p = path_text(st, c.args[0])
        f = ip.cfg.get('pathq')
        if f is not None:
            r = f(st, op, p)
            if r is not None:
                return ok(st, K(r))
        st.ev('pathq', op, p, ip.where())
        return ok(st, Op(op, (p,), 'bool'))
    return m


for _k, _v in PATHQ.items():
    MODELS[_k] = pathq(_v)


def pathf(op, pure):
    def m(ip, st, c):
        p = path_text(st, c.args[0])
        t = st.facts.typeof(p) if type(p) is not Ref else 'object'
        if t in ('NoneType', 'int', 'float', 'object', 'tuple'):
            return ip.raise_(st, 'TypeError', 'expected str, bytes or os.PathLike object')
        if pure:
            r = fold_const(ip, st, 'os.path.' + op, Call([p]))
            if r is not None:
                return r
        if op == 'basename' and type(p) is Op and p.op == 'join':
            return m(ip, st, Call([p.args[-1]]))
        if op == 'dirname' and type(p) is Op and p.op == 'join' and len(p.args) == 2:
            return ok(st, p.args[0])
        if op == 'basename' and isstr(p):
            return fold_const(ip, st, 'os.path.basename', Call([p]))
        if isstr(p) and (op == 'expanduser' and not p.v.startswith('~') or op == 'abspath' and p.v.startswith('/')
                         and os.path.normpath(p.v) == p.v or op == 'realpath' and ip.cfg.get('plainfs')
                         and p.v.startswith('/') and os.path.normpath(p.v) == p.v):
            return ok(st, p)
        if isstr(p) and op == 'expanduser' and ip.cfg.get('home') and p.v.split('/')[0] == '~':
            return ok(st, K(ip.cfg['home'] + p.v[1:]))
        if isstr(p) and op in ('abspath', 'realpath') and ip.cfg.get('cwd') and not p.v.startswith('~'):
            return ok(st, K(os.path.normpath(os.path.join(ip.cfg['cwd'], p.v))))
        if op in ('realpath', 'abspath', 'normpath', 'expanduser'):
            if type(p) is Op and p.op == op:
                return ok(st, p)
        return ok(st, Op(op, (p,), 'str'))
    return m


for _n, _p in (('realpath', 0), ('abspath', 0), ('normpath', 1), ('expanduser', 0), ('basename', 1), ('dirname', 1),
               ('expandvars', 0), ('normcase', 1)):
    MODELS['os.path.' + _n] = pathf(_n, _p)


@model('os.path.join')
def m_join(ip, st, c):
    return ok(st, path_join(ip, st, *c.args))


@model('os.path.splitext', 'os.path.split')
def m_splitext(ip, st, c):
    p = path_text(st, c.args[0])
    n = 'split' if getattr(ip.cur, 'func', None) is not None and getattr(ip.cur.func, 'attr', '') == 'split' else 'splitext'
    r = fold_const(ip, st, 'os.path.' + n, Call([p]))
    if r is not None:
        return r
    t = st.facts.typeof(p) if type(p) is not Ref else 'object'
    if t in ('NoneType', 'int', 'float', 'object', 'tuple'):
        return ip.raise_(st, 'TypeError', 'expected str, bytes or os.PathLike object')
    return ok(st, Tup([Op('item', (Op(n, (p,)), ZERO), 'str'), Op('item', (Op(n, (p,)), ONE), 'str')]))


@model('os.path.getsize')
def m_getsize(ip, st, c):
    p = path_text(st, c.args[0])
    if 'filedata' in ip.cfg:
        d = ip.cfg['filedata'](st, p)
        if d is not None:
            return ok(st, bytes_len(d))
    # the size of a file is the end of its contents
    return ok(st, Op('end', (Op('file', (p,)),), 'int'))


@model('os.path.isabs')
def m_isabs(ip, st, c):
    p = path_text(st, c.args[0])
    return fold_const(ip, st, 'os.path.isabs', Call([p])) or ok(st, Op('isabs', (p,), 'bool'))


@model('os.fspath')
def m_fspath(ip, st, c):
    return ok(st, path_text(st, c.args[0]))


@model('os.getcwd')
def m_getcwd(ip, st, c):
    if ip.cfg.get('cwd'):
        return ok(st, K(ip.cfg['cwd']))
    return ok(st, Op('cwd', (), 'str'))


@model('os.environ.get', 'os.getenv')
def m_environ(ip, st, c):
    # The environment is taken to be empty, as during the test suite.
    e = ip.cfg.get('env')
    k = A(c, 0, 'key')
    if e and isstr(k) and k.v in e:
        return ok(st, e[k.v])
    return ok(st, A(c, 1, 'default', NONE))


for _n in ('remove', 'unlink', 'rename', 'replace', 'rmdir', 'mkdir', 'makedirs', 'truncate', 'chmod', 'chdir', 'symlink'):
    MODELS['os.' + _n] = (lambda n: lambda ip, st, c: (st.ev('fs', n, argterms(c), ip.where()), ok(st, NONE))[1])(_n)
for _n in ('copy', 'copyfile', 'move', 'rmtree', 'copy2'):
    MODELS['shutil.' + _n] = (lambda n: lambda ip, st, c: (st.ev('fs', n, argterms(c), ip.where()), ok(st, NONE))[1])(_n)


@model('os.listdir')
def m_listdir(ip, st, c):
    p = path_text(st, c.args[0]) if c.args else K('.')
    src = Op('listdir', (p,))
    names = ip.cfg.get('iterdir')
    if names is not None:
        r = names(st, p)
        if r is not None:
            return ok(st, ip.alloc(st, Obj('list', data=tuple(K(x) for x in r))))
    return ok(st, ip.alloc(st, Obj('list', data=(), info={'opaque': src, 'itemof': lambda i_, s, i: Op('item', (src, i), 'str')})))


@model('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath')
def m_path(ip, st, c):
    for a in c.args:
        t = st.facts.typeof(a) if type(a) not in (Ref, Desc) else None
        if t in ('NoneType', 'int', 'float', 'bytes', 'tuple') or type(a) is Ref and st.get(a).kind != 'opaque':
            return ip.raise_(st, 'TypeError', 'expected str, bytes or os.PathLike object')
    return ok(st, mkpath(path_join(ip, st, *c.args)))


MODELS['pathlib._local.Path'] = m_path


def path_attr(ip, st, o, name):
    p = o.parts[0]
    if name == 'name':
        return MODELS['os.path.basename'](ip, st, Call([p]))
    if name == 'parent':
        return [(s, g, mkpath(v) if g == 'v' else v) for s, g, v in MODELS['os.path.dirname'](ip, st, Call([p]))]
    if name in ('stem', 'suffix'):
        if isstr(p):
            return ok(st, K(getattr(pathlib.PurePosixPath(p.v), name)))
        q = p.args[-1] if type(p) is Op and p.op == 'join' else p
        return ok(st, Op(name, (q,), 'str'))
    if name == 'parts' and isstr(p):
        return ok(st, Tup([K(x) for x in pathlib.PurePosixPath(p.v).parts]))
    if name == 'parts':
        return ok(st, Op('parts', (p,), 'tuple'))
    return ok(st, Bound(Ext('path.' + name), o))


DESC_ATTRS[('path', '*')] = path_attr


def pmodel(*names):
    return model(*['path.' + n for n in names])


MODELS['path.exists'] = pathq('exists')
MODELS['path.is_file'] = pathq('isfile')
MODELS['path.is_dir'] = pathq('isdir')


def ppath(fn):
    def m(ip, st, c):
        return [(s, g, mkpath(v) if g == 'v' else v) for s, g, v in MODELS['os.path.' + fn](ip, st, Call([c.args[0]]))]
    return m


for _a, _b in (('absolute', 'abspath'), ('resolve', 'realpath'), ('expanduser', 'expanduser')):
    MODELS['path.' + _a] = ppath(_b)


@pmodel('joinpath', '__truediv__')
def p_join(ip, st, c):
    return ok(st, mkpath(path_join(ip, st, *c.args)))


@pmodel('open')
def p_open(ip, st, c):
    return with_encoding(open_path(ip, st, c.args[0], A(c, 1, 'mode', K('r')), 'io.TextIOWrapper'), A(c, 3, 'encoding', NONE))


@pmodel('with_suffix', 'with_name', 'relative_to', 'with_stem')
def p_with(ip, st, c):
    return ok(st, mkpath(Op('pathop', tuple(path_text(st, a) for a in c.args), 'str')))


@pmodel('as_posix', '__str__', '__fspath__')
def p_str(ip, st, c):
    return ok(st, c.args[0].parts[0])


@pmodel('iterdir', 'glob')
def p_iterdir(ip, st, c):
    p = c.args[0].parts[0]
    src = Op('iterdir', (p,) + tuple(c.args[1:]))
    names = ip.cfg.get('iterdir')
    if names is not None:
        r = names(st, p)
        if r is not None and len(c.args) > 1:
            import fnmatch
            if not isstr(c.args[1]) or '/' in c.args[1].v or '**' in c.args[1].v:
                r = None
            else:
                r = [x for x in r if fnmatch.fnmatchcase(x, c.args[1].v)]
        if r is not None:
            return ok(st, Tup([mkpath(path_join(ip, st, p, K(x))) for x in r]))
    ref = ip.alloc(st, Obj('list', data=(), info={'opaque': src, 'itemof': lambda i_, s, i: mkpath(
        Op('join', (p, Op('item', (src, i), 'str')), 'str'))}))
    return ok(st, ref)


@pmodel('read_bytes', 'read_text', 'stat')
def p_readb(ip, st, c):
    return ok(st, Op('fileread', (c.args[0].parts[0],), None))


def p_writer(text):
    def w(ip, st, c):
        outs = open_path(ip, st, c.args[0], K('w' if text else 'wb'), 'io.TextIOWrapper')
        if text:
            with_encoding(outs, A(c, 2, 'encoding', NONE))

        def write(s, ref):
            def shut(s2, n):
                return ip.bind(st_close(ip, s2, Call([ref])), lambda s3, _: ok(s3, n))
            return ip.bind(st_write(ip, s, Call([ref, A(c, 1, 'data')])), shut)
        return ip.bind(outs, write)
    return w


MODELS['path.write_text'] = p_writer(True)
MODELS['path.write_bytes'] = p_writer(False)


@pmodel('unlink', 'touch', 'rename', 'replace', 'mkdir', 'rmdir')
def p_fs(ip, st, c):
    st.ev('fs', 'path', argterms(c), ip.where())
    return ok(st, NONE)


@model('importlib.resources.files')
def m_files(ip, st, c):
    a = c.args[0]
    if type(a) is Ref and st.get(a).kind == 'module':
        a = K(st.get(a).info['name'])
    h = ip.cfg.get('resources')
    if h is not None:
        r = h(st, a)
        if r is False:
            return ip.raise_(st, 'ModuleNotFoundError', 'No module named')
        if r is not None:
            return ok(st, mkpath(K(r)))
    return ok(st, mkpath(Op('resources', (a,), 'str')))


@model('importlib.resources.as_file')
def m_as_file(ip, st, c):
    return ok(st, Gen('nullcontext', c.args[0]))


@model('importlib.import_module')
def m_import_module(ip, st, c):
    if isstr(c.args[0]) and c.args[0].v.split('.')[0] == ip.package:
        try:
            return ok(st, ip.import_module(st, c.args[0].v))
        except AnalysisError:
            return ip.raise_(st, 'ModuleNotFoundError', c.args[0])
    h = ip.cfg.get('import_module')
    if h is not None:
        r = h(ip, st, c.args[0])
        if r is not None:
            return r
    return ok(st, Op('module', (c.args[0],), None))


@model('tempfile.mktemp', 'tempfile.mkdtemp')
def m_mktemp(ip, st, c):
    st.ev('tempname', ip.where())
    return ok(st, Op('tempname', (K(len(st.event_list())),), 'str'))


@model('tempfile.mkstemp')
def m_mkstemp(ip, st, c):
    n = K(len(st.event_list()))
    return ok(st, Tup([Op('fd', (n,), 'int'), Op('tempname', (n,), 'str')]))


@model('tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'tempfile.SpooledTemporaryFile')
def m_tempfile(ip, st, c):
    mode = A(c, 0, 'mode', K('w+b'))
    return ok(st, new_stream(ip, st, 'out', 'io.BufferedRandom', mode=mode, name=Op('tempname', (K(ip.oidn),), 'str'),
                             text=isstr(mode) and 'b' not in mode.v))


# ---------------------------------------------------------------------------
# ElementTree
# ---------------------------------------------------------------------------

def new_xml(ip, st, tag, attrib=(), text=NONE, children=(), keytypes=None):
    d = ip.alloc(st, Obj('dict', data=tuple((K(k) if isinstance(k, str) else k, K(v) if isinstance(v, str) else v)
                                            for k, v in attrib)), 'attrib')
    t = K(tag) if isinstance(tag, str) else tag
    return ip.alloc(st, Obj('xml', Ext('xml.etree.ElementTree.Element'),
                            {'tag': t, 'text': text, 'tail': NONE, 'attrib': d}, data=tuple(children)), 'xml')


@model('xml.etree.ElementTree.Element')
def m_et_element(ip, st, c):
    tag, attrib = A(c, 0, 'tag'), A(c, 1, 'attrib')
    x = new_xml(ip, st, tag)
    d = st.get(x).attrs['attrib']
    outs = [(st, 'v', None)]
    if attrib is not None and attrib != NONE:
        outs = dict_update(ip, st, d, attrib)
    for k, v in c.kw.items():
        if k not in ('tag', 'attrib'):
            outs = ip.bind(outs, lambda s, _, k=k, v=v: dict_set(ip, s, d, K(k), v, quiet=True))
    return ip.bind(outs, lambda s, _: ok(s, x))


@model('xml.etree.ElementTree.SubElement')
def m_et_sub(ip, st, c):
    parent = c.args[0]

    def go(s, x):
        if type(parent) is Ref and s.get(parent).kind == 'xml':
            m = ip.mut(s, parent, 'append', x)
            m.data = m.data + (x,)
        else:
            s.ev('omut', parent, 'append', ip.where(), K('sub'), x)
        return ok(s, x)
    return ip.bind(m_et_element(ip, st, Call(c.args[1:], c.kw)), go)


def xmodel(*names):
    return model(*['etree.' + n for n in names])


@xmodel('get')
def x_get(ip, st, c):
    ref, k = c.args[:2]
    d = st.get(ref).attrs['attrib']
    return MODELS['builtins.dict.get'](ip, st, Call([d, k, A(c, 2, 'default', NONE)]))


@xmodel('set')
def x_set(ip, st, c):
    ref, k, v = c.args
    st.ev('mut', ref, 'setattrib', ip.where(), k, v)
    return none(dict_set(ip, st, st.get(ref).attrs['attrib'], k, v, quiet=True))


@xmodel('items', 'keys')
def x_items(ip, st, c):
    return ok(st, Desc('dictitems', st.get(c.args[0]).attrs['attrib']))


MODELS['etree.keys'] = lambda ip, st, c: ok(st, Desc('dictkeys', st.get(c.args[0]).attrs['attrib']))


@xmodel('append')
def x_append(ip, st, c):
    m = ip.mut(st, c.args[0], 'append', c.args[1])
    m.data = m.data + (c.args[1],)
    return ok(st, NONE)


@xmodel('insert')
def x_insert(ip, st, c):
    ref, i, v = c.args
    m = ip.mut(st, ref, 'insert', v)
    d = list(m.data)
    d.insert(i.v if isint(i) else len(d), v)
    m.data = tuple(d)
    return ok(st, NONE)


@xmodel('extend')
def x_extend(ip, st, c):
    def go(s, its):
        m = ip.mut(s, c.args[0], 'extend')
        m.data = m.data + tuple(its)
        return ok(s, NONE)
    return ip.bind(to_items(ip, st, c.args[1]), go)


@xmodel('remove')
def x_remove(ip, st, c):
    m = ip.mut(st, c.args[0], 'remove', c.args[1])
    m.data = tuple(x for x in m.data if x != c.args[1])
    return ok(st, NONE)


@xmodel('clear')
def x_clear(ip, st, c):
    ip.mut(st, c.args[0], 'clear').data = ()
    return ok(st, NONE)


@xmodel('__len__')
def x_len(ip, st, c):
    return MODELS['builtins.len'](ip, st, c)


def x_descend(st, x, self_):
    out = [x] if self_ else []
    for k in st.get(x).data:
        if type(k) is Ref and st.get(k).kind == 'xml':
            out.extend(x_descend(st, k, True))
    return out


def x_filter(ip, st, xs, tag, first):
    """ Children with a tag. """
    states = [(st, [])]
    out = []
    for x in xs:
        nxt = []
        for s, acc in states:
            if first and acc:
                nxt.append((s, acc))
                continue
            if tag in (None, NONE, K('*')):
                nxt.append((s, acc + [x]))
                continue
            for s2, b in ip.branch(s, ip.eq_cond(s, s.get(x).attrs['tag'], tag)):
                nxt.append((s2, acc + [x] if b else acc))
        states = nxt
    return states


@xmodel('findall', 'iterfind')
def x_findall(ip, st, c):
    o = st.get(c.args[0])
    if isstr(c.args[1]) and any(ch in c.args[1].v for ch in './[@'):
        if c.args[1].v.startswith('.//'):
            xs, tag = x_descend(st, c.args[0], False), K(c.args[1].v[3:])
        else:
            st.doubt('XPath')
            return ok(st, Op('findall', tuple(c.args), None))
    else:
        xs, tag = list(o.data), c.args[1]
    if any(is_rep(x) for x in xs) or o.info.get('opaque'):
        st.doubt('findall in unknown children')
        return ok(st, Op('findall', tuple(c.args), None))
    return [(s, 'v', ip.alloc(s, Obj('list', data=tuple(acc)))) for s, acc in x_filter(ip, st, xs, tag, False)]


@xmodel('find')
def x_find(ip, st, c):
    o = st.get(c.args[0])
    return [(s, 'v', acc[0] if acc else NONE) for s, acc in x_filter(ip, st, list(o.data), c.args[1], True)]


@xmodel('iter')
def x_iter(ip, st, c):
    tag = A(c, 1, 'tag', NONE)
    return [(s, 'v', Tup(acc)) for s, acc in x_filter(ip, st, x_descend(st, c.args[0], True), tag, False)]


@xmodel('__iter__')
def x_iter2(ip, st, c):
    return MODELS['builtins.iter'](ip, st, c)


def parse_xml(ip, st, c, what):
    src = c.args[0]
    st.ev('xmlparse', src, ip.where())
    if type(src) is Ref and st.get(src).kind == 'stream':
        if st.get(src).info.get('closed') == TRUE:
            return ip.raise_(st, 'ValueError', 'I/O operation on closed file')
        sev(ip, st, src, 'read', st.get(src).info['pos'], NONE)
    res = []
    f = ip.cfg.get('xmlfails')
    fails = f(st, src) if f is not None else None
    if fails:
        s2 = st.clone()
        s2.ev('fault', 'xmlparse', src, ip.where())
        res.extend(ip.raise_(s2, 'xml.etree.ElementTree.ParseError', 'not well-formed'))
        if fails == 'only':
            return res
    h = ip.cfg.get('xmlparse')
    root = h(ip, st, src) if h is not None else None
    if root is None:
        x = path_text(st, src)
        root = ip.alloc(st, Obj('opaque', Ext('opaque.xml'), info={'src': x}), 'xmlroot')
    if what == 'root':
        return ok(st, root) + res
    return ok(st, ip.alloc(st, Obj('ext', Ext('xml.etree.ElementTree.ElementTree'), info={'type': 'ettree', 'root': root}))) + res


@model('xml.etree.ElementTree.parse')
def m_et_parse(ip, st, c):
    return parse_xml(ip, st, c, 'tree')


@model('xml.etree.ElementTree.fromstring', 'xml.etree.ElementTree.XML')
def m_et_fromstring(ip, st, c):
    return parse_xml(ip, st, c, 'root')


@model('xml.etree.ElementTree.ElementTree')
def m_et_tree(ip, st, c):
    return ok(st, ip.alloc(st, Obj('ext', Ext('xml.etree.ElementTree.ElementTree'),
                                   info={'type': 'ettree', 'root': A(c, 0, 'element', NONE)})))


@model('ettree.getroot')
def m_getroot(ip, st, c):
    return ok(st, st.get(c.args[0]).info['root'])


for _n in ('find', 'findall', 'iter', 'iterfind'):
    MODELS['ettree.' + _n] = (lambda n: lambda ip, st, c: ip.bind(
        ip.getattr_(st, st.get(c.args[0]).info['root'], n), lambda s, f: ip.call(s, f, Call(c.args[1:], c.kw))))(_n)


@model('ettree.write')
def m_et_write(ip, st, c):
    st.ev('serialize', st.get(c.args[0]).info['root'], tuple(c.args[1:]), tuple(sorted(c.kw.items())), ip.where())
    dest = A(c, 1, 'file_or_filename')
    if type(dest) is not Ref:
        st.ev('open', NONE, path_text(st, dest), K('w'), 'ET.write', ip.where())
    return ok(st, NONE)


@model('xml.etree.ElementTree.tostring')
def m_tostring(ip, st, c):
    enc = A(c, 1, 'encoding', NONE)
    x = c.args[0]
    st.ev('serialize', x, (enc,), tuple(sorted(c.kw.items())), ip.where())
    f = ip.cfg.get('serializable')
    if f is not None:
        bad = f(ip, st, x)
        if bad is not None:
            return ip.raise_(st, 'TypeError', 'cannot serialize %s' % (bad,))
    return ok(st, Op('tostring', (x, enc), 'str' if enc == K('unicode') else 'bytes'))


@model('xml.dom.minidom.parseString')
def m_parseString(ip, st, c):
    return ok(st, ip.alloc(st, Obj('ext', Ext('opaque.minidom'), info={'type': 'minidom', 'src': c.args[0]}), 'minidom'))


def dom_text(st, c, encoding):
    t = Op('domtext', (st.get(c.args[0]).info['src'],), 'str')
    return t if encoding is None or encoding == NONE else Op('encodestr', (t, encoding), 'bytes')


@model('minidom.writexml')
def m_writexml(ip, st, c):
    # the text is written as it is; the encoding is only declared
    return ip.bind(ip.getattr_(st, A(c, 1, 'writer'), 'write'),
                   lambda s, f: ip.bind(ip.call(s, f, Call([dom_text(s, c, None)])), lambda s2, v: ok(s2, NONE)))


@model('minidom.toxml', 'minidom.toprettyxml')
def m_toxml(ip, st, c):
    return ok(st, dom_text(st, c, c.kw.get('encoding')))


@model('minidom.unlink', 'minidom.normalize', 'minidom.__enter__', 'minidom.__exit__')
def m_dom_unlink(ip, st, c):
    return ok(st, NONE)


# ---------------------------------------------------------------------------
# threading
# ---------------------------------------------------------------------------

def cur_ident(ip, st):
    return st.ctx.get('thread', K(1))


@model('threading.current_thread')
def m_current_thread(ip, st, c):
    return ok(st, st.ctx.get('threadref', Desc('thread', cur_ident(ip, st))))


@model('threading.get_ident', 'threading.get_native_id')
def m_get_ident(ip, st, c):
    return ok(st, cur_ident(ip, st))


def thread_attr(ip, st, o, name):
    if name in ('ident', 'native_id'):
        return ok(st, o.parts[0])
    if name == 'name':
        return ok(st, Op('threadname', (o.parts[0],), 'str'))
    return ok(st, Bound(Ext('thread.' + name), o))


def new_thread(ip, st, ident, name):
    """ A particular thread; identifiers and names need not be unique. """
    def getattr_(ip, s, o, n):
        if n in ('ident', 'native_id'):
            return ok(s, ident)
        if n in ('name', 'getName'):
            return ok(s, name)
        if n in ('is_alive', 'isAlive', 'daemon'):
            return ok(s, Bound(Ext('thread.' + n), o))
        return None
    return ip.alloc(st, Obj('ext', Ext('threading.Thread'), info={'getattr': getattr_}), 'thread')


def run_as(st, thread, ident):
    st.ctx = dict(st.ctx, thread=ident, threadref=thread)


DESC_ATTRS[('thread', '*')] = thread_attr


@model('threading.Event')
def m_event(ip, st, c):
    return ok(st, ip.alloc(st, Obj('ext', Ext('threading.Event'), info={'type': 'tevent', 'flag': FALSE}), 'event'))


def ev_op(name):
    def m(ip, st, c):
        ref = c.args[0]
        st.ev('sync', name, ref, tuple(c.args[1:]), ip.where())
        if name in ('set', 'clear'):
            ip.mut(st, ref).info['flag'] = K(name == 'set')
            return ok(st, NONE)
        f = st.get(ref).info['flag']
        if name == 'is_set':
            return ok(st, f)
        # wait(): True when set; with a timeout it may return False
        if f == TRUE:
            return ok(st, TRUE)
        f2 = ip.cfg.get('interrupt_wait')
        return ok(st, Op('waited', (ref, K(len(st.event_list()))), 'bool'))
    return m


for _n in ('set', 'clear', 'wait', 'is_set'):
    MODELS['tevent.' + _n] = ev_op(_n)


@model('threading.Lock', 'threading.RLock', 'threading.Semaphore', 'threading.Condition', 'threading.BoundedSemaphore')
def m_lock(ip, st, c):
    return ok(st, ip.alloc(st, Obj('ext', Ext('threading.Lock'), info={'type': 'tlock', 'held': ZERO}), 'lock'))


def lock_op(name, delta):
    def m(ip, st, c):
        ref = c.args[0]
        st.ev('sync', name, ref, tuple(c.args[1:]), ip.where())
        o = ip.mut(st, ref)
        o.info['held'] = add(o.info['held'], K(delta))
        return ok(st, TRUE if name == 'acquire' else NONE)
    return m


for _n, _nm, _d in (('acquire', 'acquire', 1), ('release', 'release', -1), ('__enter__', 'acquire', 1), ('__exit__', 'release', -1)):
    MODELS['tlock.' + _n] = lock_op(_nm, _d)
MODELS['tlock.locked'] = lambda ip, st, c: ok(st, Op('not', (Op('eq0', (st.get(c.args[0]).info['held'],), 'bool'),), 'bool'))
for _n in ('wait', 'notify', 'notify_all', 'wait_for'):
    MODELS['tlock.' + _n] = (lambda n: lambda ip, st, c: (st.ev('sync', n, c.args[0], (), ip.where()), ok(st, NONE))[1])(_n)


@model('threading.local')
def m_local(ip, st, c):
    # Per-thread attributes: a namespace per current thread.
    return ok(st, ip.alloc(st, Obj('ext', Ext('threading.local'), info={'type': 'tlocal', 'spaces': ()}), 'threadlocal'))


# ---------------------------------------------------------------------------
# contextlib, functools, etc.
# ---------------------------------------------------------------------------

@model('contextlib.contextmanager')
def m_ctxmgr(ip, st, c):
    return ok(st, Desc('ctxfactory', c.args[0]))


@model('desccall.ctxfactory')
def m_ctxcall(ip, st, c):
    f = c.args[0].parts[0]
    return ip.bind(ip.call(st, f, Call(c.args[1:], c.kw, c.star, c.dstar)), lambda s, g: ok(s, Gen('ctxmgr', g)))


@model('contextlib.closing')
def m_closing(ip, st, c):
    return ok(st, Gen('closing', c.args[0]))


@model('contextlib.suppress')
def m_suppress(ip, st, c):
    return ok(st, Gen('suppress', *c.args))


@model('contextlib.nullcontext')
def m_nullcontext(ip, st, c):
    return ok(st, Gen('nullcontext', A(c, 0, 'enter_result', NONE)))


@model('functools.partial')
def m_partial(ip, st, c):
    return ok(st, Desc('partial', c.args[0], tuple(c.args[1:]), tuple(sorted(c.kw.items()))))


@model('functools.wraps')
def m_wraps(ip, st, c):
    return ok(st, Desc('identity', c.args[0]))


@model('desccall.identity')
def m_identity(ip, st, c):
    return ok(st, c.args[1])


@model('functools.lru_cache', 'functools.cache')
def m_lru(ip, st, c):
    if c.args and type(c.args[0]) is Fn:
        return ok(st, Desc('memo', c.args[0]))
    return ok(st, Desc('memofactory'))


@model('desccall.memofactory')
def m_memof(ip, st, c):
    return ok(st, Desc('memo', c.args[1]))


@model('desccall.memo')
def m_memo(ip, st, c):
    # memoised results are shared between calls
    f = c.args[0].parts[0]
    key = ('memo', f.uid, tuple(c.args[1:]), tuple(sorted(c.kw.items())))
    if key in st.ctx:
        return ok(st, st.ctx[key])
    for k, v in st.ctx.items():
        # equal arguments of other types find the same entry
        if isinstance(k, tuple) and k[:2] == key[:2] and len(k[2]) == len(key[2]) and [n for n, _ in k[3]] == [n for n, _ in key[3]] and \
                all(x == y or type(x) is K and type(y) is K and x.v == y.v
                    for x, y in zip(k[2] + tuple(v for _, v in k[3]), key[2] + tuple(v for _, v in key[3]))):
            return ok(st, v)

    def put(s, v):
        s.ctx[key] = v
        s.ev('memo', f.qual, ip.where())
        return ok(s, v)
    return ip.bind(ip.call(st, f, Call(c.args[1:], c.kw, c.star, c.dstar)), put)


@model('functools.cached_property')
def m_cached_property(ip, st, c):
    return ok(st, Desc('cached_property', c.args[0]))


@model('functools.reduce')
def m_reduce(ip, st, c):
    def go(s, its):
        its = list(its)
        if any(is_rep(x) for x in its):
            s.doubt('reduce')
            return ok(s, Op('reduce', (Tup(its),), None))
        if len(c.args) > 2:
            its = [c.args[2]] + its
        if not its:
            return ip.raise_(s, 'TypeError', 'reduce() of empty iterable')
        outs = [(s, 'v', its[0])]
        for x in its[1:]:
            outs = ip.bind(outs, lambda s1, acc, x=x: ip.call(s1, c.args[0], Call([acc, x])))
        return outs
    return ip.bind(to_items(ip, st, c.args[1]), go)


@model('operator.attrgetter')
def m_attrgetter(ip, st, c):
    return ok(st, Desc('attrgetter', *c.args))


def each(ip, st, keys, get):
    """ One result, or a tuple of several. """
    if len(keys) == 1:
        return get(st, keys[0])

    def go(s, done, i):
        if i == len(keys):
            return ok(s, Tup(done))
        return ip.bind(get(s, keys[i]), lambda s1, v: go(s1, done + [v], i + 1))
    return go(st, [], 0)


@model('desccall.attrgetter')
def m_attrget(ip, st, c):
    def get(st, key):
        outs = ok(st, c.args[1])
        for p in key.v.split('.'):
            outs = ip.bind(outs, lambda s, v, p=p: ip.getattr_(s, v, p))
        return outs
    return each(ip, st, c.args[0].parts, get)


@model('operator.itemgetter')
def m_itemgetter(ip, st, c):
    return ok(st, Desc('itemgetter', *c.args))


@model('desccall.itemgetter')
def m_itemget(ip, st, c):
    return each(ip, st, c.args[0].parts, lambda s, k: ip.getitem(s, c.args[1], k))


@model('operator.methodcaller')
def m_methodcaller(ip, st, c):
    return ok(st, Desc('methodcaller', c.args[0], tuple(c.args[1:]), tuple(sorted(c.kw.items()))))


@model('desccall.methodcaller')
def m_methodcall(ip, st, c):
    name, args, kw = c.args[0].parts
    return ip.bind(ip.getattr_(st, c.args[1], name.v), lambda s, f: ip.call(s, f, Call(list(args), dict(kw))))


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('floordiv', 'FloorDiv'), ('truediv', 'Div'), ('mod', 'Mod'), ('pow', 'Pow'),
               ('lshift', 'LShift'), ('rshift', 'RShift'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor'), ('concat', 'Add')):
    MODELS['operator.' + _n] = lambda ip, st, c, o=_o: ip.binop(st, o, c.args[0], c.args[1])
for _n, _o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('is_', 'Is'), ('is_not', 'IsNot')):
    MODELS['operator.' + _n] = lambda ip, st, c, o=_o: ip.compare_op(st, o, c.args[0], c.args[1])
MODELS['operator.contains'] = lambda ip, st, c: ip.compare_op(st, 'In', c.args[1], c.args[0])
MODELS['operator.getitem'] = lambda ip, st, c: ip.getitem(st, c.args[0], c.args[1])
MODELS['operator.setitem'] = lambda ip, st, c: ip.setitem(st, c.args[0], c.args[1], c.args[2])


@model('warnings.warn')
def m_warn(ip, st, c):
    st.ev('warn', tuple(c.args), ip.where())
    return ok(st, NONE)


@model('logging.getLogger')
def m_getlogger(ip, st, c):
    return ok(st, Desc('logger', *[a for a in c.args[:1]]))


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'addHandler', 'setLevel'):
    MODELS['desc.logger.' + _n] = lambda ip, st, c: ok(st, NONE)
    MODELS['logging.' + _n] = lambda ip, st, c: ok(st, NONE)


@model('ast.literal_eval')
def m_literal(ip, st, c):
    v = c.args[0]
    if isstr(v):
        r = fold_const(ip, st, 'ast.literal_eval', Call([v]))
        if r is not None:
            return r
    t = st.facts.typeof(v) if type(v) is not Ref else None
    if t in ('NoneType', 'int', 'float', 'bytes'):
        return ip.raise_(st, 'ValueError', 'malformed node or string')
    if type(v) is Op and v.op in ('str', 'repr') and st.facts.typeof(v.args[0]) in ('int', 'bool') or \
            type(v) is Op and v.op == 'repr' and st.facts.typeof(v.args[0]) in ('str', 'bytes'):
        # a literal of that very value
        return ok(st, v.args[0])
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('isliteral', (v,), 'bool'))):
        if b:
            res.extend(ok(s, Op('literal_eval', (v,), None)))
        else:
            s2 = s.clone()
            res.extend(ip.raise_(s, 'ValueError', 'malformed node or string'))
            res.extend(ip.raise_(s2, 'SyntaxError', 'invalid syntax'))
    return res


@model('base64.encodebytes')
def m_b64lines(ip, st, c):
    return b64_encode(ip, st, c, 'encodebytes')


@model('base64.b64encode', 'base64.standard_b64encode')
def m_b64e(ip, st, c):
    return b64_encode(ip, st, c, 'b64encode')


@model('base64.decodebytes')
def m_b64dlines(ip, st, c):
    return b64_decode(ip, st, c, 'decodebytes')


@model('base64.b64decode', 'base64.standard_b64decode')
def m_b64d(ip, st, c):
    return b64_decode(ip, st, c, 'b64decode')


def b64_encode(ip, st, c, f):
    v = deref(st, c.args[0])
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    if t not in ('bytes', 'bytearray', None):
        return ip.raise_(st, 'TypeError', 'expected bytes-like object')
    r = fold_const(ip, st, 'base64.' + f, Call(list(c.args), c.kw))
    if r is not None:
        return r
    if len(c.args) > 1 or c.kw:
        return ok(st, Op('b64alt', tuple(x for x in c.args if isinstance(x, Term)), 'bytes'))
    v = mkbs(segs_of(v))
    st.facts.restrict(Op('idiv', (add(bytes_len(v), K(2)), K(3)), 'int'),
                      1 if st.facts.interval(bytes_len(v))[0] >= 1 else 0)
    if f != 'encodebytes':
        return ok(st, Bs([b64seg(v)]))
    n = st.facts.const(bytes_len(v))
    if n is None:
        return ok(st, Op('b64lines', (v,), 'bytes'))
    m = (n + 2) // 3 * 4
    out = []
    for i in range(0, m, 76):
        out += [b64seg(v, K(i), K(min(76, m - i))), Seg('lit', b'\n')]
    return ok(st, mkbs(out))


def b64_decode(ip, st, c, f):
    v = deref(st, c.args[0])
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    if t not in ('bytes', 'bytearray', None) and not (t == 'str' and f != 'decodebytes'):
        return ip.raise_(st, 'TypeError', 'expected bytes-like object')
    r = fold_const(ip, st, 'base64.' + f, Call(list(c.args), c.kw))
    if r is not None:
        return r
    segs = b64sig(segs_of(v, t == 'str')) if len(c.args) == 1 and not c.kw else None
    if segs is not None:
        if not segs:
            return ok(st, K(b''))
        x = segs[0].a[0].args[0] if segs[0].kind == 'rd' else None
        if x is not None and len(segs) == 1 and segs[0] == b64seg(x):
            return ok(st, x)
    return ok(st, Op('b64d', (v,), 'bytes'))


@model('binascii.hexlify')
def m_hexlify(ip, st, c):
    v = deref(st, c.args[0])
    r = fold_const(ip, st, 'binascii.hexlify', Call(list(c.args), c.kw))
    if r is not None:
        return r
    x = to_hex(st, v) if len(c.args) == 1 and not c.kw else None
    if x is None:
        return ok(st, Op('hexlify', (v,), 'bytes'))
    return m_encode(ip, st, Call([x, K('ascii'), K('strict')]))


@model('builtins.bytes.fromhex', 'builtins.bytearray.fromhex', 'binascii.unhexlify')
def m_fromhex(ip, st, c):
    v = deref(st, c.args[-1])
    t = st.facts.typeof(v) if type(v) is not Ref else 'object'
    if type(v) is K:
        try:
            return ok(st, K(bytes.fromhex(v.v if isinstance(v.v, str) else v.v.decode())))
        except (ValueError, TypeError) as e:
            return ip.raise_(st, type(e).__name__, str(e))
    words = split_words(st, segs_of(v, t == 'str'), t == 'str')
    out = []
    for w in words or ():
        for g in w:
            x = hex_value([g]) if g.kind == 'rd' and g.a[2] == K(2) else None
            if g.kind == 'lit' and len(g.a[0]) % 2 == 0 and hex_value([g]) is not None:
                out.append(Seg('lit', bytes.fromhex(g.a[0] if isinstance(g.a[0], str) else g.a[0].decode())))
            elif x is not None:
                out.append(Seg('ube', x, 1))
            else:
                words = None
                break
    if words is not None:
        return ok(st, mkbs(out))
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('ishex', (v,), 'bool'))):
        res.extend(ok(s, Op('fromhex', (v,), 'bytes')) if b else ip.raise_(s, 'ValueError', 'non-hexadecimal number'))
    return res


@model('re.match', 're.fullmatch', 're.search')
def m_re(ip, st, c):
    import re
    f = getattr(getattr(ip.cur, 'func', None), 'attr', 'match')
    if f not in ('match', 'fullmatch', 'search'):
        f = 'match'
    if all(isstr(a) for a in c.args[:2]) and len(c.args) == 2:
        m = getattr(re, f)(c.args[0].v, c.args[1].v)
        if m is None:
            return ok(st, NONE)
        return ok(st, ip.alloc(st, Obj('ext', Ext('re.Match'), info={'type': 'rematch', 'groups': Tup(
            [K(m.group(0))] + [K(g) for g in m.groups()]), 'names': {k: K(v) for k, v in m.groupdict().items()}})))
    t = st.facts.typeof(c.args[1])
    if t not in ('str', 'bytes', None):
        return ip.raise_(st, 'TypeError', 'expected string or bytes-like object')
    res = []
    ng = 0
    if isstr(c.args[0]):
        try:
            ng = re.compile(c.args[0].v).groups
        except re.error:
            pass
    for s, b in ip.branch(st, ip.decide(st, Op('rematch', (K(f),) + tuple(c.args), 'bool'))):
        if b:
            gs = Tup([Op('group', tuple(c.args) + (K(i),), None) for i in range(ng + 1)])
            res.extend(ok(s, ip.alloc(s, Obj('ext', Ext('re.Match'), info={'type': 'rematch', 'groups': gs, 'names': {}}))))
        else:
            res.extend(ok(s, NONE))
    return res


@model('re.compile')
def m_recompile(ip, st, c):
    return ok(st, Desc('regex', *c.args))


@model('desc.regex.match', 'desc.regex.search', 'desc.regex.fullmatch')
def m_regex(ip, st, c):
    return m_re(ip, st, Call([c.args[0].parts[0]] + c.args[1:]))


@model('rematch.groups')
def m_groups(ip, st, c):
    return ok(st, Tup(st.get(c.args[0]).info['groups'].items[1:]))


@model('rematch.group', 'rematch.__getitem__')
def m_group(ip, st, c):
    i = A(c, 1, None, ZERO)
    o = st.get(c.args[0])
    if isint(i):
        return ok(st, o.info['groups'].items[i.v])
    if isstr(i) and i.v in o.info['names']:
        return ok(st, o.info['names'][i.v])
    return ok(st, Op('group', (c.args[0], i), None))


@model('platform.architecture')
def m_arch(ip, st, c):
    return ok(st, Tup([K('64bit'), K('ELF')]))


@model('time.time', 'time.monotonic', 'time.sleep', 'time.perf_counter')
def m_time(ip, st, c):
    return ok(st, Op('now', (K(len(st.event_list())),), 'float'))


@model('pprint.pprint')
def m_pprint(ip, st, c):
    st.ev('print', tuple(c.args), A(c, 1, 'stream', NONE), ip.where())
    return ok(st, NONE)


@model('collections.deque')
def m_deque(ip, st, c):
    return MODELS['builtins.list'](ip, st, Call(c.args[:1]))


MODELS['builtins.list.popleft'] = lambda ip, st, c: MODELS['builtins.list.pop'](ip, st, Call([c.args[0], ZERO]))


@model('collections.OrderedDict')
def m_odict(ip, st, c):
    return MODELS['builtins.dict'](ip, st, c)


@model('types.SimpleNamespace')
def m_ns(ip, st, c):
    return ok(st, ip.alloc(st, Obj('ext', Ext('types.SimpleNamespace'), dict(c.kw), info={}), 'namespace'))


@model('types.MappingProxyType')
def m_mpt(ip, st, c):
    return ok(st, c.args[0])


@model('typing.cast')
def m_cast(ip, st, c):
    return ok(st, c.args[1])


@model('typing.TypeVar', 'typing.NewType')
def m_typevar(ip, st, c):
    return ok(st, Desc('typevar', *c.args[:1]))


# ---------------------------------------------------------------------------
# argparse
# ---------------------------------------------------------------------------

@model('argparse.ArgumentParser')
def m_argparser(ip, st, c):
    return ok(st, ip.alloc(st, Obj('ext', Ext('argparse.ArgumentParser'), info={'type': 'argparser', 'spec': ()}), 'argparser'))


@model('argparser.add_argument')
def m_add_argument(ip, st, c):
    m = ip.mut(st, c.args[0])
    m.info['spec'] = m.info['spec'] + ((tuple(c.args[1:]), dict(c.kw)),)
    return ok(st, NONE)


@model('argparser.add_argument_group', 'argparser.add_mutually_exclusive_group')
def m_group_(ip, st, c):
    return ok(st, c.args[0])


@model('argparser.print_help', 'argparser.print_usage', 'argparser.set_defaults')
def m_help(ip, st, c):
    return ok(st, NONE)


@model('argparser.error', 'argparser.exit')
def m_argerror(ip, st, c):
    return ip.raise_(st, 'SystemExit', K(2))


def parse_argv(ip, st, spec, argv):
    """ A command line of known options. """
    def usage(s):
        s.ev('usage', ip.where())
        return ip.raise_(s, 'SystemExit', K(2))
    attrs, places, opts, todo = {}, [], {}, []
    for names, kw in spec:
        ns = [n.v for n in names if isstr(n)]
        act = kw['action'].v if isstr(kw.get('action')) else 'store'
        flag = ns[0].startswith('-')
        dest = kw['dest'].v if 'dest' in kw else ([n for n in ns if n.startswith('--')] or ns)[0].lstrip('-').replace('-', '_')
        if act in ('version', 'help'):
            continue
        attrs[dest] = kw.get('default', {'store_true': FALSE, 'store_false': TRUE}.get(act, NONE))
        e = (dest, act, kw)
        if flag:
            for n in ns:
                opts[n] = e
        else:
            places.append(e)
    toks, pos = list(argv), []
    while toks:
        t = toks.pop(0)
        if not (isstr(t) and t.v.startswith('-') and len(t.v) > 1):
            pos.append(t)
            continue
        if t.v not in opts:
            return usage(st)
        dest, act, kw = opts[t.v]
        if act == 'store_true' or act == 'store_false':
            attrs[dest] = K(act == 'store_true')
        elif act == 'store_const':
            attrs[dest] = kw.get('const', NONE)
        elif act == 'store':
            if not toks:
                return usage(st)
            todo.append((dest, kw, toks.pop(0)))
        else:
            raise AnalysisError('argument action %r' % act)
    for i, (dest, act, kw) in enumerate(places):
        nargs = kw.get('nargs')
        if nargs in (K('*'), K('+')):
            attrs[dest] = ip.alloc(st, Obj('list', data=tuple(pos)), 'args.' + dest)
            pos = []
        elif pos:
            todo.append((dest, kw, pos.pop(0)))
        elif nargs != K('?'):
            return usage(st)
    if pos:
        return usage(st)
    for e in opts.values():
        if e[2].get('required') == TRUE and e[0] not in [x[0] for x in todo]:
            return usage(st)
    outs = [(st, 'v', attrs)]
    for dest, kw, v in todo:
        def step(s, m, dest=dest, kw=kw, v=v):
            def put(s2, x):
                if 'choices' in kw:
                    its = known_items(ip, s2, kw['choices'])
                    if its is not None and x not in its and type(x) is K:
                        return usage(s2)
                return [(s2, 'v', dict(m, **{dest: x}))]
            ty = kw.get('type')
            return put(s, v) if ty is None or ty == NONE else ip.bind(ip.call(s, ty, Call([v])), put)
        outs = ip.bind(outs, step)
    return ip.bind(outs, lambda s, m: [(s, 'v', ip.alloc(s, Obj('ext', Ext('argparse.Namespace'), m, info={'nsattr': True}), 'args'))])


@model('argparser.parse_args')
def m_parse_args(ip, st, c):
    argv = A(c, 1, 'args', NONE)
    argv = known_items(ip, st, argv) if argv != NONE else ip.cfg.get('argv')
    if argv is not None:
        return parse_argv(ip, st, st.get(c.args[0]).info['spec'], argv)
    attrs = {}
    facts = []
    for names, kw in st.get(c.args[0]).info['spec']:
        ns = [n.v for n in names if isstr(n)]
        if not ns:
            continue
        opt = ns[0].startswith('-')
        if 'dest' in kw:
            dest = kw['dest'].v
        elif opt:
            long_ = [n for n in ns if n.startswith('--')] or ns
            dest = long_[0].lstrip('-').replace('-', '_')
        else:
            dest = ns[0]
        act = kw.get('action', K('store')).v if isstr(kw.get('action', K('store'))) else 'store'
        name = 'args.' + dest
        if act in ('store_true', 'store_false'):
            attrs[dest] = Sym(name, 'bool')
            continue
        if act in ('version', 'help'):
            continue
        ty = kw.get('type', Ext('builtins.str'))
        t = {'builtins.int': 'int', 'builtins.float': 'float', 'builtins.str': 'str'}.get(ty.name if type(ty) is Ext else '', None)
        nargs = kw.get('nargs')
        if nargs in (K('*'), K('+'), K(argparse_remainder())):
            attrs[dest] = ip.alloc(st, Obj('list', data=(), info={'opaque': Sym(name, 'list'), 'itemof': (
                lambda nm: lambda i_, s, i: Op('item', (Sym(nm, 'list'), i), 'str'))(name)}), name)
            continue
        optional = (opt and kw.get('required') != TRUE) or nargs == K('?')
        v = Sym(name, None if optional else t)
        attrs[dest] = v
        if optional:
            facts.append((v, t, kw.get('default', NONE)))
    outs = [(st, 'v', {})]
    for v, t, d in facts:
        nxt = []
        for s, sig, m in outs:
            given = Op('given', (v,), 'bool')
            for s2, b in ip.branch(s, given):
                m2 = dict(m)
                m2[v.name[5:]] = Sym(v.name, t) if b else d
                nxt.append((s2, 'v', m2))
        outs = nxt
    res = []
    for s, sig, m in outs:
        a = dict(attrs)
        a.update(m)
        s.ev('args', tuple(sorted(a.items())))
        res.append((s, 'v', ip.alloc(s, Obj('ext', Ext('argparse.Namespace'), a, info={'nsattr': True}), 'args')))
    return res


def argparse_remainder():
    return '...'
