""" C18: reading never opens for writing, and never writes to its source. """

from .oplib import *
from .fslib import Disk, SMALL, CONFLICTING, set_paths, path_of
from .c26 import ABS_DOC
from .c17 import file_holds, then, DATA

RULE = ('Effect analysis by abstract interpretation: every operation of the catalogue that loads, reads, converts or prints '
        'documents, over streams of several kinds (BytesIO, an opened file, an object with only the methods documented, a '
        'stream open for reading and writing), documents opened by name, and every way of loading schemata. On every '
        'normal and raising path, no file is opened in a mode that could write, no file system function that changes '
        'anything is called, and no source stream is written to, truncated or changed in contents.')
LEVEL = 'other'

MODE = 'files are opened for reading only'
FS = 'the file system is not changed'
WRITE = 'the source is not written to'
SAME = 'the source\'s contents are unchanged'
WRITES = ('write', 'writelines', 'truncate')


def run(C):
    for name, f in ops(READ, SHOW):
        for tree in ('all', 'other') if C.thorough else ('all',):
            C.scenario('%s, %s' % (name, tree), reading, name, f, tree, 'BytesIO')
        if C.thorough or any(x in name for x in ('value', 'gc', 'toXml {', 'pprint (', 'dump', 'iteration', 'getRaw', 'load')):
            C.scenario('%s, named stream' % name, reading, name, f, 'all', 'named')
    for how in ('load', 'call', 'Document'):
        for path in (False, True):
            for data in DATA:
                for use in USES:
                    if C.thorough or data in ('present', 'absent') or use == 'reading':
                        C.scenario('%s of a document, %s by %s, header %s' % (use, how, 'Path' if path else 'name', data), document, how, path, data, use)
    for kind in STREAMS:
        for data in DATA:
            for use in USES:
                C.scenario('%s of a document by %s, header %s' % (use, kind, data), stream, kind, data, use)
    for name, f in SCHEMATA.items():
        C.scenario(name, schemata, name, f)


def unharmed(S, outs, mark, where, sources, rw=()):
    """ No write of any kind. """
    if not outs:
        S.undecided(None, WRITE, where, 'no outcome')
    for s, sig, v in outs:
        if sig not in ('v', 'raise'):
            S.undecided(s, WRITE, where, 'outcome %s' % sig)
            continue
        for e in s.event_list(mark):
            if e[0] == 'open':
                m = e[3].v if type(e[3]) is K and isinstance(e[3].v, str) else None
                if m is None:
                    S.undecided(s, MODE, e[5], 'mode %r' % (e[3],))
                else:
                    S.true(s, not any(x in m for x in 'wax+'), MODE, e[5], '%s opens %r with mode %r' % (where, e[2], m))
            elif e[0] == 'openfail':
                m = e[2].v if type(e[2]) is K and isinstance(e[2].v, str) else ''
                S.true(s, not any(x in m for x in 'wax+'), MODE, e[3], '%s opens %r with mode %r' % (where, e[1], m))
            elif e[0] == 'fs':
                S.violated(s, FS, e[-1] if isinstance(e[-1], str) else where, '%s: %s %r' % (where, e[1], e[2]))
            elif e[0] == 'io' and e[2] in WRITES:
                info = s.get(e[1]).info if e[1].oid in s.heap else {}
                if e[1] in sources or info.get('tag') == 'file':
                    S.violated(s, WRITE, e[-1] if isinstance(e[-1], str) else where, '%s: %s() of what it reads from' % (where, e[2]))
        S.holds(s, WRITE, where)
        for ref, was in sources.items():
            if was is None or ref.oid not in s.heap:
                continue
            r = compare(s.facts, was, s.get(ref).data)
            if r == 'eq':
                S.holds(s, SAME, where)
            elif r == 'ne':
                S.violated(s, SAME, where, '%s changes the contents of its source' % where)
            else:
                S.undecided(s, SAME, where, 'contents not determined')


class Kept(Env):
    """ Remembers the contents of its sources. """

    def __init__(self, *args):
        super().__init__(*args)
        self.first = []

    def stream(self, st, tree=None, data=None):
        r = super().stream(st, tree, data)
        self.first.append((r, st.get(r).data))
        return r


class Named(Kept):
    """ Streams that have the name of a file. """

    def stream(self, st, tree=None, data=None):
        r = super().stream(st, tree, data)
        info = st.get(r).info
        info['name'] = K('/data/in%s.ebml' % self.tag)
        info['mode'] = K('rb+')
        return r


def reading(S, name, f, tree, kind):
    st, schema = S.w.with_schema(peel=40, recursion=16, pathq=lambda st, op, p: False)
    env = (Named if kind == 'named' else Kept)(S, schema, 'a', tree)
    env.facts(st)
    mark = st.events
    outs = f(env, st)
    S.c.paths += len(outs)
    unharmed(S, outs, mark, name, dict(env.first))


def uses(S):
    el = lambda s, d, f: S.ip.bind(S.call(s, UTIL + 'flatiter', d), lambda s2, it: S.ip.bind(S.listof(s2, it), f))
    out = lambda s: new_stream(S.ip, s, 'mem', content=K(''), text=True, cls='io.StringIO')
    return el, out


def read_all(S, s, d):
    el, out = uses(S)

    def each(s2, lst):
        done = [(s2, 'v', NONE)]
        for e in S.items(s2, lst) or ():
            for f in (lambda s3, e=e: S.get(s3, e, 'value'), lambda s3, e=e: S.method(s3, e, 'getRaw'), lambda s3, e=e: S.method(s3, e, 'gc')):
                done = then(done, f)
        return done
    return el(s, d, each)


USES = {
    'reading': read_all,
    'dump': lambda S, s, d: S.method(s, d, 'dump'),
    'toXml': lambda S, s, d: S.call(s, UTIL + 'toXml', d),
    'pprint': lambda S, s, d: S.call(s, UTIL + 'pprint', d, out=uses(S)[1](s)),
    'attributes': lambda S, s, d: then(S.get(s, d, 'version'), lambda s2: then(S.get(s2, d, 'type'), lambda s3: S.call(s3, Ext('builtins.len'), d))),
    'gc and close': lambda S, s, d: then(S.listof(s, d), lambda s2: then(S.method(s2, d, 'gc', recurse=TRUE), lambda s3: S.method(s3, d, 'close'))),
    'context': lambda S, s, d: then(S.method(s, d, '__enter__'), lambda s2: then(S.listof(s2, d), lambda s3: S.method(s3, d, '__exit__', NONE, NONE, NONE))),
}


def document(S, how, path, data, use):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    S.ip.cfg.update(pathq=lambda s, op, p: True, plainfs=True, cwd='/', open_fails=lambda s, p, m: None)
    file_holds(S, DATA[data])
    name = path_of(S, st, '/data/in.ebml') if path else K('/data/in.ebml')
    mark = st.events
    f = {'load': S.ip.getattr_(st, schema, 'load'), 'call': [(st, 'v', schema)], 'Document': S.ip.getattr_(st, schema, 'document')}[how]
    docs = S.ip.bind(f, lambda s, m: S.ip.call(s, m, Call([name])))
    outs = S.ip.bind(docs, lambda s, d: USES[use](S, s, d))
    S.c.paths += len(outs)
    unharmed(S, outs, mark, '%s of a document opened by name' % use, {})
    if not any(e[0] == 'open' for s, sig, v in outs for e in s.event_list(mark)):
        raise AnalysisError('%s opened no file' % how)


STREAMS = {'an open file': dict(kind='src', cls='io.BufferedReader', name=K('/data/in.ebml'), mode=K('rb')),
           'a file open for update': dict(kind='src', cls='io.BufferedRandom', name=K('/data/in.ebml'), mode=K('rb+')),
           'a stream of another type': dict(kind='src', cls='builtins.object'),
           'a BytesIO': dict(kind='mem', cls='io.BytesIO'), 'a named BytesIO': dict(kind='mem', cls='io.BytesIO', name=K('/data/in.ebml'), mode=K('wb+'))}


def stream(S, kind, data, use):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    data = DATA[data]
    S.ip.cfg.update(pathq=lambda s, op, p: False, plainfs=True, cwd='/')
    info = dict(STREAMS[kind])
    role, cls = info.pop('kind'), info.pop('cls')
    if role == 'src':
        info.update(src=K('f'), end=K(len(data)), eof='any', tag='stream',
                    bytes=lambda s, src, pos: data[pos.v] if type(pos) is K and pos.v < len(data) else None)
    else:
        info.update(content=K(data))
    src = new_stream(S.ip, st, role, cls=cls, **info)
    mark = st.events
    outs = S.ip.bind(S.ip.getattr_(st, schema, 'load'), lambda s, m: S.ip.call(s, m, Call([src], {'size': K(len(data))})))
    outs = S.ip.bind(outs, lambda s, d: USES[use](S, s, d))
    S.c.paths += len(outs)
    unharmed(S, outs, mark, '%s of a document by %s' % (use, kind), {src: K(data) if role == 'mem' else None})


# ---------------------------------------------------------------- schemata
SCHEMATA = {}


def schema_op(name):
    def deco(f):
        SCHEMATA[name] = f
        return f
    return deco


def schemata(S, name, f):
    st = S.fresh()
    d = Disk({'/p/good.xml': SMALL, '/p/conflict.xml': CONFLICTING, '/p/malformed.xml': 'malformed', '/p/other.xml': ('other',),
              '/q/r/good.xml': SMALL, '/q/text.txt': SMALL})
    d.texts = {'<T%s/>' % w: d.files['/p/%s.xml' % w] for w in ('good', 'conflict', 'malformed', 'other')}
    set_paths(S, st, ['/p', '/q'])
    S.ip.cfg.update(d.cfg())
    S.ip.cfg['env'] = lambda *a: None
    src = {}
    mark = st.events
    outs = f(S, st, src)
    S.c.paths += len(outs)
    unharmed(S, outs, mark, name, src)


for _f in ('good', 'conflict', 'malformed', 'other', 'none'):
    for _how in ('name', 'stem', 'path', 'Path', 'reload', 'twice'):
        @schema_op('loadSchema of %s, %s' % (_f, _how))
        def load_schema(S, st, src, f=_f, how=_how):
            a = {'name': K(f + '.xml'), 'stem': K(f), 'path': K('/p/%s.xml' % f)}.get(how, K('/p/%s.xml' % f))
            if how == 'Path':
                a = path_of(S, st, '/p/%s.xml' % f)
            outs = S.call(st, CORE + 'loadSchema', a, **({'reload': TRUE} if how == 'reload' else {}))
            return then(outs, lambda s: S.call(s, CORE + 'loadSchema', a, reload=TRUE)) if how == 'twice' else outs

    if _f != 'none':
        @schema_op('Schema(%s)' % _f)
        def new_schema(S, st, src, f=_f):
            return S.call(st, CORE + 'Schema', K('/p/%s.xml' % f))

        @schema_op('Schema(stream of %s)' % _f)
        def of_stream(S, st, src, f=_f):
            r = new_stream(S.ip, st, 'mem', content=K('<T%s/>' % f), text=True, cls='io.StringIO', name=K('/p/%s.xml' % f), mode=K('r+'))
            src[r] = K('<T%s/>' % f)
            return S.call(st, CORE + 'Schema', r)

        @schema_op('parseSchema of %s' % _f)
        def parse(S, st, src, f=_f):
            return S.call(st, CORE + 'parseSchema', K('<T%s/>' % f))

        @schema_op('parseSchema of a stream of %s' % _f)
        def parse_stream(S, st, src, f=_f):
            r = new_stream(S.ip, st, 'mem', content=K('<T%s/>' % f), text=True, cls='io.StringIO')
            src[r] = K('<T%s/>' % f)
            return S.call(st, CORE + 'parseSchema', r)

for _p in ([], ['/p'], ['/q', '/none']):
    for _abs in (True, False):
        @schema_op('listSchemata %s %s' % (_p, _abs))
        def list_schemata(S, st, src, p=_p, a=_abs):
            return S.call(st, CORE + 'listSchemata', *map(K, p), absolute=K(a))

        @schema_op('printSchemata %s %s' % (_p, _abs))
        def print_schemata(S, st, src, p=_p, a=_abs):
            return S.call(st, UTIL + 'printSchemata', listref(S, st, list(map(K, p))), new_stream(
                S.ip, st, 'mem', content=K(''), text=True, cls='io.StringIO'), K(a))
