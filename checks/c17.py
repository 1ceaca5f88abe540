""" C17: files are closed by whoever opened them, on every path. """

from .oplib import *
from .fslib import Disk, SMALL, CONFLICTING, set_paths, path_of
from .c26 import CliDisk, TOOLS_, IN, SCHEMA, ABS_DOC

RULE = ('Typestate analysis with injected faults: every operation that opens a file of its own (schema loading by every '
        'entry point, xml2ebml, loadXml, printSchemata and the command-line tools with an output file) is interpreted '
        'abstractly over good and bad input with every call of a stream, file system or XML function allowed to raise, one '
        'per path. On every normal and raising exit, each file opened on that path must be closed. A document opened by '
        'name must have its file closed after close() and after its context ends, either way; a stream supplied by the '
        'caller must still be open after every operation, fault or none.')
LEVEL = 'other'

OWN = 'a file opened for one operation is closed when it ends'
DOC = 'a document opened by name closes its file'
THEIRS = 'the caller\'s stream is left open'
FAULTS = (None, 'OSError', 'ValueError', 'KeyboardInterrupt')
QUIET = ('close', '__exit__', '__enter__', 'getvalue', '__iter__', 'closed', '__init__')


def a_path(S, st, text):
    was = S.ip.cfg.pop('may_raise', None)
    p = path_of(S, st, text)
    S.ip.cfg['may_raise'] = was
    return p


def faults(exc):
    """ One fault per path, in any call of a stream, file system or XML function except close(). """
    if exc is None:
        return None

    def may_raise(name, c, st):
        head, _, last = name.rpartition('.')
        return exc if last not in QUIET and (name == 'builtins.open' or name.split('.')[0] in (
            'stream', 'xml', 'os', 'io', 'pathlib', 'path', 'shutil', 'importlib')) else None
    return may_raise


def run(C):
    for name, f in OWNERS.items():
        for exc in FAULTS:
            C.scenario('%s, %s' % (name, exc), owner, name, f, exc)
    for tool in list(TOOLS_) + ['list_schemata']:
        for exc in FAULTS:
            for case in CASES if tool in TOOLS_ else ('ok',):
                C.scenario('%s, %s, %s' % (tool, case, exc), tool_owner, tool, case, exc, tools=True)
    for how in ('load', 'call', 'Document'):
        for path in (False, True):
            for header in DATA:
                for exc in FAULTS + ('OSError while loading', 'ValueError while loading'):
                    C.scenario('%s by %s, header %s, %s' % (how, 'Path' if path else 'name', header, exc), document, how, path, header, exc)
    for name, f in ops():
        C.scenario('the caller\'s streams: ' + name, theirs, name, f, None)
        if C.thorough or name in FAULTY:
            C.scenario('the caller\'s streams, failing: ' + name, theirs, name, f, 'OSError')
    for name, f in CALLERS.items():
        for exc in FAULTS:
            C.scenario('the caller\'s streams: %s, %s' % (name, exc), theirs, name, f, exc)


def opened(s, mark, exempt=lambda path, mode: False):
    return [e for e in s.event_list(mark) if e[0] == 'open' and not exempt(e[2], e[3])]


def closed(S, outs, mark, rule, where, exempt=lambda path, mode: False):
    """ Every file opened since is closed. """
    n = 0
    for s, sig, v in outs:
        if sig not in ('v', 'raise'):
            S.undecided(s, rule, where, 'outcome %s' % sig)
            continue
        for e in opened(s, mark, exempt):
            n += 1
            if type(e[1]) is not Ref:
                S.undecided(s, rule, where, 'file opened by %s' % e[4])
                continue
            cl = s.get(e[1]).info.get('closed', FALSE)
            if cl in (TRUE, FALSE):
                S.true(s, cl == TRUE, rule, e[5], '%s ends%s leaving %r open' % (where, ' with %s' % S.exc_text(s, v) if sig == 'raise' else '', e[2]))
            else:
                S.undecided(s, rule, e[5], 'closed or not: %r' % (cl,))
    if not outs:
        S.undecided(None, rule, where, 'no outcome')
    return n


# ------------------------------------------------------- single operations
OWNERS = {}


def owner_op(name):
    def deco(f):
        OWNERS[name] = f
        return f
    return deco


def owner(S, name, f, exc):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    d = Disk({'/p/good.xml': SMALL, '/p/conflict.xml': CONFLICTING, '/p/malformed.xml': 'malformed', '/p/other.xml': ('other',), '/p/in.xml': 'input'},
             dirs=('/out',))
    set_paths(S, st, ['/p'])
    S.ip.cfg.update(d.cfg())
    S.ip.cfg['open_fails'] = lambda s, p, m: None
    S.ip.cfg['env'] = lambda *a: None
    env = Env(S, schema)
    env.facts(st)
    env.disk = d
    S.ip.cfg['xmlparse'] = lambda ip, s, src: input_tree(env, s) if d.key(ip, s, src) == 'input' else d.xmlparse(ip, s, src)
    S.ip.cfg['may_raise'] = faults(exc)
    mark = st.events
    outs = f(env, st)
    S.c.paths += len(outs)
    # loadXml() returns a document that reads what was written
    n = closed(S, outs, mark, OWN, name, lambda path, mode: name == 'loadXml to a name' and mode in (K('rb'), K('r')))
    if exc is None and not n and 'parseSchema' not in name and 'itself' not in name:
        raise AnalysisError('%s opened no file' % name)


def input_tree(env, st):
    return new_xml(env.ip, st, 'AbsDocument', [], NONE, [M.deref(st, env.xml(st))])


for _f in ('good', 'conflict', 'malformed', 'other'):
    for _how in ('name', 'path', 'Path', 'paths', 'reload'):
        @owner_op('loadSchema of %s by %s' % (_f, _how))
        def load_schema(env, st, f=_f, how=_how):
            a = {'name': K(f + '.xml'), 'path': K('/p/%s.xml' % f), 'paths': K(f + '.xml'), 'reload': K('/p/%s.xml' % f)}.get(how)
            if a is None:
                a = a_path(env.S, st, ('/p/%s.xml' % f))
            kw = {'paths': listref(env.S, st, [K('/none'), K('/p')])} if how == 'paths' else {'reload': TRUE} if how == 'reload' else {}
            return env.S.call(st, CORE + 'loadSchema', a, **kw)

    @owner_op('Schema(%s) opens its file itself' % _f)
    def new_schema(env, st, f=_f):
        return env.S.call(st, CORE + 'Schema', K('/p/%s.xml' % f))

    @owner_op('parseSchema of %s' % _f)
    def parse_schema(env, st, f=_f):
        text = '<T%s/>' % f
        env.disk.texts[text] = env.disk.files['/p/%s.xml' % f]
        return env.S.call(st, CORE + 'parseSchema', K(text))


@owner_op('listSchemata itself')
def list_schemata(env, st):
    return env.S.call(st, CORE + 'listSchemata', K('/p'))


for _p in (False, True):
    for _paths in (None, ['/p'], ['/none']):
        @owner_op('printSchemata to a %s, %s' % ('Path' if _p else 'name', _paths))
        def print_schemata(env, st, p=_p, paths=_paths):
            out = a_path(env.S, st, ('/out/list.txt')) if p else K('/out/list.txt')
            kw = {} if paths is None else {'paths': listref(env.S, st, [K(x) for x in paths])}
            return env.S.call(st, UTIL + 'printSchemata', out=out, **kw)
    for _src in ('element', 'name', 'name and schema', 'nothing'):
        for _bad in (None, 'name', 'value', 'data'):
            @owner_op('xml2ebml from %s to a %s, bad %s' % (_src, 'Path' if _p else 'name', _bad))
            def x2e(env, st, p=_p, src=_src, bad=_bad):
                out = a_path(env.S, st, ('/out/new.ebml')) if p else K('/out/new.ebml')
                x = env.xml(st, bad=bad, root='document') if src == 'element' else K('/p/in.xml' if src != 'nothing' else '/p/malformed.xml')
                sch = env.schema if src != 'name and schema' else K('good.xml' if bad is None else 'none.xml')
                return env.S.call(st, UTIL + 'xml2ebml', x, out, sch, headers=TRUE if bad is None else FALSE)


    for _what, _args in {'paths that are no list': K(5), 'paths that are no text': Tup([K(5)])}.items():
        @owner_op('printSchemata of %s to a %s, if it opens itself' % (_what, 'Path' if _p else 'name'))
        def print_bad(env, st, p=_p, a=_args):
            return env.S.call(st, UTIL + 'printSchemata', a, a_path(env.S, st, '/out/list.txt') if p else K('/out/list.txt'))
    for _what, _args in {'XML of another kind': (K('/p/other.xml'), None), 'schema of a wrong type': (None, K(5)), 'no schema': (None, NONE)}.items():
        @owner_op('xml2ebml with %s to a %s, if it opens itself' % (_what, 'Path' if _p else 'name'))
        def x2e_bad(env, st, p=_p, a=_args):
            return env.S.call(st, UTIL + 'xml2ebml', a[0] or K('/p/in.xml'), a_path(env.S, st, '/out/new.ebml') if p else K('/out/new.ebml'),
                              a[1] or env.schema)


@owner_op('loadXml to a name')
def load_xml(env, st):
    file_holds(env.S, ABS_DOC)
    return env.S.call(st, UTIL + 'loadXml', K('/p/in.xml'), env.schema, ebmlFile=K('/out/new.ebml'))


def file_holds(S, data):
    """ What any file read holds. """
    S.ip.cfg.update(fileend=lambda s, p: K(len(data)), filebytes=lambda s, src, pos: data[pos.v] if type(pos) is K and pos.v < len(data) else None)


# ------------------------------------------------------ command-line output
CASES = ('ok', 'malformed document', 'missing', 'existing', 'schema')


def tool_owner(S, tool, case, exc):
    disk = CliDisk('ok' if case != 'missing' else 'missing', tool) if tool in TOOLS_ else CliDisk('ok', 'ebml2xml')
    st = S.fresh(**disk.cfg())
    S.ip.cfg['open_fails'] = lambda s, p, m: None if disk.path(p) is None or any(c in m.v for c in 'wa') else disk.open_fails(s, p, m)
    if case == 'malformed document':
        if tool == 'xml2ebml':
            S.ip.cfg['xmlfails'] = lambda s, src: 'only' if disk.key(S.ip, s, src) == 'input' else None
        else:
            bad = ABS_BAD
            S.ip.cfg['filebytes'] = lambda s, src, pos: bad[pos.v] if type(pos) is K and type(src) is Op and src.op == 'file' and \
                disk.path(src.args[0]) == IN[tool] and pos.v < len(bad) else None
            S.ip.cfg['fileend'] = lambda s, p: K(len(bad)) if disk.path(p) == IN[tool] else None
    S.ip.cfg['may_raise'] = faults(exc)
    set_paths(S, st, ['/schemata'])
    out = '/out/new' if case != 'existing' else '/out/old'
    if tool in TOOLS_:
        argv = ['-o', out, IN[tool], SCHEMA if case != 'schema' else '/schemata/malformed.xml'] + (['-c'] if case == 'existing' else [])
        main = TOOLS_[tool]
    else:
        argv, main = ['-o', out, '/schemata'], 'ebmlite.tools.list_schemata.main'
    S.ip.cfg['argv'] = [K(a) for a in argv]
    mark = st.events
    outs = S.call(st, main)
    S.c.paths += len(outs)
    # the document read is closed by neither the tools nor anyone else
    n = closed(S, outs, mark, OWN, main, lambda path, mode: tool in TOOLS_ and disk.path(path) == IN[tool] and mode in (K('rb'), K('r')))
    if exc is None and not n and case == 'ok':
        raise AnalysisError('%s opened no file' % tool)


# a header, and then a master whose children reach beyond it and an ID that is none
ABS_BAD = bytes([0x1A, 0x45, 0xDF, 0xA3, 0x87, 0x42, 0x86, 0x81, 1, 0x42, 0x82, 0x80]) + \
    bytes([0x81, 0x85, 0x88, 0x8A, 1, 2, 3, 0x00, 0x00])


# --------------------------------------------------------------- documents
DATA = {'present': ABS_DOC, 'absent': ABS_DOC[12:], 'nothing': b'', 'malformed': bytes([0, 0, 0, 0]), 'truncated': ABS_DOC[:7],
        'unknown': bytes([0xBF, 0x81, 1])}


def document(S, how, path, header, exc):
    st, schema = S.w.with_schema(peel=40, recursion=16)
    data = DATA[header]
    loading = exc.split(' ')[0] if exc and 'loading' in exc else None
    exc = None if loading else exc
    S.ip.cfg.update(pathq=lambda s, op, p: True, plainfs=True, cwd='/', open_fails=lambda s, p, m: None)
    file_holds(S, data)
    name = a_path(S, st, ('/data/in.ebml')) if path else K('/data/in.ebml')
    f = {'load': S.ip.getattr_(st, schema, 'load'), 'call': [(st, 'v', schema)], 'Document': S.ip.getattr_(st, schema, 'document')}[how]
    where = CORE + 'Document'
    mark = st.events
    S.ip.cfg['may_raise'] = faults(loading)
    docs = S.ip.bind(f, lambda s, m: S.ip.call(s, m, Call([name])))
    S.ip.cfg['may_raise'] = None
    m = S.method
    E = Ext('builtins.KeyError')
    used = lambda s, d: S.ip.bind(S.listof(s, d), lambda s2, l: S.ip.bind(
        S.method(s2, d, '__getitem__', ZERO), lambda s3, e: S.get(s3, e, 'value')))
    enter = lambda s, d: S.method(s, d, '__enter__')
    USES = {
        'close()': lambda s, d: m(s, d, 'close'),
        'close() after use': lambda s, d: then(used(s, d), lambda s2: m(s2, d, 'close')),
        'close() twice': lambda s, d: then(m(s, d, 'close'), lambda s2: m(s2, d, 'close')),
        'gc() and close()': lambda s, d: then(used(s, d), lambda s2: then(m(s2, d, 'gc'), lambda s3: m(s3, d, 'close'))),
        'the context\'s end': lambda s, d: then(enter(s, d), lambda s2: then(used(s2, d), lambda s3: m(s3, d, '__exit__', NONE, NONE, NONE))),
        'the context\'s end by an exception': lambda s, d: then(enter(s, d), lambda s2: m(
            s2, d, '__exit__', E, S.ip.raise_(s2, 'KeyError', 'x')[0][2], NONE)),
        'close() in the context': lambda s, d: then(enter(s, d), lambda s2: then(m(s2, d, 'close'), lambda s3: m(s3, d, '__exit__', NONE, NONE, NONE))),
        'the context twice': lambda s, d: then(enter(s, d), lambda s2: then(m(s2, d, '__exit__', NONE, NONE, NONE), lambda s3: m(s3, d, '__exit__', NONE, NONE, NONE))),
    }
    n = 0
    for s, sig, d in docs:
        if sig != 'v' and loading:
            continue
        if sig != 'v':
            S.undecided(s, DOC, where, 'loading: %s' % S.exc_text(s, d))
            continue
        for what, use in USES.items():
            S.ip.steps = 0
            S.ip.cfg['may_raise'] = faults(exc)
            outs = use(s.clone(), d)
            S.ip.cfg['may_raise'] = None
            S.c.paths += len(outs)
            if exc is None and header in ('present', 'absent') and not loading and not S.normal_all(outs, DOC, where):
                pass
            n += closed(S, outs, mark, DOC, '%s of a document opened by %s' % (what, how))
            # and its own file, still: whatever holds it now
            for s2, sg, v in outs:
                for e in opened(s2, mark):
                    if type(e[1]) is Ref and s2.get(e[1]).info.get('closed') == TRUE:
                        S.holds(s2, DOC, where)
    if not n and not loading:
        raise AnalysisError('%s opened no file' % how)


def then(outs, f):
    """ Go on whatever happened. """
    res = []
    for s, sig, v in outs:
        res += f(s)
    return res


# ------------------------------------------------------ the caller's streams
FAULTY = {'load', 'load under a name', 'schema call', 'iteration', 'document close()', 'document version', 'document __enter__()'}
CALLERS = {}


def caller(name):
    def deco(f):
        CALLERS[name] = f
        return f
    return deco


class Watch(Env):
    """ Remembers every stream it hands out. """

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.handed = []

    def stream(self, st, *args, **kw):
        r = super().stream(st, *args, **kw)
        self.handed.append(r)
        return r

    def out(self, st, text=False):
        r = super().out(st, text)
        self.handed.append(r)
        return r


def theirs(S, name, f, exc):
    st, schema = S.w.with_schema(peel=40, recursion=16, pathq=lambda st, op, p: False)
    d = Disk({'/p/good.xml': SMALL, '/p/a.xml': SMALL})
    if name in CALLERS:
        set_paths(S, st, ['/p'])
        S.ip.cfg.update(d.cfg())
    env = Watch(S, schema)
    env.disk = d
    env.facts(st)
    S.ip.cfg['may_raise'] = faults(exc)
    outs = f(env, st)
    S.c.paths += len(outs)
    n = 0
    for s, sig, v in outs:
        for ref in env.handed + list(env.sources):
            if ref.oid not in s.heap:
                continue
            n += 1
            cl = s.get(ref).info.get('closed', FALSE)
            if cl in (TRUE, FALSE):
                at = ''
                for e in s.event_list(None):
                    if e[0] == 'io' and e[1] == ref and e[2] == 'close':
                        at = e[-1]
                S.true(s, cl == FALSE, THEIRS, at or name, '%s closes the stream it was given' % name)
            else:
                S.undecided(s, THEIRS, name, 'closed or not: %r' % (cl,))
    if name in CALLERS and not n:
        raise AnalysisError('%s was given no stream' % name)


def schema_stream(env, st, which, **kw):
    text = '<T%s/>' % which
    d = {'good': SMALL, 'conflict': CONFLICTING, 'malformed': 'malformed', 'other': ('other',)}
    env.disk.texts[text] = d[which]
    r = new_stream(env.ip, st, 'mem', content=K(text), text=True, cls='io.StringIO', **kw)
    env.handed.append(r)
    return r


for _w in ('good', 'conflict', 'malformed', 'other'):
    @caller('Schema(stream), %s' % _w)
    def schema_of_stream(env, st, w=_w):
        return env.S.call(st, CORE + 'Schema', schema_stream(env, st, w))

    @caller('parseSchema(stream), %s' % _w)
    def parse_stream(env, st, w=_w):
        return env.S.call(st, CORE + 'parseSchema', schema_stream(env, st, w))

    @caller('Schema(named stream), %s' % _w)
    def schema_of_named(env, st, w=_w):
        return env.S.call(st, CORE + 'Schema', schema_stream(env, st, w, name=K('/p/named.xml')))

for _p in (None, ['/p'], ['/none']):
    @caller('printSchemata to a stream, %s' % _p)
    def print_stream(env, st, p=_p):
        kw = {} if p is None else {'paths': listref(env.S, st, [K(x) for x in p])}
        return env.S.call(st, UTIL + 'printSchemata', out=env.out(st, True), **kw)

for _bad in (None, 'name', 'value', 'data'):
    @caller('xml2ebml to a stream, bad %s' % _bad)
    def x2e_stream(env, st, bad=_bad):
        return env.S.call(st, UTIL + 'xml2ebml', env.xml(st, bad=bad, root='document'), env.out(st), env.schema, headers=TRUE)

USES = {
    'close': lambda env, s, d: env.S.method(s, d, 'close'),
    'context': lambda env, s, d: then(env.S.method(s, d, '__enter__'), lambda s2: env.S.method(s2, d, '__exit__', NONE, NONE, NONE)),
    'context, exception': lambda env, s, d: then(env.S.method(s, d, '__enter__'), lambda s2: env.S.method(
        s2, d, '__exit__', Ext('builtins.KeyError'), env.ip.raise_(s2, 'KeyError', 'x')[0][2], NONE)),
    'gc': lambda env, s, d: then(env.S.listof(s, d), lambda s2: env.S.method(s2, d, 'gc')),
    'gc recursively': lambda env, s, d: then(env.S.listof(s, d), lambda s2: env.S.method(s2, d, 'gc', recurse=TRUE)),
    'use after close': lambda env, s, d: then(env.S.method(s, d, 'close'), lambda s2: env.S.listof(s2, d)),
}
for _u in USES:
    for _how in ('load', 'call', 'Document', 'name', 'loads'):
        @caller('%s of a document by %s' % (_u, _how))
        def doc_use(env, st, u=_u, how=_how):
            kw = {'name': K('a name')} if how == 'name' else {}
            if how == 'loads':
                outs = env.S.method(st, env.schema, 'loads', env.data(st))
                env.handed.append(env.out(st))
            else:
                stream = env.stream(st)
                f = [(st, 'v', env.schema)] if how == 'call' else env.ip.getattr_(st, env.schema, 'document' if how == 'Document' else 'load')
                outs = env.then(f, lambda s, m: env.ip.call(s, m, Call([stream], kw)))
            return env.then(outs, lambda s, d: USES[u](env, s, d))

        @caller('%s of a document by %s, schema and stream named' % (_u, _how))
        def doc_file(env, st, u=_u, how=_how):
            # an open file of a type the library does not know
            stream = new_stream(env.ip, st, 'src', src=K('f'), tag='stream', name=K('/p/f.ebml'), end=K(len(ABS_DOC)), eof='any',
                                bytes=lambda s, src, pos: ABS_DOC[pos.v] if type(pos) is K and pos.v < len(ABS_DOC) else None)
            env.handed.append(stream)
            f = [(st, 'v', env.schema)] if how == 'call' else env.ip.getattr_(st, env.schema, 'document' if how == 'Document' else 'load')
            outs = env.then(f, lambda s, m: env.ip.call(s, m, Call([stream], {'size': K(100)})))
            return env.then(outs, lambda s, d: USES[u](env, s, d) if u not in ('gc', 'gc recursively', 'use after close') else env.S.method(s, d, 'gc'))
