""" C15: operations never change shared library state. """

import time

from .oplib import *
from .fslib import Disk, SMALL

RULE = ('Effect analysis by abstract interpretation: every operation of a catalogue of the public interface (reading, encoding, '
        'converting, printing and failing uses of each) is interpreted over symbolic operands, and on every normal and '
        'raising path the abstract heap is compared with the one before: modules\' variables, classes, registries, schemata, '
        'default arguments and codecs, with everything reachable from them, must be unchanged. Where only private '
        '(underscored) storage or memoised results changed, the changed state must make no difference: every operation is '
        'interpreted over other operands (the same layout with other contents, another layout, another schema with the same '
        'names and IDs) from the state before and after, and the abstract results must be equal. Loading a schema may change '
        'the cache only, and adding an element only its own schema.')
LEVEL = 'other'

STATE = 'shared state is unchanged'
LATER = 'a later operation gives what it gives by itself'
CACHE = 'loading a schema changes only the schema cache'
ADD = 'adding an element changes only its schema'


def run(C):
    for name, f in ops():
        for tree in ('all', 'other') if C.thorough else ('all',):
            C.scenario('%s, %s' % (name, tree), effects, name, f, tree)
            if f is not None and any(x in name for x in ('header', 'version', 'type', 'document', 'load', 'schema', 'encodes')):
                C.scenario('%s, %s, header without defaults' % (name, tree), effects, name, f, tree, True)
    for what in LOADS:
        C.scenario('loading: %s' % what, loading, what)
    for what in ADDS:
        C.scenario('adding: %s' % what, adding, what)
    for name in FILEOPS:
        C.scenario(name, file_effects, name)


def setup(S, **cfg):
    """ A state with two schemata (and codecs) whose names and IDs overlap. """
    # the other schema is made first: building the usual one resets nothing
    key = ('c15', S.c.pid)
    if key not in S.w.schemas:
        st, schema = S.w.with_schema(peel=40, recursion=16)
        from absint.scen import make_schema
        st, other = make_schema(S.w, st, OTHER, name='other')
        st, bare = make_schema(S.w, st, BARE, name='bare')
        S.w.schemas[key] = (st, schema, other, bare)
    S.fresh(peel=40, recursion=16, pathq=lambda st, op, p: False, **cfg)
    st, schema, other, S.bare = S.w.schemas[key]
    return st.clone(), schema, other


def codecs(S, st):
    out = {}
    for cls, kw in (('Base64Codec', {'cols': 4}), ('HexCodec', {'width': 4, 'cols': 2}), ('IgnoreCodec', {})):
        st, c = one(S.call(st, CODEC + cls, **{k: K(v) for k, v in kw.items()}), 'codec')
        out[(cls, tuple(sorted(kw.items())))] = c
    return st, out


# ------------------------------------------------------------ heap changes
def changes(before, after):
    """ [(oid, attribute or None)] of what existed before and was changed. """
    out = []
    for oid, o in before.heap.items():
        n = after.heap.get(oid)
        if n is o or n is None:
            continue
        if n.data != o.data or n.cls != o.cls:
            out.append((oid, None))
        for k in set(n.attrs) | set(o.attrs):
            if n.attrs.get(k) != o.attrs.get(k):
                out.append((oid, k))
        if n.info != o.info:
            for k in set(n.info) | set(o.info):
                if n.info.get(k) != o.info.get(k):
                    out.append((oid, None))
                    break
    for fid, f in before.frames.items():
        n = after.frames.get(fid)
        if n is not None and n != f:
            out += [(('frame', fid), k) for k in set(n) | set(f) if n.get(k) != f.get(k)]
    return out


def memos(before, after):
    return [k for k in after.ctx if k not in before.ctx and isinstance(k, tuple) and k[:1] == ('memo',)]


def names_of(S, st):
    """ {oid: shortest dotted path from a module}, public paths first. """
    if getattr(S, 'paths', None) and S.paths[0] is st:
        return S.paths[1]
    found = {}
    first = [(S.ip.modrefs[m], m, False) for m in S.ip.modrefs]
    for pub in (True, False):
        queue = list(first)
        seen = set()
        while queue:
            nxt = []
            for ref, path, _ in queue:
                if type(ref) is not Ref or ref.oid in seen or ref.oid not in st.heap:
                    continue
                seen.add(ref.oid)
                found.setdefault(ref.oid, (path, pub))
                o = st.heap[ref.oid]
                for k, v in o.attrs.items():
                    if not pub or not str(k).startswith('_'):
                        nxt.append((v, '%s.%s' % (path, k), 0))
                if type(o.data) is tuple:
                    for x in o.data:
                        if isinstance(x, tuple):
                            nxt.append((x[1], '%s[%r]' % (path, x[0].v if type(x[0]) is K else x[0]), 0))
                        else:
                            nxt.append((x, path + '[]', 0))
                if type(o.cls) is Ref:
                    nxt.append((o.cls, path + '.__class__', 0))
            queue = []
            for v, p, _ in nxt:
                if type(v) is Tup:
                    queue += [(x, p, 0) for x in v.items]
                elif type(v) is Bound:
                    queue += [(x, p, 0) for x in (getattr(v, 'fn', None), getattr(v, 'obj', None))]
                else:
                    queue.append((v, p, 0))
    S.paths = (st, found)
    return found


def site(st, mark, oid):
    """ Where an object was changed. """
    for e in reversed(st.event_list(mark)):
        if e[0] in ('mut', 'omut', 'global') and len(e) > 3 and type(e[1]) is Ref and e[1].oid == oid:
            return e[3]
    return ''


def judge(S, before, s, mark, name, rule=STATE, allow=lambda oid: False):
    """ Report public changes; returns the private ones. """
    private, n = [], 0
    for oid, k in changes(before, s):
        if allow(oid):
            continue
        if isinstance(oid, tuple):
            private.append((oid, k))
            continue
        path, public = names_of(S, before).get(oid, ('', False))
        if path == '' and S.ip.st0 is not None:
            path = 'an object made before'
        if not public or (k is not None and str(k).startswith('_')):
            private.append((oid, k))
            continue
        n += 1
        where = site(s, mark, oid) or name
        S.violated(s, rule, where.split(' ')[0], '%s%s is changed by: %s' % (path, '.%s' % k if k else '', name))
    if not n:
        S.holds(s, rule, name)
    return private + memos(before, s)


def effects(S, name, f, tree, bare=False):
    st, schema, other = setup(S)
    schema = S.bare if bare else schema
    st, shared = codecs(S, st)
    before = st.clone()
    env = Env(S, schema, 'a', tree)
    env.codecs = shared
    env.facts(st)
    mark = st.events
    outs = f(env, st)
    S.c.paths += len(outs)
    if not outs:
        S.undecided(st, STATE, name, 'no outcome')
    kinds, where = set(), ''
    for s, sig, v in outs:
        if sig not in ('v', 'raise'):
            S.undecided(s, STATE, name, 'outcome %s' % sig)
        for p in judge(S, before, s, mark, name):
            where = where or private_site(s, mark, p)
            kinds.add(p[:2] if p[0] == 'memo' else (names_of(S, before).get(p[0], (p[0],))[0], p[1]))
    if kinds:
        history(S, name, f, kinds, where, schema)
    else:
        S.holds(st, LATER, name)


# --------------------------------------------------- histories of operations
def history(S, name, f, kinds, where, first_schema):
    """ Private storage changed: it must not be observable. """
    st, schema, other = setup(S)
    st, shared = codecs(S, st)
    done = S.c.__dict__.setdefault('kinds', set())
    new = set(kinds) - done
    done |= new
    group = [(name, f)] + ([x for x in ops() if x[0] != name] if new else [])
    firsts = ('all', 'other') if S.thorough else ('all',)
    for first in firsts:
        env = Env(S, first_schema, 'a', first, True)
        env.codecs = shared
        S.ip.steps = 0
        for s, sig, v in f(env, st.clone()):
            for n2, g in group:
                if not S.thorough and time.time() - S.c.t0 > 250:
                    S.undecided(s, LATER, name, 'time limit')
                    return
                for sch in (schema, other):
                    for tree in (first, 'other' if first == 'all' else 'all') if n2 == name or S.thorough else (first,):
                        later(S, st, s, n2, g, sch, 'b', tree, shared, name, where)


def alone(S, before, name, g, env):
    """ What an operation gives by itself. """
    known = S.c.__dict__.setdefault('alone', {})
    key = (name, env.schema, env.tag, env.layout)
    if key not in known:
        known[key] = result(S, g(env, before.clone()))
    return known[key]


def result(S, outs):
    """ (state, kind, digest or exception), or why it is not determined. """
    if len(outs) != 1:
        return None
    s, g, v = outs[0]
    return s, g, S.exc_name(s, v) if g == 'raise' else deep(S, s, v), show_sig(S, s, g, v)


def later(S, before, after, name, g, schema, tag, tree, shared, first, where):
    res = []
    for s in (None, after.clone()):
        env = Env(S, schema, tag, tree, True)
        env.codecs = shared
        S.ip.steps = 0
        res.append(alone(S, before, name, g, env) if s is None else result(S, g(env, s)))
    if None in res:
        S.undecided(after, LATER, where or first, 'outcomes not determined')
        return
    (s1, g1, v1, t1), (s2, g2, v2, t2) = res
    if g1 != g2:
        S.violated(s2, LATER, where or first, '%s %s after %s, and %s by itself' % (name, t2, first, t1))
        return
    if g1 == 'raise':
        S.true(s2, v1 == v2, LATER, where or first, '%s raises another exception after %s' % (name, first))
        return
    r = differ(s2.facts, v1, v2)
    if r is None:
        S.holds(s2, LATER, first)
    elif r[1] == 'ne':
        S.violated(s2, LATER, where or first, '%s gives another result after %s (%s)' % (name, first, r[0]))
    else:
        S.undecided(s2, LATER, where or first, '%s: %s not determined' % (name, r[0]))


def show_sig(S, s, g, v):
    return 'raises %s' % S.exc_text(s, v) if g == 'raise' else 'returns'


def deep(S, st, v, depth=0):
    """ A result with the geometry and values of the elements in it. """
    if depth > 12:
        return 'deep'
    v = M.deref(st, v)
    if type(v) is Tup:
        return ('tuple',) + tuple(deep(S, st, x, depth + 1) for x in v.items)
    if type(v) is not Ref:
        return v
    o = st.get(v)
    if o.kind == 'list':
        return (o.kind,) + tuple(deep(S, st, x, depth + 1) for x in o.data)
    if o.kind in ('dict', 'set', 'frozenset'):
        return ('dict',) + tuple(('item', deep(S, st, k, depth + 1), deep(S, st, x, depth + 1)) for k, x in o.data)
    if o.kind in ('xml', 'bytearray'):
        return digest(st, v)
    if o.kind == 'inst':
        out = ['instance', S.ip.class_name(st, o.cls)]
        for n in ('offset', 'size', 'payloadOffset', 'sizeLength', 'value'):
            if depth > 5 and n == 'value':
                continue
            got = S.ip.getattr_(st.clone(), v, n)
            if len(got) == 1 and got[0][1] == 'v':
                out.append(deep(S, got[0][0], got[0][2], depth + 1))
        return tuple(out)
    return o.kind


def private_site(st, mark, p):
    if p[0] == 'memo':
        for e in reversed(st.event_list(mark)):
            if e[0] == 'memo':
                return e[1]
        return ''
    return site(st, mark, p[0]).split(' ')[0]


# ------------------------------------------------------- loading and adding
def disk():
    d = Disk(['/p/a.xml', '/q/b.xml', '/cwd/c.xml'])
    d.files['/p/bad.xml'] = 'malformed'
    d.files['/p/other.xml'] = ('html',)
    d.texts = {'<T/>': SMALL, '<M': 'malformed'}
    return d


LOADS = {
    'by name': ('loadSchema', 'a.xml', {}), 'by path': ('loadSchema', '/p/a.xml', {}), 'without extension': ('loadSchema', 'a', {}),
    'reload': ('loadSchema', 'a.xml', {'reload': True}), 'with paths': ('loadSchema', 'b.xml', {'paths': ['/q']}),
    'missing': ('loadSchema', 'none.xml', {}), 'malformed': ('loadSchema', 'bad.xml', {}), 'not a schema': ('loadSchema', 'other.xml', {}),
    'named': ('loadSchema', 'a.xml', {'name': 'thing'}), 'from the working directory': ('loadSchema', 'c.xml', {}),
    'parse': ('parseSchema', '<T/>', {}), 'parse, named': ('parseSchema', '<T/>', {'name': 'x'}), 'parse malformed': ('parseSchema', '<M', {}),
    'parse, reload': ('parseSchema', '<T/>', {'name': 'x', 'reload': True}),
    'list': ('listSchemata', None, {}), 'list paths': ('listSchemata', '/q', {'absolute': False}), 'list missing': ('listSchemata', '/none', {}),
    'constructor': ('Schema', '/p/a.xml', {}), 'constructor, malformed': ('Schema', '/p/bad.xml', {}),
}


def loading(S, what):
    fn, src, kw = LOADS[what]
    d = disk()
    st, schema, other = setup(S)
    from .fslib import set_paths
    set_paths(S, st, ['', '/p'])
    S.ip.cfg.update(d.cfg())
    cache = S.ip.resolve(st, CORE + 'SCHEMATA')
    for twice in (False, True):
        start = [st]
        if twice:
            s0 = st.clone()
            start = [x[0] for x in S.call(s0, CORE + fn, *([] if src is None else [K(src)]), **conv(S, s0, kw))]
        for s0 in start:
            s0 = s0.clone()
            before = s0.clone()
            S.paths = None
            mark = s0.events
            outs = S.call(s0, CORE + fn, *([] if src is None else [K(src)]), **conv(S, s0, kw))
            if not outs:
                S.undecided(s0, CACHE, CORE + fn, 'no outcome')
            for s, sig, v in outs:
                private = judge(S, before, s, mark, '%s (%s)' % (CORE + fn, what), CACHE,
                                lambda oid: fn in ('loadSchema', 'parseSchema') and oid == cache.oid)
                for p in private:
                    S.undecided(s, CACHE, CORE + fn, 'private storage %r' % (p,))


def conv(S, st, kw):
    return {k: listref(S, st, [K(x) for x in v]) if isinstance(v, list) else K(v) for k, v in kw.items()}


ADDS = {
    'leaf': (0x8F, 'New', 'UIntegerElement', {}), 'binary with a length': (0x4FFE, 'New', 'BinaryElement', {'length': '8'}),
    'master': (0x8E, 'NewMaster', 'MasterElement', {'multiple': '1'}), 'global': (0x4FFD, 'New', 'StringElement', {'global': '1'}),
    'default': (0x4FFC, 'New', 'FloatElement', {'default': '1.5', 'mandatory': '1'}), 'precached': (0x4FFB, 'New', 'BinaryElement', {'precache': '1'}),
    'duplicate': (0x82, 'U', 'UIntegerElement', {'multiple': '1'}), 'conflicting name': (0x82, 'Else', 'UIntegerElement', {}),
    'conflicting ID': (0x8F, 'U', 'UIntegerElement', {}), 'conflicting type': (0x82, 'U', 'StringElement', {}),
    'void': (0xEC, 'Void', 'BinaryElement', {'global': 'true', 'multiple': 'true'}), 'no ID': (None, 'U', 'UIntegerElement', {}),
}


def adding(S, what):
    eid, name, base, attribs = ADDS[what]
    st, schema, other = setup(S)
    S.c.paths += 1
    for parent in (None, 'schema', 'Seg', 'Sub'):
        s = st.clone()
        mine = reach(s, schema)
        for o in (other,):
            mine -= reach(s, o)
        mine -= reach(s, None, [v for k, v in bases(S, s)])
        before = s.clone()
        S.paths = None
        p = NONE if parent is None else schema if parent == 'schema' else one(S.method(s.clone(), schema, 'get', K(parent)), 'parent')[1]
        a = dictref(S, s, [(k, K(v)) for k, v in attribs.items()])
        mark = s.events
        outs = S.method(s, schema, 'addElement', K(eid), K(name), S.ip.resolve(s, CORE + base), a, p)
        where = CORE + 'Schema.addElement'
        if not outs:
            S.undecided(s, ADD, where, 'no outcome')
        for s2, sig, v in outs:
            judge(S, before, s2, mark, where, ADD, lambda oid: oid in mine)


def bases(S, st):
    return [(n, S.ip.resolve(st, CORE + n)) for n in ('Element', 'Document', 'VoidElement', 'UnknownElement') + BASES_]


BASES_ = ('BinaryElement', 'DateElement', 'FloatElement', 'IntegerElement', 'MasterElement', 'StringElement', 'UIntegerElement',
          'UnicodeElement')


def reach(st, ref, more=()):
    """ Objects a schema owns: its attributes and the classes made for it,
        not the classes' bases. """
    seen, todo = set(), ([ref] if ref is not None else []) + list(more)
    while todo:
        v = todo.pop()
        if type(v) is Tup:
            todo += list(v.items)
            continue
        if type(v) is not Ref or v.oid in seen or v.oid not in st.heap:
            continue
        o = st.heap[v.oid]
        if o.kind == 'module':
            continue
        seen.add(v.oid)
        todo += [x for k, x in o.attrs.items() if k not in ('__bases__', '__mro__', '__class__')]
        if type(o.data) is tuple:
            for x in o.data:
                todo += list(x) if isinstance(x, tuple) else [x]
    return seen


# -------------------------------------------------------- operations on files
def op_load(S, st, schema, d):
    return S.ip.bind(S.method(st, schema, 'load', K('/p/doc.ebml')), lambda s, doc: S.ip.bind(
        S.listof(s, doc), lambda s2, l: S.method(s2, doc, 'close')))


def op_print(S, st, schema, d):
    out = new_stream(S.ip, st, 'mem', content=K(''), text=True, cls='io.StringIO')
    return S.call(st, UTIL + 'printSchemata', listref(S, st, [K('/q')]), out)


def op_print_plain(S, st, schema, d):
    out = new_stream(S.ip, st, 'mem', content=K(''), text=True, cls='io.StringIO')
    return S.call(st, UTIL + 'printSchemata', out=out, absolute=FALSE)


def op_print_file(S, st, schema, d):
    return S.call(st, UTIL + 'printSchemata', listref(S, st, [K('/q')]), K('/out/list.txt'))


def op_x2e(S, st, schema, d):
    kid = new_xml(S.ip, st, 'U', [('value', '5')])
    return S.call(st, XDOC, new_xml(S.ip, st, 'Seg', [], NONE, [kid]), K('/out/new.ebml'), schema)


FILEOPS = {'load by filename': op_load, 'printSchemata to a stream': op_print, 'printSchemata without paths': op_print_plain,
           'printSchemata to a file': op_print_file, 'xml2ebml to a file': op_x2e}


def file_effects(S, name):
    d = disk()
    st, schema, other = setup(S)
    from .fslib import set_paths
    set_paths(S, st, ['', '/p'])
    content = bytes([0x81, 0x83, 0x82, 0x81, 7])
    S.ip.cfg.update(d.cfg(), open_fails=None, filebytes=lambda st, src, pos: content[pos.v] if type(pos) is K and pos.v < len(content) else None,
                    fileend=lambda st, path: K(len(content)))
    S.ip.cfg.pop('open_fails')
    before = st.clone()
    mark = st.events
    outs = FILEOPS[name](S, st, schema, d)
    S.c.paths += len(outs)
    if not outs:
        S.undecided(st, STATE, name, 'no outcome')
    for s, sig, v in outs:
        for p in judge(S, before, s, mark, name):
            S.undecided(s, STATE, name, 'private storage %r' % (p,))
