""" C16: caller-supplied arguments are never modified. """

from .oplib import *
from .fslib import Disk, SMALL, set_paths

RULE = ('Effect analysis by abstract interpretation: every operation of a catalogue of the public interface is given its '
        'mutable arguments as abstract objects (nested dictionaries and lists, sets, byte arrays, XML trees, attribute '
        'dictionaries, lists of paths), and on every normal and raising path the contents of every one of them, to any '
        'depth, are compared with those before. Of an XML parent given to toXml() only appended children may differ; output '
        'streams may only be written to.')
LEVEL = 'other'

SAME = 'arguments are unchanged'
APPEND = 'toXml only appends to the parent it is given'


def run(C):
    for name, f in ops():
        for tree in ('all', 'other') if C.thorough else ('all',):
            C.scenario('%s, %s' % (name, tree), effects, name, f, tree)
    for name, f in MORE.items():
        C.scenario(name, effects, name, f, 'all')


def effects(S, name, f, tree):
    st, schema = S.w.with_schema(peel=40, recursion=16, pathq=lambda st, op, p: False)
    env = Env(S, schema, 'a', tree)
    env.facts(st)
    mark = st.events
    outs = f(env, st)
    S.c.paths += len(outs)
    if not outs:
        S.undecided(st, SAME, name, 'no outcome')
    for s, sig, v in outs:
        if sig not in ('v', 'raise'):
            S.undecided(s, SAME, name, 'outcome %s' % sig)
        for what, ref, was in env.args:
            if ref.oid not in s.heap:
                continue
            now = digest(s, ref)
            rule = SAME
            if what == 'parent':
                rule = APPEND
                n = len(was[-1])
                if len(now[-1]) >= n:
                    now = now[:-1] + (now[-1][:n],)
            r = differ(s.facts, was, now)
            where = name
            if r is None:
                S.holds(s, rule, where)
            elif r[1] == 'ne':
                S.violated(s, rule, changed_at(s, mark, ref) or where, '%s: the caller\'s %s is changed (%s)' % (name, what, r[0]))
            else:
                S.undecided(s, rule, where, '%s: %s not determined' % (what, r[0]))


def changed_at(st, mark, ref):
    """ Where the object, or something in it, was changed. """
    inside, todo = set(), [ref]
    while todo:
        v = todo.pop()
        if type(v) is Tup:
            todo += list(v.items)
        elif type(v) is Ref and v.oid not in inside and v.oid in st.heap:
            inside.add(v.oid)
            o = st.heap[v.oid]
            if o.kind in ('list', 'dict', 'set', 'bytearray', 'xml'):
                todo += list(o.attrs.values()) if o.kind == 'xml' else []
                if type(o.data) is tuple:
                    for x in o.data:
                        todo += list(x) if isinstance(x, tuple) else [x]
    for e in reversed(st.event_list(mark)):
        if e[0] in ('mut', 'omut') and len(e) > 3 and type(e[1]) is Ref and e[1].oid in inside:
            return e[3].split(' ')[0]
    return ''


# ------------------------------------------------- arguments of other kinds
MORE = {}


def more(name):
    def deco(f):
        MORE[name] = f
        return f
    return deco


def disk(env, st):
    d = Disk(['/p/a.xml', '/q/b.xml'])
    d.texts = {'<T/>': SMALL}
    set_paths(env.S, st, ['', '/p'])
    env.ip.cfg.update(d.cfg())
    return d


for _p in ([], ['/q'], ['/q', '/p'], ['/none']):
    for _f in ('b.xml', 'b', 'a.xml', 'none'):
        @more('loadSchema %s with paths %s' % (_f, _p))
        def load_paths(env, st, f=_f, p=_p):
            disk(env, st)
            return env.S.call(st, CORE + 'loadSchema', K(f), paths=env.list(st, 'list of paths', *map(K, p)))
    for _abs in (True, False):
        @more('printSchemata with paths %s %s' % (_p, _abs))
        def print_paths(env, st, p=_p, a=_abs):
            disk(env, st)
            return env.S.call(st, UTIL + 'printSchemata', env.list(st, 'list of paths', *map(K, p)), env.out(st, True), absolute=K(a))

ATTRS = [('UIntegerElement', 0x8F, 'New', {}), ('BinaryElement', 0x4FF0, 'New', {'length': '8', 'multiple': '1', 'mandatory': 'true'}),
         ('MasterElement', 0x8E, 'New', {'global': '1'}), ('FloatElement', 0x4FF1, 'New', {'default': '1.5', 'level': '-1', 'precache': '0'}),
         ('StringElement', 0x4FF2, 'New', {'default': ' x ', 'id': '0x8F', 'name': ' New ', 'other': ''}),
         ('UIntegerElement', 0x82, 'U', {}), ('UIntegerElement', 0x82, 'U', {'multiple': '1'}), ('UIntegerElement', None, 'U', {'name': 'U'}),
         ('UIntegerElement', 0x82, None, {}), ('BinaryElement', 0xEC, 'Void', {'global': 'true'}), ('UIntegerElement', 0x82, 'U', {'multiple': '0'}),
         ('StringElement', 0x82, 'U', {'multiple': '1'}), ('UIntegerElement', None, None, {'a': 'b'}), ('UIntegerElement', 0x8F, '1', {'a': 'b'})]
for _tag, _id, _name, _attrs in ATTRS:
    for _parent in (None, 'schema', 'Sub'):
        @more('addElement %s %s %s %r %s' % (_tag, _id, _name, _attrs, _parent))
        def add_el(env, st, tag=_tag, a=_attrs, parent=_parent, eid=_id, name=_name):
            p = NONE if parent is None else env.schema if parent == 'schema' else one(
                env.S.method(st.clone(), env.schema, 'get', K(parent)), 'parent')[1]
            d = env.dict(st, 'attributes', *[(k, K(v)) for k, v in a.items()])
            return env.S.method(st, env.schema, 'addElement', K(eid), K(name), env.ip.resolve(st, CORE + tag), d, p)

        @more('addElement twice %s %s %s %r %s' % (_tag, _id, _name, _attrs, _parent))
        def add_twice(env, st, f=add_el):
            # the first use's attributes, after the second
            return env.then(env.quiet(f(env, st)), lambda s, v: f(env, s))

DEFS = [HEADER, edef('BinaryElement', 0xEC, 'Void', **{'global': 'true'}),
        edef('MasterElement', 0x81, ' Seg ', [edef('UIntegerElement', 0x82, 'U', multiple='1', default=' 3 '), edef('Comment', None, None)])]
for _legacy in (False, True):
    for _bad in (False, True):
        @more('parsing an XML tree, %s %s' % ('legacy' if _legacy else 'current', 'bad' if _bad else 'good'))
        def parse_tree(env, st, legacy=_legacy, bad=_bad):
            from .schemalib import legacy_xml
            defs = [d for d in DEFS[1:] if d[2] != ' Seg '] if legacy else DEFS
            if bad:
                defs = defs + [edef('StringElement', 0xEC, 'Other')]
            root = legacy_xml(env.ip, st, defs) if legacy else schema_xml(env.ip, st, defs)
            env.arg(st, 'XML tree', root)
            env.ip.cfg['xmlparse'] = lambda ip, s, src: root
            return env.S.call(st, CORE + 'Schema', K('/p/x.xml'))


@more('decode with a stream')
def codec_streams(env, st):
    out = []
    for name in ('Base64Codec', 'HexCodec', 'IgnoreCodec'):
        b = env.buffer(st, 'encoded data', K(b'00FF '))
        x = env.codec(st, name)
        out = env.S.method(st, x, 'decode', b, env.out(st)) if not out else env.then(
            env.quiet(out), lambda s, v, x=x, b=b: env.S.method(s, x, 'decode', b, env.out(s)))
    return out


@more('encode a master\'s payload given as bytes')
def payload_bytes(env, st):
    return env.then(env.S.method(st, env.schema, '__getitem__', K('Seg')), lambda s, c: env.then(
        env.quiet(env.S.method(s, c, 'encode', env.buffer(s, 'buffer', K(b'\x82\x81\x05')))), lambda s2, v: env.S.method(
            s2, c, 'encode', env.list(s2, 'values', env.buffer(s2, 'buffer', K(b'\x82\x81\x05'))))))
