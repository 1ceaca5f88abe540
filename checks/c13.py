""" C13: a schema is a consistent registry of its definition. """

from .schemalib import *

RULE = ('Abstract interpretation of schema creation (Schema.__init__ through parseSchema, for both definition formats) '
        'and of addElement over enumerated families of definitions: every element type, every spelling of every '
        'attribute, repeated and conflicting definitions by ID, by name and by both, with symbolic IDs, names and '
        'attribute values. The resulting abstract registry is compared with the one the definitions call for; after a '
        'conflicting definition it must equal, object by object, the registry before it.')
LEVEL = 'other'

ADD = CORE + 'Schema.addElement'
REG = 'every definition is registered by ID and by name'
ATT = 'an element class carries the attributes of its first definition'
KID = 'an element is a valid child of exactly the masters it is defined under'
GLOB = 'exactly the elements declared global are globals'
AGAIN = 'a repeated definition adds only a parent'
CONF = 'a conflicting definition raises'
SAME = 'a conflicting definition changes nothing'
BAD = 'an incomplete definition raises'

TRUTHY, FALSY = ('1', 'true', 'True', 'TRUE', 't', ' 1 ', 'true '), ('0', 'false', 'False', 'FALSE', 'no', ' 0')
BOOLS = ('multiple', 'mandatory', 'precache', 'global')


def families(thorough):
    """ {name: definitions} """
    out = {'default': ABS}
    eid = [0x4F00]

    def nxt(tag, kids=(), **a):
        eid[0] += 1
        return edef(tag, eid[0], 'E%X' % eid[0], kids, **a)
    for tag in BASES:
        out[tag] = [HEADER, nxt(tag)] + [nxt(tag, **{b: v}) for b in BOOLS for v in TRUTHY + FALSY] + \
            [nxt(tag, length=v) for v in ('8', '0x10', '0', ' 4 ', '', 'x', '2.5x')] + \
            [nxt(tag, level=v) for v in ('-1', '0', '1', '2', ' -1 ', '')] + \
            [nxt(tag, **{'level': '-1', 'global': '0'}), nxt(tag, **{'level': '1', 'global': 'true'})]
        out[tag + ' nested'] = [HEADER, edef('MasterElement', 0x81, 'M', [nxt(tag, multiple='1', mandatory='1')] + [
            nxt(tag, **{'global': v}) for v in ('1', 'true', 'false')] + [nxt(tag, length='4', precache='0')])]
    out['no header'] = [edef('MasterElement', 0x81, 'M', [edef('StringElement', 0x82, 'S')])]
    out['repeated'] = [
        HEADER, edef('MasterElement', 0x81, 'A', [
            edef('UIntegerElement', 0x82, 'U', multiple='1', length='2'),
            edef('MasterElement', 0x83, 'B', [edef('UIntegerElement', 0x82, 'U'), edef('StringElement', 0x84, 'S')])]),
        edef('MasterElement', 0x85, 'C', [
            edef('UIntegerElement', 0x82, None), edef('StringElement', None, 'S'),
            edef('MasterElement', 0x83, 'B', [edef('FloatElement', 0x86, 'F')]),
            edef('UIntegerElement', 0x82, 'U', multiple='1')]),
        edef('StringElement', 0x84, 'S'), edef('BinaryElement', 0xEC, 'Void', **{'global': '1'}),
        edef('MasterElement', 0x87, 'D', [edef('BinaryElement', 0xEC, 'Void'),
                                         edef('MasterElement', 0x85, 'C', [edef('MasterElement', 0x87, 'D')])])]
    for i, a in enumerate(({'length': '8'}, {'precache': '1', 'length': '0'}, {'mandatory': '1', 'multiple': '1', 'global': '1'})):
        out['void %d' % i] = [HEADER, edef('MasterElement', 0x81, 'M', [edef('BinaryElement', 0xEC, 'Void', **a)])]
    return out


def run(C):
    for name, defs in families(C.thorough).items():
        C.scenario('definitions: ' + name, parsed, defs, False)
        flat = [d for d in flatten(defs) if d[1] is not None and d[2] is not None]
        C.scenario('legacy definitions: ' + name, parsed, [(t, e, n, {k: v for k, v in a.items()}, ()) for t, e, n, a, _ in first(flat)], True)
    C.scenario('unknown tags', tags)
    for base in BASES:
        C.scenario('added: ' + base, added, base)
    C.scenario('repeated definitions', repeated)
    C.scenario('conflicting definitions', conflicting)
    C.scenario('conflicting symbolic definitions', symbolic)
    C.scenario('incomplete definitions', incomplete)
    C.scenario('conflicts while parsing', in_file)
    C.scenario('two schemata', apart)


def flatten(defs):
    for d in defs:
        yield d
        yield from flatten(d[4])


def first(defs):
    seen = set()
    for d in defs:
        if d[1] not in seen:
            seen.add(d[1])
            yield d


def parsed(S, defs, legacy):
    st = S.fresh(recursion=16)
    root = legacy_xml(S.ip, st, defs) if legacy else schema_xml(S.ip, st, defs)
    want = Expected()
    for d in defs:
        want.add(d)
    where = CORE + 'Schema'
    for s, schema in S.normal(build(S, st, root), 'a schema is created from its definition', where):
        registry(S, s, schema, want, where)


def registry(S, s, schema, want, where):
    ip = S.ip
    snap = snapshot(S, s, schema)
    if snap is None:
        S.undecided(s, REG, where, 'registry not determined')
        return
    S.true(s, set(snap['elements']) == {K(i) for i in want.ids}, REG, where,
           'IDs are %s' % delta({k: 1 for k in snap['elements']}, {K(k): 1 for k in want.ids}))
    S.true(s, set(snap['elementsByName']) == {K(n) for n in want.names}, REG, where,
           'names are %s' % delta({k: 1 for k in snap['elementsByName']}, {K(k): 1 for k in want.names}))
    S.true(s, snap['root'] is not None and snap['root'] == {K(k) for k in want.kids[None]}, KID, where,
           'root children are %r' % (snap['root'],))
    S.true(s, set(snap['globals']) == {K(k) for k in want.globals}, GLOB, where,
           'globals are %r, declared: %r' % (sorted(map(repr, snap['globals'])), want.globals))
    for eid, r in want.ids.items():
        c = snap['elements'].get(K(eid))
        if type(c) is not Ref:
            continue
        name = 'element %s (0x%X)' % (r['name'], eid)
        S.true(s, snap['elementsByName'].get(K(r['name'])) == c, REG, where, name + ' is another class by name')
        for key in (K(eid), K(r['name'])):
            for s2, v in S.normal(S.method(s.clone(), schema, "__getitem__", key), REG, where):
                S.true(s2, v == c, REG, where, '%s: schema[%r] is %r' % (name, key, v))
            for s2, v in S.normal(S.method(s.clone(), schema, 'get', key), REG, where):
                S.true(s2, v == c, REG, where, '%s: schema.get(%r) is %r' % (name, key, v))
        a = snap['classes'][c]
        base = 'VoidElement' if r['name'] == 'Void' else r['tag']
        S.true(s, ip.resolve(s, CORE + base) in s.get(c).info["mro"], 'an element class has the type of its definition', where,
               '%s is not a %s' % (name, base))
        S.true(s, a['schema'] == schema, 'an element class belongs to its schema', where, name)
        for n in ('id', 'name', 'multiple', 'mandatory', 'precache', 'length'):
            v = a[n]
            if v is None:
                S.undecided(s, ATT, where, name + ' ' + n)
            else:
                S.eq(s, v, K(r[n]), ATT, where, '%s: %s' % (name, n))
        kids = a['children'] if base != 'VoidElement' else frozenset()
        S.true(s, kids is not None and kids == {K(k) for k in want.kids[eid]}, KID, where,
               '%s: children %r, defined: %r' % (name, kids, want.kids[eid]))


def tags(S):
    """ Elements of unknown type are refused; other tags are ignored. """
    for tag, bad in (('FooElement', True), ('Note', False)):
        st = S.fresh()
        root = schema_xml(S.ip, st, [HEADER, edef(tag, 0x81, 'X'), edef('StringElement', 0x82, 'S')])
        outs = build(S, st, root)
        w = CORE + 'Schema._parseSchema'
        if bad:
            S.raises(outs, 'Exception', 'unknown element types are refused', CORE + 'Schema')
        else:
            want = Expected()
            for d in (HEADER, edef('StringElement', 0x82, 'S')):
                want.add(d)
            for s, schema in S.normal(outs, 'other tags are ignored', w):
                registry(S, s, schema, want, CORE + 'Schema')


def adict(S, st, attribs):
    return S.ip.alloc(st, Obj('dict', data=tuple((K(k), v if isinstance(v, (K, Sym, Op)) else K(v))
                                                for k, v in attribs.items())))


def args_of(S, st, schema, eid, ename, base, attribs, parent):
    a = {'eid': eid, 'ename': ename, 'baseClass': S.ip.resolve(st, CORE + base)}
    if attribs is not None:
        a['attribs'] = adict(S, st, attribs)
    if parent is not None:
        a['parent'] = parent
    return a


def klass(S, st, schema, name):
    return one(S.method(st, schema, 'get', K(name)), 'element class')[1]


def add_to(S, st, schema, eid, ename, base, attribs=None, parent=None):
    return S.call(st, ADD, schema, **args_of(S, st, schema, eid, ename, base, attribs, parent))


def added(S, base):
    """ A new element with a symbolic ID. """
    for attribs in ({}, {'multiple': '1', 'length': '3'}, {'global': 'true'}, {'mandatory': 't', 'precache': '0'}, None):
        for under in (None, 'Seg', 'Deep'):
            st, schema = S.w.with_schema()
            e = Sym('new_id', 'int')
            st.facts.restrict(e, 0x90, 0x9F)
            parent = klass(S, st, schema, under) if under else None
            before = snapshot(S, st, schema)
            for s, c in S.normal(add_to(S, st, schema, e, K('Fresh'), base, attribs, parent), 'a new element is added', ADD):
                after = snapshot(S, s, schema)
                if after is None or type(c) is not Ref:
                    S.undecided(s, REG, ADD, 'registry not determined')
                    continue
                S.true(s, after['elements'].get(e) == c and after['elementsByName'].get(K('Fresh')) == c, REG, ADD,
                       'new element is not registered by ID and name')
                S.true(s, all(after[n].get(k) == v for n in ('elements', 'elementsByName') for k, v in before[n].items()), REG,
                       ADD, 'an existing registration changed')
                x = attribs or {}
                a = after['classes'].get(c, {})
                for n, v in (('id', e), ('name', K('Fresh')), ('multiple', K(truth(x, 'multiple', False))),
                             ('mandatory', K(truth(x, 'mandatory', False))), ('length', K(number(x, 'length'))),
                             ('precache', K(truth(x, 'precache', base in PRECACHED)))):
                    if a.get(n) is not None:
                        S.eq(s, a[n], v, ATT, ADD, 'new element: ' + n)
                S.true(s, a.get('schema') == schema, 'an element class belongs to its schema', ADD, 'new element')
                S.true(s, (e in after['globals']) == truth(x, 'global', False), GLOB, ADD, 'new element')
                S.true(s, a.get('children') in (None, frozenset()), KID, ADD, 'a new element has children %r' % (a.get('children'),))
                got = after['root'] if parent is None else after['classes'][parent]['children']
                was = before['root'] if parent is None else before['classes'][parent]['children']
                S.true(s, got == was | {e}, KID, ADD, 'children of the parent are %r' % (got,))
                d = differences(before, after, skip=('elements', 'elementsByName', 'globals', 'info', 'root', (parent, 'children')))
                d = [x for x in d if not x.startswith('class ')]
                S.true(s, not d, 'a new element changes nothing else', ADD, '; '.join(d))


REPEATS = (('U', 'UIntegerElement', {}), ('U', 'UIntegerElement', {'multiple': '1'}), ('S', 'StringElement', {}),
           ('Crc', 'BinaryElement', {}), ('Crc', 'BinaryElement', {'global': '1'}), ('Sub', 'MasterElement', {}),
           ('Lazy', 'UIntegerElement', {}), ('Deep', 'MasterElement', None), ('Void', 'BinaryElement', {}))


def repeated(S):
    for name, base, attribs in REPEATS:
        for by in ('id', 'name', 'both'):
            for under in (None, 'Eager', 'Deep', 'EBML'):
                st, schema = S.w.with_schema()
                parent = klass(S, st, schema, under) if under else None
                before = snapshot(S, st, schema)
                c = before['elementsByName'][K(name)]
                eid = before['classes'][c]['id']
                full = dict(attribs) if attribs is not None else None
                if full is not None:
                    if by != 'name':
                        full['id'] = '0x%X' % eid.v
                    if by != 'id':
                        full['name'] = name
                outs = add_to(S, st, schema, eid if by != 'name' else NONE, K(name) if by != 'id' else NONE, base, full, parent)
                what = '%s again by %s under %s' % (name, by, under or 'the root')
                for s, v in S.normal(outs, AGAIN, ADD):
                    S.true(s, v == c, AGAIN, ADD, what + ': returns %r' % (v,))
                    after = snapshot(S, s, schema)
                    if after is None:
                        S.undecided(s, AGAIN, ADD, what)
                        continue
                    skip = ('root',) if parent is None else ((parent, 'children'),)
                    d = differences(before, after, skip)
                    S.true(s, not d, AGAIN, ADD, what + ': ' + '; '.join(d))
                    got = after['root'] if parent is None else after['classes'][parent]['children']
                    was = before['root'] if parent is None else before['classes'][parent]['children']
                    S.true(s, got == was | {eid}, KID, ADD, what + ': children of the parent are %r' % (got,))


CONFLICTS = [
    ('U', 'IntegerElement', {}, 'type'), ('U', 'StringElement', {}, 'type'), ('S', 'UnicodeElement', {}, 'type'),
    ('D', 'UIntegerElement', {}, 'type'), ('Sub', 'BinaryElement', {}, 'type'), ('B', 'MasterElement', {}, 'type'),
    ('I', 'UIntegerElement', {}, 'type'), ('U', 'FloatElement', {'multiple': '1'}, 'type'),
    ('Void', 'MasterElement', {}, 'type'), ('Crc', 'StringElement', {'global': '1'}, 'type'),
    ('U', 'UIntegerElement', {'multiple': '0'}, 'attributes'), ('U', 'UIntegerElement', {'mandatory': '1'}, 'attributes'),
    ('S', 'StringElement', {'global': '1'}, 'attributes'), ('S', 'StringElement', {'length': '4'}, 'attributes'),
    ('P', 'BinaryElement', {'precache': '0'}, 'attributes'), ('Crc', 'BinaryElement', {'global': '0'}, 'attributes'),
    ('Sub', 'MasterElement', {'precache': '1'}, 'attributes'), ('F', 'FloatElement', {'multiple': '1'}, 'attributes'),
    ('DocType', 'StringElement', {'default': 'other'}, 'attributes'),
    ('Eager', 'MasterElement', {'global': 'true'}, 'attributes'),
]


def conflict(S, name, base, attribs, by, under, other=None):
    st, schema = S.w.with_schema()
    parent = klass(S, st, schema, under) if under else None
    before = snapshot(S, st, schema)
    c = before['elementsByName'][K(name)]
    eid = before['classes'][c]['id']
    full = dict(attribs)
    if by != 'name':
        full['id'] = '0x%X' % eid.v
    if by != 'id':
        full['name'] = name
    what = '%s redefined by %s as %s %r under %s' % (name, by, base, attribs, under or 'the root')
    outs = add_to(S, st, schema, eid if by != 'name' else NONE, K(name) if by != 'id' else NONE, base, full, parent)
    unchanged(S, outs, schema, before, what)


def unchanged(S, outs, schema, before, what, cond=None):
    for s, sig, v in outs:
        if sig != 'raise':
            S.violated(s, CONF, ADD, what + ': accepted')
            continue
        S.holds(s, CONF, ADD)
        after = snapshot(S, s, schema)
        if after is None:
            S.undecided(s, SAME, ADD, what)
            continue
        d = differences(before, after)
        S.true(s, not d, SAME, ADD, what + ': ' + '; '.join(d))


def conflicting(S):
    for name, base, attribs, kind in CONFLICTS:
        for by in ('id', 'name', 'both'):
            for under in (None, 'Eager', 'EBML'):
                conflict(S, name, base, attribs, by, under)
    # the ID of one element with the name of another, or with a new name
    for eid, name, base in ((0x82, 'S', 'UIntegerElement'), (0x85, 'U', 'UIntegerElement'),
                            (0x81, 'Sub', 'MasterElement'), (0x89, 'Deep', 'MasterElement')):
        st, schema = S.w.with_schema()
        before = snapshot(S, st, schema)
        outs = add_to(S, st, schema, K(eid), K(name), base, {'id': '0x%X' % eid, 'name': name})
        unchanged(S, outs, schema, before, 'ID 0x%X with the name %s' % (eid, name))


def symbolic(S):
    """ A known element with a symbolic attribute value: equal, or a conflict. """
    for name, base, key in (('U', 'UIntegerElement', 'multiple'), ('P', 'BinaryElement', 'precache'),
                            ('Crc', 'BinaryElement', 'global'), ('DocType', 'StringElement', 'default')):
        st, schema = S.w.with_schema()
        v = Sym('value', 'str')
        before = snapshot(S, st, schema)
        c = before['elementsByName'][K(name)]
        old = before['info'][before['classes'][c]['id']].get(K(key))
        if old is None:
            S.undecided(st, CONF, ADD, 'raw attributes of %s are not kept' % name)
            continue
        parent = klass(S, st, schema, 'Eager')
        for s, sig, r in add_to(S, st, schema, NONE, K(name), base, {'name': name, key: v}, parent):
            after = snapshot(S, s, schema)
            same = compare(s.facts, v, old)
            if same == 'eq':
                S.true(s, sig == 'v', AGAIN, ADD, '%s with the same %s raises' % (name, key))
            else:
                S.true(s, sig == 'raise' if not s.unsure else None, CONF, ADD, '%s with %s=%r is accepted' % (name, key, v))
                if sig == 'raise' and after is not None:
                    d = differences(before, after)
                    S.true(s, not d, SAME, ADD, '; '.join(d))
    # a symbolic ID with a new name: new, or the ID of another element
    st, schema = S.w.with_schema()
    e = Sym('eid', 'int')
    st.facts.restrict(e, 0x80, 0xFE)
    before = snapshot(S, st, schema)
    for s, sig, r in add_to(S, st, schema, e, K('Brandnew'), 'UIntegerElement', {'name': 'Brandnew'}):
        after = snapshot(S, s, schema)
        known = [k for k in before['elements'] if compare(s.facts, e, k) == 'eq']
        if known:
            S.true(s, sig == 'raise', CONF, ADD, 'ID %r with another name is accepted' % (known,))
            if after is not None:
                d = differences(before, after)
                S.true(s, not d, SAME, ADD, '; '.join(d))
        else:
            S.true(s, sig == 'v', 'a new element is added', ADD, 'a new ID and name is refused')


def incomplete(S):
    for eid, name in ((NONE, K('New')), (K(0x9A), NONE), (NONE, NONE), (K(0x9A), K('1abc')), (K(0x9A), K(12)),
                      (K('0x9A'), K('New')), (K(0x9A), K(' x'))):
        for base in ('UIntegerElement', 'MasterElement'):
            for attribs in ({}, {'global': '1'}):
                st, schema = S.w.with_schema()
                parent = klass(S, st, schema, 'Seg')
                before = snapshot(S, st, schema)
                outs = add_to(S, st, schema, eid, name, base, attribs, parent)
                what = 'element with ID %r and name %r' % (eid, name)
                for s, sig, v in outs:
                    if sig != 'raise':
                        S.violated(s, BAD, ADD, what + ': accepted')
                        continue
                    S.holds(s, BAD, ADD)
                    after = snapshot(S, s, schema)
                    d = differences(before, after) if after is not None else []
                    S.true(s, not d, 'an incomplete definition changes nothing', ADD, what + ': ' + '; '.join(d))


def in_file(S):
    """ A schema file with a conflict cannot be loaded, and registers nothing. """
    for name, base, attribs, kind in CONFLICTS[:6] + CONFLICTS[10:16]:
        st = S.fresh(recursion=16)
        root = schema_xml(S.ip, st, ABS + [edef('MasterElement', 0x9B, 'Later', [edef(base, None, name, **attribs)])])
        S.raises(build(S, st, root), 'Exception', CONF, CORE + 'Schema')


def apart(S):
    """ Two schemata with the same IDs and names share no element classes. """
    st = S.fresh(recursion=16)
    r1 = schema_xml(S.ip, st, [HEADER, edef('UIntegerElement', 0x82, 'U'), edef('MasterElement', 0x81, 'M')])
    r2 = schema_xml(S.ip, st, [HEADER, edef('StringElement', 0x82, 'U', multiple='1'),
                               edef('MasterElement', 0x81, 'M', [edef('StringElement', 0x82, 'U')])])
    w1, w2 = Expected(), Expected()
    for d in (HEADER, edef('UIntegerElement', 0x82, 'U'), edef('MasterElement', 0x81, 'M')):
        w1.add(d)
    for d in (HEADER, edef('StringElement', 0x82, 'U', multiple='1'),
              edef('MasterElement', 0x81, 'M', [edef('StringElement', 0x82, 'U')])):
        w2.add(d)
    for s, a in S.normal(build(S, st, r1, 'one'), 'first schema', CORE + 'Schema'):
        for s2, b in S.normal(build(S, s, r2, 'two'), 'second schema', CORE + 'Schema'):
            registry(S, s2, a, w1, CORE + 'Schema')
            registry(S, s2, b, w2, CORE + 'Schema')
            x, y = snapshot(S, s2, a), snapshot(S, s2, b)
            shared = set(x['classes']) & set(y['classes'])
            S.true(s2, not shared, 'an element class belongs to its schema', CORE + 'Schema', 'shared: %r' % (shared,))
