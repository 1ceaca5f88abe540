""" Shared parts of the schema checks: what an abstract schema registers. """

from absint.scen import *
from absint import models as M

CORE = 'ebmlite.core.'
BASES = ('BinaryElement', 'DateElement', 'FloatElement', 'IntegerElement', 'MasterElement', 'StringElement',
         'UIntegerElement', 'UnicodeElement')
LEGACY = {'IntegerElement': 'integer', 'UIntegerElement': 'uinteger', 'FloatElement': 'float', 'StringElement': 'string',
          'UnicodeElement': 'utf-8', 'DateElement': 'date', 'BinaryElement': 'binary', 'MasterElement': 'master'}
PRECACHED = ('DateElement', 'FloatElement', 'IntegerElement', 'UIntegerElement')


def dict_items(st, ref):
    ref = M.deref(st, ref)
    if type(ref) is Ref and st.get(ref).kind == 'dict':
        return list(st.get(ref).data)
    return None


def set_items(st, ref):
    if type(ref) is Ref and st.get(ref).kind in ('set', 'frozenset', 'dict', 'list'):
        d = st.get(ref).data
        return [x[0] if isinstance(x, tuple) else x for x in d]
    if ref == NONE:
        return []
    if type(ref) is Tup:
        return list(ref.items)
    return None


CLASS_ATTRS = ('id', 'name', 'schema', 'mandatory', 'multiple', 'precache', 'length')


def snapshot(S, st, schema):
    """ The public registry of an abstract schema as plain data, or None. """
    ip = S.ip
    out = {}
    for n in ('elements', 'elementsByName', 'globals'):
        its = dict_items(st, attr(ip, st, schema, n))
        if its is None:
            return None
        out[n] = dict(its)
    its = dict_items(st, attr(ip, st, schema, 'elementInfo'))
    if its is None:
        return None
    out['info'] = {}
    for k, v in its:
        d = dict_items(st, v)
        out['info'][k] = dict(d) if d is not None else v
    out['root'] = children(S, st, schema)
    out['classes'] = {}
    for k, c in list(out['elements'].items()) + list(out['elementsByName'].items()):
        if type(c) is Ref and c not in out['classes']:
            out['classes'][c] = {n: attr(ip, st, c, n) for n in CLASS_ATTRS}
            out['classes'][c]['children'] = children(S, st, c)
    return out


def children(S, st, o):
    x = set_items(st, attr(S.ip, st, o, 'children'))
    return None if x is None else frozenset(x)


def differences(a, b, skip=()):
    """ What differs between two snapshots. """
    out = []
    for n in ('elements', 'elementsByName', 'globals', 'info', 'root'):
        if n not in skip and a[n] != b[n]:
            out.append('%s: %s' % (n, delta(a[n], b[n])))
    for c in set(a['classes']) | set(b['classes']):
        x, y = a['classes'].get(c), b['classes'].get(c)
        if x is None or y is None:
            out.append('class %r %s' % (c, 'added' if x is None else 'removed'))
            continue
        for n in x:
            if x[n] != y[n] and (c, n) not in skip:
                out.append('%r.%s: %r -> %r' % (c, n, x[n], y[n]))
    return out


def delta(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return ', '.join('%r: %r -> %r' % (k, x.get(k), y.get(k)) for k in list(x) + [k for k in y if k not in x]
                         if x.get(k) != y.get(k))[:200]
    return '%r -> %r' % (x, y)


def truth(attrs, k, default):
    v = attrs.get(k)
    return default if v is None else str(v).strip()[:1] in tuple('Tt1')


def number(attrs, k):
    try:
        return int(str(attrs[k]).strip(), 0)
    except (KeyError, ValueError):
        return None


class Expected:
    """ What a list of definitions should register, by the documented rules. """

    def __init__(self):
        self.ids, self.names, self.kids, self.globals = {}, {}, {None: set()}, set()

    def add(self, d, parent=None):
        tag, eid, name, a, kids = d
        r = self.ids.get(eid) or self.names.get(name)
        if r is None:
            r = {'id': eid, 'name': name, 'tag': tag, 'multiple': truth(a, 'multiple', False),
                 'mandatory': truth(a, 'mandatory', False), 'precache': truth(a, 'precache', tag in PRECACHED),
                 'length': number(a, 'length')}
            self.ids[eid] = self.names[name] = r
            self.kids[eid] = set()
            if truth(a, 'global', number(a, 'level') == -1):
                self.globals.add(eid)
        self.kids[parent].add(r['id'])
        if tag == 'MasterElement':
            for k in kids:
                self.add(k, r['id'])
        return r


def legacy_xml(ip, st, defs):
    """ The same definitions in the legacy (flat) format. """
    out = []
    for tag, eid, name, attrs, kids in defs:
        a = [(K('name'), K(name)), (K('id'), K('0x%x' % eid)), (K('type'), K(LEGACY[tag]))]
        a += [(K(k), K(v)) for k, v in attrs.items()]
        out.append(new_xml(ip, st, K('element'), tuple(a), K('doc'), ()))
    return new_xml(ip, st, K('table'), (), NONE, tuple(out))


def build(S, st, root, name='abs', fn='parseSchema', **kw):
    """ Outcomes of making a schema from an abstract XML tree. """
    S.ip.cfg['xmlparse'] = lambda ip_, s, src: root
    return S.call(st, CORE + fn, Sym('xml_text', 'str'), name=K(name), **kw)
