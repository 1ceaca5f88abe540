""" C14: the schema cache returns the same instance unless reloading. """

from .fslib import *

RULE = ('Abstract interpretation of every history of loadSchema and parseSchema calls up to a bounded length, over an '
        'abstract disk and XML trees: loading by base name, full path, relative path and Path object, parsing under '
        'the same and other names and without one, with and without reload, and loads that fail (no such file, '
        'malformed XML, a wrong root element, conflicting definitions). After each call the identity of the returned '
        'abstract object is compared with that which the history calls for; after a failed call every name must still '
        'give what it gave before.')
LEVEL = 'other'

LOAD, PARSE = CORE + 'loadSchema', CORE + 'parseSchema'
SAMEI = 'the same name returns the same instance'
NEWI = 'reload returns a new instance'
LATER = 'later loads return the reloaded instance'
FAILS = 'a failing load raises'
KEEPS = 'a failing load leaves the cache as it was'
ALIAS = 'a base name and its full path share an instance'

NAMES = {'/q/a.xml': '/q/a.xml', 'a.xml': '/p/a.xml', '/p/a.xml': '/p/a.xml', 'sub/b.xml': '/cwd/sub/b.xml', '/cwd/sub/b.xml': '/cwd/sub/b.xml'}


def disk():
    d = Disk(['/p/a.xml', '/q/a.xml', '/cwd/sub/b.xml'])
    d.texts = {'<T/>': SMALL, '<C/>': CONFLICTING, '<M': 'malformed'}
    return d


# (function, name, reload, fault)
OPS = [('load', 'a.xml', 0, None), ('load', 'a.xml', 1, None), ('load', '/p/a.xml', 0, None), ('load', '/p/a.xml', 1, None),
       ('path', '/p/a.xml', 0, None), ('parse', 'x', 0, None), ('parse', 'x', 1, None), ('load', 'x', 0, None)]
FAULTS = [('load', 'a.xml', r, f) for r in (0, 1) for f in ('malformed', ('html',), 'conflict', 'gone')] + \
         [('load', '/p/a.xml', 1, f) for f in ('malformed', 'conflict', 'gone')] + \
         [('load', 'none.xml', 0, None), ('load', 'none.xml', 1, None), ('load', '/p/none.xml', 1, None)] + \
         [('parse', 'x', r, f) for r in (0, 1) for f in ('malformed', 'conflict')]
MORE = [('parse', 'a.xml', 0, None), ('load', '/q/a.xml', 0, None), ('load', 'sub/b.xml', 0, None), ('load', '/cwd/sub/b.xml', 0, None), ('load', 'sub/b.xml', 1, None),
        ('path', 'a.xml', 0, None), ('path', 'a.xml', 1, None), ('parse', 'y', 0, None), ('parse', None, 0, None),
        ('parse', None, 1, None), ('load', 'small', 0, None), ('parse', 'small', 0, None), ('parse', 'small', 1, None)]


class Model:
    """ Which instance each name stands for. """

    def __init__(self, names=(), all_=()):
        self.names, self.all = dict(names), set(all_)

    def step(self, op):
        """ What the call must return: an instance, 'new' or 'raise'. """
        fn, name, reload, fault = op
        if fn == 'parse':
            if name is None:
                return 'raise' if fault else 'new'
            if name in self.names and not reload:
                return self.names[name]
            return 'raise' if fault else 'new'
        p = NAMES.get(name)
        if not reload:
            if name in self.names:
                return self.names[name]
            if p in self.names:
                return self.names[p]
        if p is None or fault:
            return 'raise'
        return 'new'

    def after(self, op, inst):
        m = Model(self.names, self.all)
        m.all.add(inst)
        fn, name, reload, fault = op
        if fn == 'parse':
            m.names[name or 'small'] = inst
            return m
        p = NAMES.get(name, name)
        old = m.names.get(p)
        if old is not None:
            for k in [k for k, v in m.names.items() if v == old]:
                m.names[k] = inst
        m.names[name] = m.names[p] = inst
        return m


def run(C):
    depth = 4 if C.thorough else 3
    C.scenario('histories', histories, OPS, depth)
    C.scenario('histories with other names', histories, OPS[:4] + MORE, 2 if not C.thorough else 3)
    for f in FAULTS:
        C.scenario('failing: %s %s reload=%s %s' % f, failing, f, 2 if not C.thorough else 3)


def perform(S, st, d, op):
    fn, name, reload, fault = op
    saved = d.files, d.texts
    S.ip.steps = 0
    if fault is not None:
        d.files, d.texts = dict(d.files), dict(d.texts)
        new = {'conflict': CONFLICTING}.get(fault, fault)
        if fn == 'parse':
            text = '<M' if fault == 'malformed' else '<C/>'
        elif fault == 'gone':
            d.files.pop('/p/a.xml')
            d.files.pop('/q/a.xml')
        else:
            d.files['/p/a.xml'] = new
    try:
        s = st.clone()
        kw = {'reload': TRUE} if reload else {}
        if fn == 'parse':
            if name is not None:
                kw['name'] = K(name)
            return S.call(s, PARSE, K(text if fault else '<T/>'), **kw)
        a = path_of(S, s, name) if fn == 'path' else K(name)
        return S.call(s, LOAD, a, **kw)
    finally:
        d.files, d.texts = saved


def show(h):
    return ' ; '.join('%s(%r%s)%s' % (f, n, ', reload' if r else '', ' [%s]' % (x,) if x else '') for f, n, r, x in h)


def setup(S):
    d = disk()
    st = S.fresh(**d.cfg())
    ref = S.ip.resolve(st, CORE + 'SCHEMATA')
    S.ip.mut(st, ref).data = ()
    set_paths(S, st, ['', '/p', '/q'])
    return d, st


def check(S, st, d, m, op, h):
    """ One call: yields the states after it. """
    want = m.step(op)
    where = PARSE if op[0] == 'parse' else LOAD
    for s, sig, v in perform(S, st, d, op):
        t = show(h + [op])
        if want == 'raise':
            S.true(s, sig == 'raise', FAILS, where, t)
            if sig == 'raise':
                yield s, m, None
            continue
        if sig == 'raise':
            S.violated(s, SAMEI if want != 'new' else 'a schema is loaded', where, '%s: raises' % t)
            continue
        if type(v) is not Ref:
            S.undecided(s, SAMEI, where, t)
            continue
        if want == 'new':
            S.true(s, v not in m.all, NEWI if op[2] else 'another name gives another schema', where, t + ' returns an earlier instance')
            yield s, m.after(op, v), v
        else:
            rule = LATER if any(x[2] for x in h) else ALIAS if op[1] in NAMES else SAMEI
            S.true(s, v == want, rule, where, t + ' returns another instance')
            yield s, m, v


def histories(S, ops, depth):
    d, st = setup(S)

    def go(st, m, h):
        if len(h) == depth:
            for n in list(m.names):
                for x in check(S, st, d, m, ('load', n, 0, None), h):
                    pass
            return
        for op in ops:
            for s, m2, v in check(S, st, d, m, op, h):
                if v is not None or op[3] is not None:
                    go(s, m2, h + [op])
    go(st, Model(), [])


def failing(S, fault, depth):
    """ After any short history, a failing load; then every name again. """
    d, st = setup(S)
    ops = [('load', 'a.xml', 0, None), ('load', '/p/a.xml', 0, None), ('load', 'a.xml', 1, None), ('parse', 'x', 0, None),
           ('parse', 'x', 1, None)]

    def cache(s):
        return set_items_of(S, s)

    def go(st, m, h):
        if m.step(fault) == 'raise':
            before = cache(st)
            for s, m2, v in check(S, st, d, m, fault, h):
                S.true(s, None if before is None else kept(before, cache(s)), KEEPS, LOAD if fault[0] != 'parse' else PARSE,
                       '%s: %r -> %r' % (show(h + [fault]), before, cache(s)))
                for op in ops[:2] + ops[3:4]:
                    for s2, m3, v2 in check(S, s, d, m2, op, h + [fault]):
                        pass
        if len(h) < depth:
            for op in ops:
                for s, m2, v in check(S, st, d, m, op, h):
                    go(s, m2, h + [op])
    go(st, Model(), [])


def kept(before, after):
    a, b = dict(before), dict(after)
    return all(b.get(k) == v for k, v in a.items()) and set(b.values()) == set(a.values())


def set_items_of(S, st):
    its = dict_items(st, S.ip.resolve(st, CORE + 'SCHEMATA'))
    return None if its is None else frozenset(its)
