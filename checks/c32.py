""" C32: reading is lazy. """

from contextlib import contextmanager

from .doclib import *

RULE = ('Provenance of stream reads by abstract interpretation: documents whose string, binary, void, unknown and master '
        'payloads have unconstrained sizes of a mebibyte or more are opened, iterated, counted, indexed, crawled and asked '
        'for geometry and names; on every path, the range (position and length, as linear forms over the symbolic sizes) of each read of the '
        'source stream must stay out of every payload that was not asked for, more than a constant look-ahead of 64 '
        'bytes behind its start, and no read may be unbounded. Reading one value may request that payload only.')
LEVEL = 'other'
NAME = 'no read reaches into a payload that was not asked for'
VALUE = 'reading a value requests its own payload only'
NOCACHE = 'nocache asks for no payload at all'
LOOK = 64
BIG = 1 << 20
PRECACHED = (0x8A, 0x8C)        # by their definitions; numbers are pre-cached too, but small


# --------------------------------------------------------------- layouts
def big(f, name, sizelen=8):
    kid(f, name, sizelen)


def flat_(f):
    header(f)
    big(f, 'Void')

    def body(f):
        kid(f, 'U')
        big(f, 'B')
        big(f, 'S')
        kid(f, 'F')
        big(f, 'T')
        big(f, 'Void', 4)
        f.leaf(0x4FFF, 8)
        kid(f, 'D')
    f.master(0x81, body, sizelen=8)
    f.leaf(0x4FFF, 8)
    f.master(0x81, lambda f: [big(f, 'B'), kid(f, 'U')], sizelen=8)


def nested_(f):
    def body(f):
        kid(f, 'U')

        def sub_(f):
            kid(f, 'U')
            big(f, 'S')
            f.master(0x8B, lambda f: [kid(f, 'U'), f.leaf(0x8D, 1, 2), big(f, 'Void')], sizelen=8)
        f.master(0x89, sub_, sizelen=8)
        big(f, 'B')
        f.master(0x89, lambda f: None)
        f.master(0x89, lambda f: [big(f, 'S')], sizelen=8)
    f.master(0x81, body, sizelen=8)
    big(f, 'Void')


def cached(f):
    header(f)

    def body(f):
        big(f, 'P')
        f.master(0x8C, lambda f: [kid(f, 'U'), big(f, 'Void')], sizelen=8)
        big(f, 'B')
    f.master(0x81, body, sizelen=8)


def open_(f):
    f.open_master(0x81, lambda f: [kid(f, 'U'), big(f, 'B'), f.master(0x89, lambda f: [big(f, 'S')], sizelen=8), big(f, 'Void')])
    f.master(0x81, lambda f: [big(f, 'B')], sizelen=8)


def first_big(f):
    big(f, 'Void')
    header(f)
    f.master(0x81, lambda f: [big(f, 'B')], sizelen=8)


def small(lay):
    def f(x):
        return lay(x)
    f.small = True
    return f


LAYS = {'flat': flat_, 'nested': nested_, 'pre-cached': cached, 'unknown size': open_, 'header not first': first_big}
LAYS.update([(n + ', small payloads', small(lay)) for n, lay in LAYS.items()])


def run(C):
    for n, lay in LAYS.items():
        for hd in (False, True):
            C.scenario('opening, %s, headers %s' % (n, hd), opening, lay, hd)
            C.scenario('document operations, %s, headers %s' % (n, hd), docops, lay, hd)
        C.scenario('master operations, %s' % n, masterops, lay)
        C.scenario('geometry and names, %s' % n, facts_, lay)
        C.scenario('values, %s' % n, values, lay)
        C.scenario('nocache, %s' % n, nocache, lay)
        for depth in (None, 0, 1, 2):
            C.scenario('crawling, %s, depth %s' % (n, depth), crawl, lay, depth)
        C.scenario('steps, %s' % n, steps, lay)


def grow(st, f):
    """ Every payload of unconstrained size is large. """
    for e in f.all():
        if not e['children'] and type(e['size']) is not K and e['size'] is not None:
            if not st.facts.restrict(e['size'], BIG):
                raise AnalysisError('layout: a payload cannot be large')


def few(st, f):
    """ Every payload of unconstrained size is small: within a constant look-ahead. """
    for e in f.all():
        if not e['children'] and type(e['size']) is not K and e['size'] is not None:
            if not st.facts.restrict(e['size'], 2, LOOK):
                raise AnalysisError('layout: a payload cannot be small')


class Lazy(Doc):
    """ Every read of the source stream is judged when it happens. """

    def __init__(self, S, lay, **kw):
        self.rule = None
        kw['read_fails'] = self.read
        load = kw.pop('load', True)
        headers = kw.pop('headers', True)
        self.small = kw.pop('small', False) or getattr(lay, 'small', False)
        super().__init__(S, lay, prep=few if self.small else grow, load=False, **kw)
        S.refinable = False
        if load:
            with self.only(self.forbidden(), NAME, CORE + 'Document.__init__'):
                self.st, self.doc = S.pick(S.method(self.st, self.schema, 'load', self.stream, headers=K(headers)), 'document')

    @contextmanager
    def only(self, bad, name, where):
        save, self.rule = self.rule, (bad, name, where)
        yield
        self.rule = save

    def ran(self, outs, name, where):
        """ The normal outcomes; whether an operation may raise is not judged here. """
        self.S.c.paths += len(outs)
        good = [(s, v) for s, sig, v in outs if sig == 'v']
        if good:
            self.S.holds(good[0][0], name + ': the operation ends', where)
        else:
            self.S.undecided(None, name, where, 'the operation always raises')
        return good

    def read(self, st, ref):
        if self.rule is None or st.get(ref).info.get('src') != self.file.src:
            return
        bad, name, where = self.rule
        S, iv = self.S, st.facts.interval
        _, _, _, (pos, k), at = st.events[1]
        at = at or where
        if k == NONE or iv(k)[1] < 0:
            S.violated(st, name, at, 'a read without a limit at %s' % S.show(st, pos))
            return
        end = add(pos, k)
        unclear = False
        if self.small:
            # a read that ends where a payload does depends on its size
            for e in bad:
                a, b = iv(e['size'])
                if a != b and compare(st.facts, end, e['end']) == 'eq' and iv(sub(pos, e['payload']))[0] >= 0:
                    S.violated(st, name, at, 'reads %s bytes at %s, the payload of ID 0x%X, which was not asked for' % (
                        S.show(st, k), S.show(st, pos), e['id']))
                    return
            S.holds(st, name, at)
            return
        for e in bad:
            lo = add(e['payload'], K(LOOK))
            if iv(sub(end, lo))[1] <= 0 or iv(sub(pos, e['end']))[0] >= 0:
                continue
            if iv(sub(end, lo))[0] > 0 and iv(sub(pos, e['end']))[1] < 0 and iv(k)[0] > 0:
                S.violated(st, name, at, 'reads %s bytes at %s, in the payload of ID 0x%X, which was not asked for' % (
                    S.show(st, k), S.show(st, pos), e['id']))
                return
            unclear = True
        if unclear:
            S.undecided(st, name, at, 'read at %s' % S.show(st, pos))
        else:
            S.holds(st, name, at)

    def forbidden(self, asked=(), els=None, precached=PRECACHED):
        """ Payloads nothing asked for: of leaves that are not pre-cached, and of masters whose children were not asked
            for. `asked`: elements whose children (masters) or payloads were; 'all': the children of every master. """
        out = []
        for e in (self.elements if els is None else els):
            if e['id'] == 0x1A45DFA3:
                continue
            if is_master(e):
                if asked == 'all' or e in asked or e['id'] in precached or e.get('open'):
                    out.extend(self.forbidden(asked, e['children'], precached))
                else:
                    out.append(e)
            elif e['id'] not in precached and (asked == 'all' or e not in asked):
                out.append(e)
        return [e for e in out if not (type(e['size']) is K and e['size'].v <= LOOK)]


def opening(S, lay, hd):
    d = Lazy(S, lay, load=False)
    w = CORE + 'Document.__init__'
    with d.only(d.forbidden(), NAME, w):
        d.ran(S.method(d.st, d.schema, 'load', d.stream, headers=K(hd)), NAME, w)


def docops(S, lay, hd):
    d = Lazy(S, lay, headers=hd)
    els = [e for e in d.elements if hd or e['id'] != 0x1A45DFA3 or e is not d.elements[0]]

    def op(w, f):
        with d.only(d.forbidden(), NAME, CORE + w):
            d.ran(f(d.st.clone()), NAME, CORE + w)
    op('Document.__iter__', lambda s: S.listof(s, d.doc))
    op('Document.__len__', lambda s: S.call(s, Ext('builtins.len'), d.doc))
    op('Document.value', lambda s: ip_list(S, S.get(s, d.doc, 'value')))
    for i in range(len(els)):
        op('Document.__getitem__', lambda s: S.method(s, d.doc, '__getitem__', K(i)))
    for a in ('version', 'type'):
        op('Document.' + a, lambda s: S.get(s, d.doc, a))
    op('Document.gc', lambda s: S.method(s, d.doc, 'gc', K(True)))


def ip_list(S, outs):
    return S.ip.bind(outs, lambda s, v: S.listof(s, v))


def walk(S, d):
    """ Elements reached by iterating only, depth first: [(state, [(element, layout, layouts of the masters above)])]. """
    w, w2 = CORE + 'Document.__iter__', CORE + 'MasterElement.__iter__'
    out = []
    with d.only(d.forbidden('all'), NAME, w2):
        for s, v in d.ran(S.listof(d.st.clone(), d.doc), NAME, w):
            todo = [(s, [], [(el, e, ()) for el, e in d.children(s, v, d.elements, w, NAME)])]
            while todo:
                s, done, queue = todo.pop()
                if not queue:
                    out.append((s, done))
                    continue
                (el, e, up), rest = queue[0], queue[1:]
                done = done + [(el, e, up)]
                if not is_master(e):
                    todo.append((s, done, rest))
                    continue
                for s2, v in d.ran(S.listof(s, el), NAME, w2):
                    kids = d.children(s2, v, e['children'], w2, NAME)
                    todo.append((s2, done, [(c, ce, up + (e,)) for c, ce in kids] + rest))
    return out


def masterops(S, lay):
    d = Lazy(S, lay)
    for s0, els in walk(S, d):
        for el, e, up in els:
            if not is_master(e):
                continue
            inside, above = d.forbidden([e] + list(up)), d.forbidden(up)
            for w, bad, f in [('__iter__', inside, lambda s: S.listof(s, el)),
                              ('__len__', inside, lambda s: S.call(s, Ext('builtins.len'), el)),
                              ('value', inside, lambda s: S.get(s, el, 'value')),
                              ('size', above, lambda s: S.get(s, el, 'size')),
                              ('gc', above, lambda s: S.method(s, el, 'gc', K(True)))] + [
                                  ('__getitem__', inside, lambda s, i=i: S.method(s, el, '__getitem__', K(i)))
                                  for i in range(len(e['children']))]:
                with d.only(bad, NAME, CORE + 'MasterElement.' + w):
                    d.ran(f(s0.clone()), NAME, CORE + 'MasterElement.' + w)


def facts_(S, lay):
    """ Geometry, names and attributes of elements ask for no payload at all. """
    d = Lazy(S, lay)
    for s0, els in walk(S, d):
        for el, e, up in els:
            for a in ('offset', 'payloadOffset', 'size', 'id', 'name', 'schema', 'precache', 'multiple'):
                with d.only(d.forbidden(), NAME, CORE + 'Element.' + a):
                    d.ran(S.get(s0.clone(), el, a), NAME, CORE + 'Element.' + a)


def values(S, lay):
    """ The value of one element asks for its payload, and so does its raw data. """
    d = Lazy(S, lay)
    for s0, els in walk(S, d):
        for el, e, up in els:
            if is_master(e):
                continue
            for w, f in (('value', lambda s: S.get(s, el, 'value')), ('getRaw', lambda s: S.method(s, el, 'getRaw')),
                         ('getRawValue', lambda s: S.method(s, el, 'getRawValue'))):
                with d.only(d.forbidden([e] + list(up)), VALUE, CORE + 'Element.' + w):
                    d.ran(f(s0.clone()), VALUE, CORE + 'Element.' + w)


def nocache(S, lay):
    """ Parsing and iterating with nocache=True request no payload, pre-cached or not. """
    d = Lazy(S, lay)
    w = CORE + 'MasterElement.parseElement'

    def all_(els):
        for e in els:
            yield e
            yield from all_(e['children'])
    for e in all_(d.elements):
        s = d.st.clone()
        r = d.fresh_stream(s, e['offset'])
        with d.only(d.forbidden(els=[e], precached=()), NOCACHE, w):
            d.ran(S.method(s, d.doc, 'parseElement', r, nocache=TRUE), NOCACHE, w)
    w = CORE + 'Document.__iter__'
    with d.only(d.forbidden(precached=()), NOCACHE, w):
        d.ran(ip_list(S, S.method(d.st.clone(), d.doc, '__iter__', nocache=TRUE)), NOCACHE, w)
    w = CORE + 'MasterElement.__iter__'
    for s0, els in walk(S, d):
        for el, e, up in els:
            if is_master(e):
                with d.only(d.forbidden([e] + list(up), precached=()), NOCACHE, w):
                    d.ran(ip_list(S, S.method(s0.clone(), el, '__iter__', nocache=TRUE)), NOCACHE, w)


def crawl(S, lay, depth):
    d = Lazy(S, lay)
    w = 'ebmlite.util.flatiter'
    f = S.ip.resolve(d.st, w)
    asked = levels(d.elements, depth if depth is not None else 99)
    with d.only(d.forbidden(asked), NAME, w):
        d.ran(ip_list(S, S.call(d.st.clone(), f, d.doc, K(depth))), NAME, w)


def levels(els, depth):
    """ The masters whose children a crawl to a depth visits. """
    if depth <= 1:
        return []
    return [x for e in els if is_master(e) for x in [e] + levels(e['children'], depth - 1)]


def steps(S, lay):
    """ Only the first root element is taken: nothing behind it is read. """
    d = Lazy(S, lay)
    w = CORE + 'Document.__iter__'
    rest = d.elements[1:]
    behind = [] if d.elements[0].get('open') else [dict(rest[0], payload=sub(rest[0]['offset'], K(LOOK)), end=d.file.end)]
    with d.only(d.forbidden() + behind, NAME, w):
        d.ran(S.ip.bind(S.call(d.st.clone(), Ext('builtins.iter'), d.doc),
                        lambda s, i: S.call(s, Ext('builtins.next'), i)), NAME, w)
