"""
Models of the Python language runtime and of the standard library used by the
analysed package: transfer functions over the abstract domain of `terms`.

Nothing in here knows anything about the analysed package.
"""
import ast
import builtins
import codecs
import datetime as _dt
import string as _string

from .terms import *
from .interp import Obj, Call, ok, pyobj, canon_ext, State, AnalysisError, Budget

MODELS = {}
ATTRS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def A(c, i, name=None, default=None):
    if i < len(c.args):
        return c.args[i]
    if name is not None and name in c.kw:
        return c.kw[name]
    return default


def isstr(t):
    return type(t) is K and isinstance(t.v, str)


def isbytes(t):
    return type(t) is K and isinstance(t.v, bytes)


def isint(t):
    return type(t) is K and isinstance(t.v, int)


def deref(st, v):
    """ The contents of a bytearray, or the value itself. """
    if type(v) is Ref and st.get(v).kind == 'bytearray':
        return st.get(v).data
    return v


def typ(ip, st, v):
    """ Type name of a value or None. """
    if type(v) is Ref:
        o = st.get(v)
        if o.kind in ('list', 'dict', 'set', 'bytearray', 'frozenset'):
            return o.kind
        return o.kind
    return st.facts.typeof(v)


# ---------------------------------------------------------------------------
# Containers
# ---------------------------------------------------------------------------

def is_rep(x):
    return type(x) is Desc and x.kind == 'rep'


def plain_list(o):
    return isinstance(o.data, tuple) and not any(is_rep(x) for x in o.data) and not o.info.get('opaque')


def plain_dict(o):
    return isinstance(o.data, tuple) and not any(is_rep(k) for k, _ in o.data) and not o.info.get('opaque')


def container_len(ip, st, ref):
    o = st.get(ref)
    if o.kind == 'bytearray':
        return bytes_len(o.data)
    if not isinstance(o.data, tuple):
        return None
    if o.info.get('opaque'):
        return Op('len', (o.info['opaque'], K(len(o.data))), 'int') if o.data else mklen(o.info['opaque'])
    n = 0
    extra = ZERO
    for x in o.data:
        k = x[0] if o.kind in ('dict', 'set', 'frozenset') else x
        if is_rep(k):
            extra = add(extra, Op('replen', (k,), 'int'))
        else:
            n += 1
    return add(K(n), extra)


def make_set(ip, st, vals, kind='set'):
    ref = ip.alloc(st, Obj(kind, data=()))
    outs = [(st, 'v', None)]
    for v in vals:
        outs = ip.bind(outs, lambda s, _, v=v: dict_set(ip, s, ref, v, NONE, quiet=True))
    return ip.bind(outs, lambda s, _: ok(s, ref))


def hashable(ip, st, k):
    if type(k) is Ref and st.get(k).kind in ('list', 'dict', 'set', 'bytearray'):
        return False
    if type(k) is Ref and st.get(k).kind == 'inst':
        # __eq__ without __hash__ makes instances unhashable
        cls = st.get(k).cls
        for c in ip.mro(st, cls):
            if type(c) is Ref:
                a = st.get(c).attrs
                if '__hash__' in a:
                    return a['__hash__'] != NONE
                if '__eq__' in a:
                    return False
    return True


def key_search(ip, st, ref, k, found, missing):
    """ Branch over the position of key k in a dict/set. `found(state, i)` or
        `missing(state)`; keys that cannot be decided split the state. """
    o = st.get(ref)
    if not hashable(ip, st, k):
        return ip.raise_(st, 'TypeError', 'unhashable type')
    res = []
    cur = [st]
    for i, (kk, vv) in enumerate(o.data):
        if is_rep(kk):
            continue
        nxt = []
        for s in cur:
            c = ip.eq_cond(s, kk, k)
            if type(c) is Op and c.op == 'all':
                c = ip.decide(s, Op('eq', (kk, k), 'bool'))
            for s2, b in ip.branch(s, c):
                if b:
                    res.extend(found(s2, i))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        o = s.get(ref)
        reps = [kk for kk, _ in o.data if is_rep(kk)]
        base = o.info.get('opaque')
        if reps or base is not None:
            src = Tup(reps) if reps else base
            for s2, b in ip.branch(s, ip.decide(s, Op('in', (k, src), 'bool'))):
                if b:
                    res.extend(found(s2, -1))
                else:
                    res.extend(missing(s2))
        else:
            res.extend(missing(s))
    return res


def opaque_value(ip, st, ref, k):
    o = st.get(ref)
    reps = [kk for kk, _ in o.data if is_rep(kk)]
    f = o.info.get('valueof')
    if f is not None:
        return f(ip, st, k)
    return Op('dictget', (Tup(reps) if reps else o.info['opaque'], k), None)


def dict_value(ip, st, ref, i, k):
    if i >= 0:
        return st.get(ref).data[i][1]
    return opaque_value(ip, st, ref, k)


def dict_set(ip, st, ref, k, v, quiet=False):
    what = None if quiet else 'setitem'

    def found(s, i):
        o = ip.mut(s, ref, what, k, v)
        if i >= 0:
            d = list(o.data)
            d[i] = (d[i][0], v)
            o.data = tuple(d)
        else:
            o.data = o.data + ((k, v),)
        return ok(s, None)

    def missing(s):
        o = ip.mut(s, ref, what, k, v)
        o.data = o.data + ((k, v),)
        return ok(s, None)
    return key_search(ip, st, ref, k, found, missing)


def dict_update(ip, st, ref, other):
    if type(other) is Ref and st.get(other).kind == 'dict':
        o = st.get(other)
        if not plain_dict(o):
            m = ip.mut(st, ref, 'update', other)
            m.data = m.data + tuple(x for x in o.data)
            if o.info.get('opaque') is not None:
                m.info['opaque'] = o.info['opaque'] if 'opaque' not in m.info else Op('merge', (m.info['opaque'], o.info['opaque']))
            return ok(st, None)
        outs = [(st, 'v', None)]
        for k, v in o.data:
            outs = ip.bind(outs, lambda s, _, k=k, v=v: dict_set(ip, s, ref, k, v))
        return outs
    if type(other) is Ref and st.get(other).kind in ('list',) or type(other) in (Tup, Gen):
        def go(s, items):
            outs = [(s, 'v', None)]
            for it in items:
                outs = ip.bind(outs, lambda s1, _, it=it: ip.bind(
                    to_items(ip, s1, it, 2), lambda s2, kv: dict_set(ip, s2, ref, kv[0], kv[1])))
            return outs
        return ip.bind(to_items(ip, st, other), go)
    m = ip.mut(st, ref, 'update', other)
    m.info['opaque'] = other if 'opaque' not in m.info else Op('merge', (m.info['opaque'], other))
    return ok(st, None)


def list_append(ip, st, ref, v, quiet=False):
    o = ip.mut(st, ref, None if quiet else 'append', v)
    o.data = o.data + (v,)
    return ok(st, None)


def dict_eq(ip, st, oa, ob):
    if not plain_dict(oa) or not plain_dict(ob):
        return Op('eq', (Op('dictof', (Tup([Tup(x) for x in oa.data]),)), Op('dictof', (Tup([Tup(x) for x in ob.data]),))), 'bool')
    if len(oa.data) != len(ob.data):
        return False
    cs = []
    db = dict(ob.data)
    for k, v in oa.data:
        if k not in db:
            und = [x for x in db if ip.eq_cond(st, x, k) not in (True, False)]
            if und:
                return Op('eq', (Tup([Tup(x) for x in oa.data]), Tup([Tup(x) for x in ob.data])), 'bool')
            return False
        cs.append(ip.eq_cond(st, v, db[k]))
    return ip.and_conds(st, cs)


def set_compare(ip, st, op, a, b):
    xs = {k for k, _ in st.get(a).data}
    ys = {k for k, _ in st.get(b).data}
    if all(type(k) is K for k in xs | ys):
        return ok(st, K({'Lt': xs < ys, 'LtE': xs <= ys, 'Gt': xs > ys, 'GtE': xs >= ys}[op]))
    return ok(st, Op('setcmp', (K(op), a, b), 'bool'))


def known_items(ip, st, v):
    """ Items of a finite, fully known sequence, without evaluating code. """
    if type(v) is Tup:
        return list(v.items)
    if type(v) is K and isinstance(v.v, (str, tuple, list)):
        return [K(x) for x in v.v]
    if type(v) is K and isinstance(v.v, (bytes, bytearray)):
        return [K(x) for x in v.v]
    if type(v) is Ref:
        o = st.get(v)
        if o.kind == 'list' and plain_list(o):
            return list(o.data)
        if o.kind in ('set', 'frozenset') and plain_dict(o):
            return [k for k, _ in o.data]
        if o.kind == 'dict' and plain_dict(o):
            return [k for k, _ in o.data]
        if o.kind == 'bytearray' and isbytes(o.data):
            return [K(x) for x in o.data.v]
        if o.kind == 'xml' and plain_list(o):
            return list(o.data)
    if type(v) is Desc and v.kind == 'range' and all(isint(p) for p in v.parts):
        r = range(*[p.v for p in v.parts])
        if len(r) <= 2000:
            return [K(x) for x in r]
    if type(v) is Desc and v.kind in ('dictkeys', 'dictvalues', 'dictitems'):
        o = st.get(v.parts[0])
        if o.kind == 'dict' and plain_dict(o):
            return [k if v.kind == 'dictkeys' else x if v.kind == 'dictvalues' else Tup([k, x]) for k, x in o.data]
    if type(v) is Desc and v.kind == 'rangeset':
        return None
    if type(v) is Desc and v.kind == 'deque':
        return None
    return None


def to_items(ip, st, v, n=None):
    """ Outcomes whose value is a Python list of the items of v. """
    its = known_items(ip, st, v)
    if its is not None:
        return ok(st, its)
    if n is not None and type(v) in (Sym, Op) and ip.type_of(st, v) is None:
        return ok(st, [Op('item', (v, K(i)), None) for i in range(n)])
    if type(v) is Op and v.op in ('partition0', 'splitext') and n:
        return ok(st, [Op('item', (v, K(i)), 'str') for i in range(n)])
    if n is not None and type(v) in (Sym, Op) and st.facts.typeof(v) in ('tuple', 'list'):
        return ok(st, [Op('item', (v, K(i)), None) for i in range(n)])
    tmp = ip.alloc(st, Obj('list', data=()))

    def done(s, _):
        data = s.get(tmp).data
        if n is not None and any(is_rep(x) for x in data):
            s.doubt('unpacking a sequence of unknown length')
            return ok(s, [Op('item', (Tup(data), K(i)), None) for i in range(n)])
        return ok(s, list(data))
    return ip.bind(iterate(ip, st, v, lambda s, x: list_append(ip, s, tmp, x, quiet=True)), done)


# ---------------------------------------------------------------------------
# Iteration
# ---------------------------------------------------------------------------

_cons = [0]


def protected(ip, st, run, handler):
    """ Run a producer `run(state, handler)` whose own exception handlers must
        not see the consumer's exits. """
    _cons[0] += 1
    uid = _cons[0]

    def h(s, v):
        return [(s2, sig, x) if sig == 'v' else (s2, 'consumer', (uid, sig, x))
                for s2, sig, x in handler(s, v)]
    res = []
    for s, sig, x in run(st, h):
        if sig == 'consumer' and x[0] == uid:
            res.append((s, x[1], x[2]))
        elif sig == 'v':
            res.append((s, 'v', NONE))
        else:
            res.append((s, sig, x))
    return res


def seq(ip, st, items, handler):
    outs = [(st, 'v', NONE)]
    for x in items:
        if not any(o[1] == 'v' for o in outs):
            break
        outs = ip.bind(outs, lambda s, _, x=x: handler(s, x))
    return outs


def iterate(ip, st, it, handler, node=None):
    t = type(it)
    if t is Ref:
        o = st.get(it)
        if o.kind in ('list', 'xml'):
            return iter_list(ip, st, it, handler, node)
        if o.kind in ('set', 'frozenset') and len(o.data) > 1 and plain_dict(o) and all(isstr(k) for k, _ in o.data):
            # strings are hashed differently in every run: any order can occur
            return iterate(ip, st, Tup([k for k, _ in reversed(o.data)]), handler, node)
        if o.kind in ('dict', 'set', 'frozenset'):
            return iter_dict(ip, st, it, handler, node, lambda k, v: k)
        if o.kind == 'bytearray':
            return iterate(ip, st, o.data, handler, node)
        if o.kind == 'inst':
            f, _ = ip.lookup(st, o.cls, '__iter__')
            if f is not None:
                from .interp import Fn as _F
                return ip.bind(ip.call(st, Bound(f, it), Call()), lambda s, g: iterate(ip, s, g, handler, node))
            g, _ = ip.lookup(st, o.cls, '__next__')
            if g is not None:
                st.doubt('iteration by __next__')
        if o.kind == 'ext' and o.info.get('iter'):
            return iter_ext(ip, st, it, handler, node)
        if o.kind in ('opaque', 'stream', 'ext'):
            return iter_opaque(ip, st, it, handler, node)
        if o.kind in ('class', 'module'):
            return ip.raise_(st, 'TypeError', 'object is not iterable')
    if t is Gen:
        if it.kind in ONCE:
            # an iterator that was used up gives nothing more
            key = ('gen', it.uid)
            was = st.ctx.get(key)
            if was is not None:
                if st.ctx.get('genwide'):
                    st.doubt('iterator used again after a summarised loop')
                if was == 'done':
                    return [(st, 'v', NONE)]
                st.doubt('%s resumed' % it.kind)
            res = iterate_gen(ip, st, it, handler, node)
            for s, sig, _ in res:
                s.ctx[key] = 'done' if sig == 'v' else 'left'
            return res
        return iterate_gen(ip, st, it, handler, node)
    return iterate_other(ip, st, it, handler, node)


ONCE = {'genexp', 'enumerate', 'map', 'filter', 'zip', 'chain', 'reversed', 'islice'}


def iterate_gen(ip, st, it, handler, node):
    if True:
        if it.kind == 'fn':
            return protected(ip, st, lambda s, h: ip.run_gen(s, it, h), handler)
        if it.kind == 'genexp':
            return protected(ip, st, lambda s, h: ip.run_genexp(s, it, h), handler)
        if it.kind == 'enumerate':
            inner, start = it.parts
            cnt = ip.alloc(st, Obj('list', data=(start,)), 'counter')

            def h(s, v):
                i = s.get(cnt).data[0]
                if type(i) is Desc:
                    i = Op('repitem', (i, ZERO), 'int')
                o = ip.mut(s, cnt)
                o.data = (add(i, ONE),)
                return handler(s, Tup([i, v]))
            return iterate(ip, st, inner, h, node)
        if it.kind == 'map':
            f = it.parts[0]
            if len(it.parts) > 2:
                def hz(s, v):
                    return ip.bind(ip.call(s, f, Call(list(v.items))), handler)
                return iterate(ip, st, Gen('zip', *it.parts[1:]), hz, node)
            return protected(ip, st, lambda s, h: iterate(
                ip, s, it.parts[1], lambda s1, v: ip.bind(ip.call(s1, f, Call([v])), h), node), handler)
        if it.kind == 'filter':
            f = it.parts[0]

            def hf(s, v):
                outs = ok(s, v) if f == NONE else ip.call(s, f, Call([v]))
                res = []
                for s1, sig, r in ip.bind(outs, lambda s2, r: ip.branch_val(s2, r)):
                    if sig != 'v':
                        res.append((s1, sig, r))
                    elif r:
                        res.extend(handler(s1, v))
                    else:
                        res.append((s1, 'v', NONE))
                return res
            return iterate(ip, st, it.parts[1], hf, node)
        if it.kind == 'zip':
            lists = [known_items(ip, st, p) for p in it.parts]
            if all(x is not None for x in lists):
                return seq(ip, st, [Tup(x) for x in zip(*lists)], handler)
            if sum(x is None for x in lists) == 1 and any(x is None for x in lists):
                # drive by the unknown one, others by index
                ui = [i for i, x in enumerate(lists) if x is None][0]
                if all(type(p) is Gen and p.kind == 'count' for i, p in enumerate(it.parts) if i != ui):
                    pass
            cnt = [i for i, p in enumerate(it.parts) if type(p) is Gen and p.kind == 'count']
            rest = [i for i in range(len(it.parts)) if i not in cnt]
            if len(rest) == 1 and cnt:
                start = it.parts[cnt[0]].parts[0]

                def hc(s, v):
                    i, x = v.items
                    vals = [None] * len(it.parts)
                    for c_ in cnt:
                        vals[c_] = add(it.parts[c_].parts[0], sub(i, ZERO))
                    vals[rest[0]] = x
                    return handler(s, Tup(vals))
                return iterate(ip, st, Gen('enumerate', it.parts[rest[0]], ZERO), hc, node)

            # materialise each
            def mat(s, acc, i):
                if i == len(it.parts):
                    if all(not any(is_rep(x) for x in a) for a in acc):
                        return seq(ip, s, [Tup(x) for x in zip(*acc)], handler)
                    return iter_opaque(ip, s, Op('zip', tuple(Tup(a) for a in acc), None), handler, node)
                return ip.bind(to_items(ip, s, it.parts[i]), lambda s1, its: mat(s1, acc + [its], i + 1))
            return mat(st, [], 0)
        if it.kind == 'chain':
            def many(s, i):
                if i == len(it.parts):
                    return [(s, 'v', NONE)]
                return ip.bind(iterate(ip, s, it.parts[i], handler, node), lambda s1, _: many(s1, i + 1))
            return many(st, 0)
        if it.kind == 'reversed':
            its = known_items(ip, st, it.parts[0])
            if its is not None:
                return seq(ip, st, its[::-1], handler)
            return iter_opaque(ip, st, Op('reversed', (it.parts[0],), None), handler, node)
        if it.kind in ('iter', 'islice0'):
            return iterate(ip, st, it.parts[0], handler, node)
        if it.kind == 'islice':
            inner, lo, hi = it.parts
            cnt = ip.alloc(st, Obj('list', data=(ZERO,)), 'counter')

            def pre(s):
                # the stop is checked before the next item is taken
                i = s.get(cnt).data[0]
                return i

            def hs(s, v):
                i = s.get(cnt).data[0]
                o = ip.mut(s, cnt)
                o.data = (add(i, ONE),)
                res = []
                c = ip.decide(s, Op('lt0', (sub(i, lo),), 'bool'))
                for s1, b in ip.branch(s, c):
                    if b:
                        res.append((s1, 'v', NONE))
                        continue
                    for s2, sig, x in handler(s1, v):
                        if sig != 'v' or hi == NONE:
                            res.append((s2, sig, x))
                            continue
                        c2 = ip.decide(s2, Op('lt0', (sub(add(i, ONE), hi),), 'bool'))
                        for s3, b3 in ip.branch(s2, c2):
                            res.append((s3, 'v', NONE) if b3 else (s3, 'islicestop', NONE))
                return res
            outs = []
            c0 = True if hi == NONE else ip.decide(st, Op('lt0', (scale(hi, -1),), 'bool'))
            for s, b in ip.branch(st, c0):
                if not b:
                    outs.append((s, 'v', NONE))
                    continue
                for s1, sig, x in iterate(ip, s, inner, hs, node):
                    outs.append((s1, 'v', NONE) if sig == 'islicestop' else (s1, sig, x))
            return outs
        if it.kind == 'count':
            start = it.parts[0]

            def stepc(s, i):
                return handler(s, add(start, i))
            return ip.run_loop(st, stepc, node)
        if it.kind == 'callit':
            f, sentinel = it.parts

            def stepf(s, i):
                res = []
                for s1, sig, v in ip.call(s, f, Call()):
                    if sig != 'v':
                        res.append((s1, sig, v))
                        continue
                    for s2, b in ip.branch(s1, ip.eq_cond(s1, v, sentinel)):
                        res.extend([(s2, 'exit', None)] if b else handler(s2, v))
                return res
            return exitv(ip.run_loop(st, stepf, node))
    return iterate_other(ip, st, it, handler, node)


def iterate_other(ip, st, it, handler, node):
    t = type(it)
    if t is Desc:
        if it.kind == 'range':
            return iter_range(ip, st, it, handler, node)
        if it.kind in ('dictkeys', 'dictvalues', 'dictitems'):
            f = {'dictkeys': lambda k, v: k, 'dictvalues': lambda k, v: v,
                 'dictitems': lambda k, v: Tup([k, v])}[it.kind]
            return iter_dict(ip, st, it.parts[0], handler, node, f)
        if it.kind == 'classdictitems':
            pass
    its = known_items(ip, st, it)
    if its is not None:
        return seq(ip, st, its, handler)
    ty = st.facts.typeof(it) if isinstance(it, Term) and t is not Ref else None
    if ty in ('int', 'float', 'bool', 'NoneType', 'function'):
        return ip.raise_(st, 'TypeError', 'object is not iterable')
    if ty in ('bytes', 'str', 'bytearray') or t is Bs:
        return iter_string(ip, st, it, handler, node, ty)
    return iter_opaque(ip, st, it, handler, node)


def exitv(outs):
    return [(s, 'v' if sig == 'exit' else sig, NONE if sig == 'exit' else x) for s, sig, x in outs]


def iter_list(ip, st, ref, handler, node):
    """ By index, seeing changes made to the list during the iteration. """
    cnt = ip.alloc(st, Obj('list', data=(ZERO,)), 'counter')

    def step(s, i):
        data = s.get(ref).data
        j = i.v if isint(i) else None
        if j is not None and j < len(data) and not any(is_rep(x) for x in data[:j + 1]):
            return handler(s, data[j])
        if not any(is_rep(x) for x in data) and not s.get(ref).info.get('opaque'):
            if j is not None:
                return [(s, 'exit', None)]
            # a later iteration over a known list: should not happen (unrolled)
            s.doubt('long list')
            return [(s, 'exit', None)]
        res = []
        base = s.get(ref).info.get('opaque') or Tup([x for x in data if is_rep(x)])
        for s1, b in ip.branch(s, ip.decide(s, Op('more', (base, i), 'bool'))):
            if b:
                f = s1.get(ref).info.get('itemof')
                v = f(ip, s1, i) if f else None
                if v is None:
                    v = Op('repitem', (base, i), None)
                res.extend(handler(s1, v))
            else:
                res.append((s1, 'exit', None))
        return res
    n = container_len(ip, st, ref)
    return exitv(ip.run_loop(st, step, node, peel=(len(st.get(ref).data) + 2) if plain_list(st.get(ref)) and len(st.get(ref).data) < 60 else None))


def iter_dict(ip, st, ref, handler, node, f):
    o = st.get(ref)
    if not plain_dict(o):
        src = o.info.get('opaque') or Tup([k for k, _ in o.data if is_rep(k)])
        outs = [(st, 'v', NONE)]
        for k, v in o.data:
            if not is_rep(k):
                outs = ip.bind(outs, lambda s, _, k=k, v=v: handler(s, f(k, v)))

        def rest(s, _):
            def step(s1, i):
                res = []
                for s2, b in ip.branch(s1, ip.decide(s1, Op('more', (src, i), 'bool'))):
                    if b:
                        kf = o.info.get('keyof')
                        k = kf(ip, s2, i) if kf else Op('key', (src, i), o.info.get('keytype'))
                        vf = o.info.get('valueof')
                        v = vf(ip, s2, k) if vf else Op('dictget', (src, k), None)
                        res.extend(handler(s2, f(k, v)))
                    else:
                        res.append((s2, 'exit', None))
                return res
            return exitv(ip.run_loop(s, step, node))
        return ip.bind(outs, rest)
    keys = [k for k, _ in o.data]
    n = len(keys)

    def go(s, i):
        d = s.get(ref).data
        if len(d) != n:
            return ip.raise_(s, 'RuntimeError', 'dictionary changed size during iteration')
        if i >= n:
            return [(s, 'v', NONE)]
        return ip.bind(handler(s, f(*d[i])), lambda s1, _: go(s1, i + 1))
    return go(st, 0)


def iter_range(ip, st, it, handler, node):
    a, b, c = it.parts
    a, b, c = st.facts.simp(a), st.facts.simp(b), st.facts.simp(c)
    its = known_items(ip, st, Desc('range', a, b, c))
    if its is not None and len(its) <= 300:
        return seq(ip, st, its, handler)
    if not isint(c):
        # unknown step: assume positive unless known negative
        lo, hi = st.facts.interval(c)
        if lo <= 0:
            res = []
            for s, neg in ip.branch(st, Op('lt0', (add(c, K(-1)),), 'bool')):
                if neg:
                    res.extend(ip.raise_(s, 'ValueError', 'range() arg 3 must not be zero'))
                else:
                    res.extend(iter_range(ip, s, it, handler, node))
            return res
    step_ = c
    pos = not (isint(c) and c.v < 0)
    # index times an unknown step is not linear: use a running counter
    cnt = ip.alloc(st, Obj('list', data=(a,)), 'counter')

    def step(s, i):
        if isint(step_):
            v = add(a, scale(i, step_.v))
        else:
            v = s.get(cnt).data[0]
            if type(v) is Desc:
                v = Op('mulidx', (i, step_), 'int')
                s.facts.restrict(v, lo=0)
                v = add(a, v)
        cnd = Op('lt0', (sub(v, b) if pos else sub(b, v),), 'bool')
        res = []
        for s1, more in ip.branch(s, ip.decide(s, cnd)):
            if not more:
                res.append((s1, 'exit', None))
                continue
            if not isint(step_):
                o = ip.mut(s1, cnt)
                o.data = (add(v, step_),)
            res.extend(handler(s1, v))
        return res
    return exitv(ip.run_loop(st, step, node))


def iter_string(ip, st, it, handler, node, ty):
    n = bytes_len(it)

    def step(s, i):
        res = []
        for s1, more in ip.branch(s, ip.decide(s, Op('lt0', (sub(i, n),), 'bool'))):
            if more:
                res.extend(ip.bind(getitem(ip, s1, it, i), lambda s2, v: handler(s2, v)))
            else:
                res.append((s1, 'exit', None))
        return res
    c = st.facts.const(n)
    return exitv(ip.run_loop(st, step, node, peel=None if c is None else c + 1))


def iter_ext(ip, st, ref, handler, node):
    """ A list iterator object (from iter()). """
    def step(s, i):
        res = []
        for s1, sig, v in next_of(ip, s, ref):
            if sig == 'raise' and s1.get(v).cls == Ext('builtins.StopIteration'):
                res.append((s1, 'exit', None))
            elif sig == 'v':
                res.extend(handler(s1, v))
            else:
                res.append((s1, sig, v))
        return res
    return exitv(ip.run_loop(st, step, node))


def iter_opaque(ip, st, it, handler, node):
    base = it
    info = {}
    if type(it) is Ref:
        info = st.get(it).info
    if ip.cfg.get('iter_opaque_raise') and ip.cfg['iter_opaque_raise'](st, it):
        pass

    def step(s, i):
        res = []
        for s1, b in ip.branch(s, ip.decide(s, Op('more', (base, i), 'bool'))):
            if b:
                f = info.get('itemof')
                v = f(ip, s1, i) if f else Op('elem', (base, i), None)
                res.extend(handler(s1, v))
            else:
                res.append((s1, 'exit', None))
        return res
    return exitv(ip.run_loop(st, step, node))


def next_of(ip, st, v):
    """ next(v): StopIteration at the end. """
    if type(v) is Ref and st.get(v).kind == 'ext' and st.get(v).info.get('iter'):
        o = st.get(v)
        src, i = o.info['src'], o.info['pos']
        if isint(i):
            its = known_items(ip, st, src)
            if its is not None:
                if i.v < len(its):
                    m = ip.mut(st, v)
                    m.info['pos'] = K(i.v + 1)
                    return ok(st, its[i.v])
                return ip.raise_(st, 'StopIteration')
            if type(src) is Gen:
                return next_gen(ip, st, src, v)
        res = []
        for s1, b in ip.branch(st, ip.decide(st, Op('more', (src, i), 'bool'))):
            if b:
                m = ip.mut(s1, v)
                m.info['pos'] = add(i, ONE)
                res.extend(ok(s1, Op('elem', (src, i), None)))
            else:
                res.extend(ip.raise_(s1, 'StopIteration'))
        return res
    if type(v) is Gen:
        return next_gen(ip, st, v, None)
    if type(v) is Ref and st.get(v).kind == 'inst':
        f, _ = ip.lookup(st, st.get(v).cls, '__next__')
        if f is not None:
            return ip.call(st, Bound(f, v), Call())
    st.ev('ocall', v, '__next__', Tup([]), ip.where())
    return ok(st, Op('next', (v,), None))


def next_gen(ip, st, g, ref):
    """ The generator is left at its next `yield` and resumed from there. """
    res = []
    for s, sig, x in iterate(ip, st, g, lambda s, x: [(s, 'gotnext', x)]):
        if sig == 'gotnext':
            res.append((s, 'v', x))
        elif sig == 'v':
            res.extend(ip.raise_(s, 'StopIteration'))
        else:
            res.append((s, sig, x))
    return res


# ---------------------------------------------------------------------------
# Text formatting
# ---------------------------------------------------------------------------

def concat_text(parts):
    segs = []
    for p in parts:
        segs.extend(segs_of(p, True))
    return mkbs(segs, True)


def to_str(ip, st, v, conv='s'):
    """ str(v) / repr(v) """
    v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
    if type(v) is K:
        if conv == 'r':
            return ok(st, K(repr(v.v)))
        return ok(st, K(str(v.v)))
    if type(v) is Ref:
        o = st.get(v)
        if o.kind == 'inst':
            for name in (('__str__', '__repr__') if conv == 's' else ('__repr__',)):
                f, c = ip.lookup(st, o.cls, name)
                if type(f) is Fn:
                    return ip.call(st, Bound(f, v), Call())
            if conv == 's' and exc_class(ip, st, o.cls):
                a = o.attrs.get('args')
                if type(a) is Tup:
                    if len(a.items) == 1:
                        return to_str(ip, st, a.items[0])
                    if not a.items:
                        return ok(st, K(''))
        if o.kind == 'module':
            n = o.info['name']
            return ok(st, K("<module '%s' from '/site/%s.py'>" % (n, n.replace('.', '/'))))
        if o.kind == 'class':
            return ok(st, Op('repr', (K(o.info['name']),), 'str'))
        if o.kind == 'bytearray':
            return ok(st, Op('repr', (o.data, K('bytearray')), 'str'))
        return ok(st, Op('str' if conv == 's' else 'repr', (v,), 'str'))
    if type(v) is Desc and v.kind == 'path' and conv == 's':
        return ok(st, v.parts[0])
    ty = st.facts.typeof(v)
    if conv == 's' and ty == 'str':
        return ok(st, v)
    if type(v) is Op and v.op == 'fmtint' and False:
        pass
    return ok(st, Op('str' if conv == 's' else 'repr', (v,), 'str'))


def exc_class(ip, st, cls):
    return any(type(c) is Ext and (c.name == 'builtins.BaseException' or c.name.startswith('any.'))
               for c in ip.mro(st, cls))


def format_value(ip, st, v, spec, conv):
    """ format(v, spec) after an optional conversion. """
    if conv in ('r', 's', 'a'):
        return ip.bind(to_str(ip, st, v, 'r' if conv != 's' else 's'), lambda s, t: format_value(ip, s, t, spec, ''))
    if spec in ('', None) and spec is not None:
        return to_str(ip, st, v)
    v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
    if type(v) is K and spec is not None:
        try:
            return ok(st, K(format(v.v, spec)))
        except (ValueError, TypeError) as e:
            return ip.raise_(st, type(e).__name__, str(e))
    return ok(st, fmt_op(st, spec, v))


def fmt_op(st, spec, v):
    """ Canonical formatting term: radix, width and fill normalised. """
    s = spec if spec is not None else '?'
    m = re_int.match(s)
    if m and st.facts.typeof(v) in ('int', 'bool'):
        alt, w, ty = m.group(1), m.group(2), m.group(3) or 'd'
        w = w or ''
        if not alt and ty == 'd' and not w:
            return Op('str', (v,), 'str')
        t = Op('fmt', (K(w + ty), v), 'str')
        if alt:
            t = Op('fmt', (K('#' + w + ty), v), 'str')
        st.facts.restrict(mklen(t), max(1, int(w or 1)))
        lo, hi = st.facts.interval(v)
        width = None
        if w == '02' and not alt and ty == 'x' and lo >= 0 and hi <= 255:
            return Bs([Seg('rd', Op('hexbyte', (v,), 'bytes'), ZERO, K(2))], True)
        if w and not alt and lo >= 0 and ty in 'xX' and hi < 16 ** int(w) and w.startswith('0'):
            return Bs([Seg('t', Op('fmt', (K(w + ty), v), 'str'), K(int(w)))], True)
        return t
    return Op('fmt', (K(s), v), 'str')


import re as _re  # noqa: E402
re_int = _re.compile(r'^(#?)(0?\d*)([dxXob]?)$')
PCT = _re.compile(r'%(\((\w+)\))?([#0\- +]*)(\d*)(\.\d+)?([diouxXeEfFgGcrsa%])')


def percent(ip, st, fmt, arg):
    text = isinstance(fmt.v, str)
    f = fmt.v if text else fmt.v.decode('latin-1')
    if type(arg) is Tup:
        args = list(arg.items)
        mapping = None
    elif type(arg) is Ref and st.get(arg).kind == 'dict':
        args, mapping = [arg], arg
    else:
        args, mapping = [arg], None
    if not text:
        return ok(st, Op('fmtbytes', (fmt, Tup(args)), 'bytes'))
    outs = [(st, 'v', ())]
    pos = 0
    n = 0
    for m in PCT.finditer(f):
        if m.start() > pos:
            outs = ip.bind(outs, lambda s, acc, t=f[pos:m.start()]: ok(s, acc + (K(t),)))
        pos = m.end()
        if m.group(6) == '%':
            outs = ip.bind(outs, lambda s, acc: ok(s, acc + (K('%'),)))
            continue
        if m.group(2):
            if mapping is None:
                return ip.raise_(st, 'TypeError', 'format requires a mapping')
            src = lambda s, key=m.group(2): getitem(ip, s, mapping, K(key))
        else:
            if n >= len(args):
                return ip.raise_(st, 'TypeError', 'not enough arguments for format string')
            src = lambda s, a=args[n]: ok(s, a)
            n += 1
        flags, width, prec, ty = m.group(3), m.group(4), m.group(5), m.group(6)

        def one(s, acc, src=src, flags=flags, width=width, prec=prec, ty=ty):
            def go(s1, a):
                a = s1.facts.simp(a) if type(a) in (Sym, Op, Lin) else a
                if type(a) is K:
                    try:
                        return ok(s1, acc + (K(('%' + flags + width + (prec or '') + ty) % (a.v,)),))
                    except (TypeError, ValueError) as e:
                        return ip.raise_(s1, type(e).__name__, str(e))
                t = s1.facts.typeof(a) if type(a) is not Ref else 'object'
                if ty in 'sra':
                    if width.startswith('0') or (ty == 's' and '0' in flags):
                        pass
                    return ip.bind(to_str(ip, s1, a, 's' if ty == 's' else 'r'), lambda s2, x: ok(
                        s2, acc + ((x,) if not width and not prec else (Op('pad', (K(flags.replace('0', '') + width), x), 'str'),))))
                if t in ('str', 'bytes', 'NoneType', 'list', 'tuple', 'dict') and ty in 'diouxXeEfFgG':
                    return ip.raise_(s1, 'TypeError', '%%%s format: a number is required' % ty)
                if ty in 'dixXo':
                    spec = ('#' if '#' in flags else '') + ('0' if '0' in flags else '') + width + ty.replace('i', 'd')
                    if '-' not in flags and ' ' not in flags and '+' not in flags:
                        return ok(s1, acc + (fmt_op(s1, spec, a),))
                return ok(s1, acc + (Op('fmt', (K('%' + flags + width + (prec or '') + ty), a), 'str'),))
            return ip.bind(src(s), go)
        outs = ip.bind(outs, one)
    if pos < len(f):
        outs = ip.bind(outs, lambda s, acc: ok(s, acc + (K(f[pos:]),)))
    if mapping is None and n < len(args) and type(arg) is Tup:
        return ip.raise_(st, 'TypeError', 'not all arguments converted')
    return ip.bind(outs, lambda s, acc: ok(s, concat_text(acc)))


@model('builtins.str.format')
def m_str_format(ip, st, c):
    fmt = c.args[0]
    args = c.args[1:]
    if not isstr(fmt) or c.star is not None or c.dstar is not None:
        return ok(st, Op('strformat', (fmt, Tup(args)), 'str'))
    outs = [(st, 'v', ())]
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt.v):
        if lit:
            outs = ip.bind(outs, lambda s, acc, t=lit: ok(s, acc + (K(t),)))
        if field is None:
            continue
        m = _re.match(r'^(\w*)((?:\.\w+|\[[^\]]*\])*)$', field)
        if not m:
            return ok(st, Op('strformat', (fmt, Tup(args)), 'str'))
        name, rest = m.groups()
        if name == '':
            name = auto
            auto += 1
        elif name.isdigit():
            name = int(name)
        if isinstance(name, int):
            if name >= len(args):
                return ip.raise_(st, 'IndexError', 'Replacement index out of range')
            v = args[name]
        elif name in c.kw:
            v = c.kw[name]
        else:
            return ip.raise_(st, 'KeyError', name)

        def one(s, acc, v=v, rest=rest, spec=spec, conv=conv):
            o = ok(s, v)
            for part in _re.findall(r'\.\w+|\[[^\]]*\]', rest):
                if part[0] == '.':
                    o = ip.bind(o, lambda s1, x, p=part[1:]: ip.getattr_(s1, x, p))
                else:
                    key = part[1:-1]
                    o = ip.bind(o, lambda s1, x, k=K(int(key) if key.isdigit() else key): ip.getitem(s1, x, k))
            return ip.bind(o, lambda s1, x: ip.bind(
                format_value(ip, s1, x, spec or '', conv or ''), lambda s2, t: ok(s2, acc + (t,))))
        outs = ip.bind(outs, one)
    return ip.bind(outs, lambda s, acc: ok(s, concat_text(acc)))


# ---------------------------------------------------------------------------
# Operators
# ---------------------------------------------------------------------------

STRT = ('str', 'bytes', 'bytearray')
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift', 'Pow': 'pow',
          'MatMult': 'matmul'}
PYOP = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
        'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
        'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
        'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b, 'Pow': lambda a, b: a ** b}


def binop(ip, st, op, a, b, inplace=False):
    f = st.facts
    if type(a) in (Sym, Op, Lin):
        a = f.simp(a)
    if type(b) in (Sym, Op, Lin):
        b = f.simp(b)
    # user-defined operators
    if type(a) is Ref and st.get(a).kind == 'inst':
        for n in (['__i%s__' % DUNDER[op]] if inplace else []) + ['__%s__' % DUNDER[op]]:
            g, _ = ip.lookup(st, st.get(a).cls, n)
            if type(g) is Fn:
                return ip.call(st, Bound(g, a), Call([b]))
    if type(b) is Ref and st.get(b).kind == 'inst':
        g, _ = ip.lookup(st, st.get(b).cls, '__r%s__' % DUNDER[op])
        if type(g) is Fn:
            return ip.call(st, Bound(g, b), Call([a]))
    # in-place on containers
    ka = st.get(a).kind if type(a) is Ref else None
    kb = st.get(b).kind if type(b) is Ref else None
    if inplace and ka in ('list', 'set', 'dict', 'bytearray'):
        if op == 'Add' and ka == 'list':
            return ip.bind(list_extend(ip, st, a, b), lambda s, _: ok(s, a))
        if op == 'Add' and ka == 'bytearray':
            return ip.bind(ba_extend(ip, st, a, b), lambda s, _: ok(s, a))
        if op == 'BitOr' and ka in ('set', 'dict'):
            m = MODELS['builtins.%s.update' % ka]
            return ip.bind(m(ip, st, Call([a, b])), lambda s, _: ok(s, a))
        if op in ('Sub', 'BitAnd') and ka == 'set':
            return ip.bind(set_op(ip, st, op, a, b), lambda s, r: _replace_set(ip, s, a, r))
    if op == 'Add' and ka == 'list' and kb == 'list':
        return ok(st, ip.alloc(st, Obj('list', data=st.get(a).data + st.get(b).data)))
    if op == 'Add' and ka == 'list' and b is not None and type(b) in (Tup, K):
        return ip.raise_(st, 'TypeError', 'can only concatenate list')
    if op == 'Add' and 'list' in (ka, kb) and (type(a) in (Sym, Op) or type(b) in (Sym, Op)):
        da = st.get(a).data if ka == 'list' else (Desc('rep', K('of'), a),)
        db = st.get(b).data if kb == 'list' else (Desc('rep', K('of'), b),)
        return ok(st, ip.alloc(st, Obj('list', data=da + db)))
    if op == 'Mult' and ka == 'list' and isint(b):
        return ok(st, ip.alloc(st, Obj('list', data=st.get(a).data * b.v)))
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (ka in ('set', 'frozenset') or (type(a) is Desc and a.kind == 'dictkeys')):
        return set_op(ip, st, op, a, b)
    if op == 'BitOr' and ka == 'dict' and kb == 'dict':
        ref = ip.alloc(st, Obj('dict', data=st.get(a).data, info=dict(st.get(a).info)))
        return ip.bind(dict_update(ip, st, ref, b), lambda s, _: ok(s, ref))
    was_ba = ka == 'bytearray'
    if was_ba:
        a = st.get(a).data
    if kb == 'bytearray':
        b = st.get(b).data

    def wrap(s, v):
        return ok(s, ip.alloc(s, Obj('bytearray', data=v))) if was_ba else ok(s, v)
    ta, tb = f.typeof(a) if type(a) is not Ref else None, f.typeof(b) if type(b) is not Ref else None
    if type(a) is K and type(b) is K and not was_ba:
        try:
            if op == 'Mult' and isinstance(a.v, (str, bytes)) and isint(b) and b.v * len(a.v) > 100000:
                raise Budget('huge constant')
            if op == 'Pow' and isint(a) and isint(b) and b.v > 4096:
                raise Budget('huge constant')
            return ok(st, K(PYOP[op](a.v, b.v)))
        except Budget:
            raise
        except Exception as e:
            return ip.raise_(st, type(e).__name__, str(e))
    num = ('int', 'bool')
    if ta in num and tb in num:
        r = int_op(ip, st, op, a, b)
        if r is not None:
            return r
        return ok(st, Op({'Mult': 'mul', 'FloorDiv': 'fdiv2', 'Mod': 'mod2'}.get(op, op), (a, b),
                         'float' if op == 'Div' else 'int'))
    if op == 'Mod' and isstr(a):
        if type(b) in (Sym, Op) and tb is None:
            # may be a tuple; treat as a single value
            return percent(ip, st, a, b)
        return percent(ip, st, a, b)
    if op == 'Mod' and isbytes(a):
        return percent(ip, st, a, b)
    if op == 'Add' and ta in STRT and tb in STRT:
        if (ta == 'str') != (tb == 'str'):
            return ip.raise_(st, 'TypeError', "can't concat %s to %s" % (tb, ta))
        return wrap(st, mkbs(segs_of(a) + segs_of(b), ta == 'str'))
    if op == 'Add' and {ta, tb} & set(STRT):
        o, to, other, tother = (a, ta, b, tb) if ta in STRT else (b, tb, a, ta)
        if tother is not None or type(other) in (Ref, Fn, Ext) or type(other) is Tup:
            return ip.raise_(st, 'TypeError', "can't concat")
        # unknown type: either the same kind of string, or an error
        res = []
        cond = Op('isinst', (other, Ext('builtins.' + ('str' if to == 'str' else 'bytes'))), 'bool')
        for s, bb in ip.branch(st, ip.decide(st, cond)):
            if bb:
                res.extend(wrap(s, mkbs(segs_of(a, to == 'str') + segs_of(b, to == 'str'), to == 'str')))
            else:
                res.extend(ip.raise_(s, 'TypeError', "can't concat"))
        return res
    if op == 'Add' and type(a) is Tup and type(b) is Tup:
        return ok(st, Tup(a.items + b.items))
    if op == 'Mult':
        for x, n in ((a, b), (b, a)):
            tx = f.typeof(x) if type(x) is not Ref else None
            if tx in STRT and f.typeof(n) in num:
                if type(x) is K and len(x.v) == 1:
                    res = []
                    for s, neg in ip.branch(st, ip.decide(st, Op('lt0', (n,), 'bool'))):
                        res.extend(wrap(s, K(x.v[:0]) if neg else mkbs([Seg('fill', x.v, n)], tx == 'str')))
                    return res
                if type(x) is K and len(x.v) == 0:
                    return wrap(st, x)
                return wrap(st, Op('repeat', (x, n), tx))
            if type(x) is Tup and isint(n):
                return ok(st, Tup(x.items * n.v))
            if tx == 'str' and f.typeof(n) is None and type(n) in (Sym, Op):
                return ok(st, Op('repeat', (x, n), 'str'))
    # dates
    if type(a) is Desc or type(b) is Desc or ta == 'datetime.datetime' or tb == 'datetime.datetime':
        r = desc_op(ip, st, op, a, b)
        if r is not None:
            return r
    if 'float' in (ta, tb) and {ta, tb} <= {'float', 'int', 'bool'}:
        if op in ('Div', 'FloorDiv', 'Mod') and type(b) is K and b.v == 0:
            return ip.raise_(st, 'ZeroDivisionError', 'float division by zero')
        return ok(st, Op('f' + op, (a, b), 'float'))
    known = lambda v, t: t is not None or type(v) in (Ref, Fn, Tup, Ext)
    if known(a, ta) and known(b, tb) and not (ta or '').startswith('opaque') and not (tb or '').startswith('opaque') \
            and not (type(a) is Ref and st.get(a).kind in ('opaque', 'ext')) \
            and not (type(b) is Ref and st.get(b).kind in ('opaque', 'ext')) and \
            not (type(a) is Ext or type(b) is Ext):
        if op == 'BitOr' and (type(a) is Ref and st.get(a).kind == 'class'):
            return ok(st, Desc('union', a, b))
        return ip.raise_(st, 'TypeError', 'unsupported operand types for %s' % op)
    if op == 'BitOr' and (type(a) in (Ext,) or type(b) is Ext):
        return ok(st, Desc('union', a, b))
    # unknown operand types
    if ta in num or tb in num:
        if op in ('Add', 'Sub') and not (type(a) is Ref or type(b) is Ref):
            # treat as integers (the only sound arithmetic partner that keeps the form)
            r = int_op(ip, st, op, a, b)
            if r is not None:
                return r
    return ok(st, Op('op' + op, (a, b), None))


def _replace_set(ip, s, a, r):
    o = ip.mut(s, a, 'setop')
    o.data = s.get(r).data
    return ok(s, a)


def set_items(ip, st, v):
    its = known_items(ip, st, v)
    return its


def set_op(ip, st, op, a, b):
    xs, ys = set_items(ip, st, a), set_items(ip, st, b)
    if xs is None or ys is None:
        reps = []
        for v, items in ((a, xs), (b, ys)):
            reps.append(v)
        if op == 'BitOr':
            ref = ip.alloc(st, Obj('set', data=()))
            o = st.get(ref)
            srcs = []
            for v, items in ((a, xs), (b, ys)):
                if items is not None:
                    for x in items:
                        o.data = o.data + ((x, NONE),)
                elif type(v) is Ref and isinstance(st.get(v).data, tuple):
                    o.data = o.data + tuple(st.get(v).data)
                    if st.get(v).info.get('opaque') is not None:
                        srcs.append(st.get(v).info['opaque'])
                else:
                    srcs.append(v)
            for sct in srcs:
                o.data = o.data + ((Desc('rep', K('of'), sct), NONE),)
            return ok(st, ref)
        return ok(st, ip.alloc(st, Obj('set', data=((Desc('rep', K(op), Tup([a, b])), NONE),))))
    if op == 'BitOr':
        return make_set(ip, st, xs + ys)
    if all(type(x) is K for x in xs + ys):
        if op == 'BitAnd':
            return make_set(ip, st, [x for x in xs if x in ys])
        if op == 'Sub':
            return make_set(ip, st, [x for x in xs if x not in ys])
        if op == 'BitXor':
            return make_set(ip, st, [x for x in xs if x not in ys] + [x for x in ys if x not in xs])
    return ok(st, ip.alloc(st, Obj('set', data=((Desc('rep', K(op), Tup([a, b])), NONE),))))


def int_op(ip, st, op, a, b):
    f = st.facts
    if op == 'Add':
        return ok(st, add(a, b))
    if op == 'Sub':
        return ok(st, sub(a, b))
    if op == 'Mult':
        if isint(b):
            return ok(st, scale(a, int(b.v)))
        if isint(a):
            return ok(st, scale(b, int(a.v)))
        return ok(st, Op('mul', tuple(sorted((a, b), key=repr)), 'int'))
    if op in ('FloorDiv', 'Mod') and isint(b):
        m = int(b.v)
        if m == 0:
            return ip.raise_(st, 'ZeroDivisionError', 'integer division or modulo by zero')
        if m > 0:
            return ok(st, floordiv(f, a, m) if op == 'FloorDiv' else modulo(f, a, m))
        return None
    if op in ('FloorDiv', 'Mod'):
        lo, hi = f.interval(b)
        if lo <= 0 <= hi:
            res = []
            for s, z in ip.branch(st, ip.decide(st, Op('eq0', (b,), 'bool'))):
                if z:
                    res.extend(ip.raise_(s, 'ZeroDivisionError', 'division by zero'))
                else:
                    r = Op('mod2' if op == 'Mod' else 'fdiv2', (a, b), 'int')
                    res.extend(ok(s, r))
            return res
        return None
    if op == 'LShift' and isint(b):
        if b.v < 0:
            return ip.raise_(st, 'ValueError', 'negative shift count')
        return ok(st, scale(a, 1 << b.v))
    if op == 'RShift' and isint(b):
        return ok(st, shr(f, a, b.v))
    if op in ('LShift', 'RShift', 'Pow'):
        # small exponents: split on the value
        lo, hi = f.interval(b)
        if isint(a) or op != 'Pow':
            if 0 <= lo and hi - lo <= 80 and hi != INF:
                res = []
                cur = st
                for v in range(int(lo), int(hi) + 1):
                    br = ip.branch(cur, Op('eq0', (sub(b, K(v)),), 'bool'))
                    cur = None
                    for s, y in br:
                        if y:
                            res.extend(binop(ip, s, op, a, K(v)))
                        else:
                            cur = s
                    if cur is None:
                        break
                return res
        return None
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if isint(a) and not isint(b):
            a, b = b, a
        if isint(b) and b.v >= 0:
            m = b.v
            if op == 'BitAnd':
                lo, hi = f.interval(a)
                # the top bit of a bounded value: split on it
                if m and m & (m - 1) == 0 and lo >= 0 and hi < 2 * m and hi >= m > lo:
                    res = []
                    for s, lt in ip.branch(st, ip.decide(st, Op('lt0', (sub(a, K(m)),), 'bool'))):
                        res.extend(ok(s, ZERO if lt else K(m)))
                    return res
                return ok(st, bit_and(f, a, m))
            if op == 'BitOr':
                return ok(st, bit_or(f, a, m))
            return ok(st, bit_xor(f, a, m))
        if op in ('BitOr', 'BitXor') and disjoint_bits(f, a, b):
            return ok(st, add(a, b))
        return ok(st, Op({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], (a, b), 'int'))
    return None


# -- dates and paths -----------------------------------------------------------

EPOCH = _dt.datetime(2001, 1, 1)
US = 1000000
DAY = 86400 * US


def dt_us(st, v):
    """ Microseconds since 2001-01-01 of a naive datetime value, or None. """
    if type(v) is Desc and v.kind == 'dt':
        return v.parts[0]
    if type(v) is K and isinstance(v.v, _dt.datetime) and v.v.tzinfo is None:
        return K((v.v - EPOCH) // _dt.timedelta(microseconds=1))
    if type(v) in (Sym, Op) and st.facts.typeof(v) == 'datetime.datetime':
        d, s, u = (Op(n, (v,), 'int') for n in ('days', 'secs', 'micros'))
        return add(add(scale(d, DAY), scale(s, US)), u)
    return None


def mkdt(us):
    if isint(us):
        try:
            return K(EPOCH + _dt.timedelta(microseconds=us.v))
        except OverflowError:
            pass
    c, d = lin_parts(us)
    if c == 0 and len(d) == 3:
        ats = {a.op: (a, k) for a, k in d.items() if type(a) is Op}
        if set(ats) == {'days', 'secs', 'micros'} and ats['days'][1] == DAY and ats['secs'][1] == US \
                and ats['micros'][1] == 1 and len({a.args for a, _ in ats.values()}) == 1:
            return ats['days'][0].args[0]
    return Desc('dt', us)


def td_us(v):
    if type(v) is Desc and v.kind == 'td':
        return v.parts[0]
    if type(v) is K and isinstance(v.v, _dt.timedelta):
        return K(v.v // _dt.timedelta(microseconds=1))
    return None


def mktd(us):
    return K(_dt.timedelta(microseconds=us.v)) if isint(us) else Desc('td', us)


def desc_op(ip, st, op, a, b):
    if type(a) is Desc and a.kind == 'path' or type(b) is Desc and b.kind == 'path':
        if op == 'Div':
            return ok(st, mkpath(path_join(ip, st, a, b)))
        return ip.raise_(st, 'TypeError', 'unsupported operand type')
    ua, ub = dt_us(st, a), dt_us(st, b)
    sa, sb = td_us(a), td_us(b)
    if op == 'Sub' and ua is not None and ub is not None:
        return ok(st, mktd(sub(ua, ub)))
    if op == 'Add' and ua is not None and sb is not None:
        return ok(st, mkdt(add(ua, sb)))
    if op == 'Add' and sa is not None and ub is not None:
        return ok(st, mkdt(add(sa, ub)))
    if op == 'Sub' and ua is not None and sb is not None:
        return ok(st, mkdt(sub(ua, sb)))
    if op in ('Add', 'Sub') and sa is not None and sb is not None:
        return ok(st, mktd(add(sa, sb, 1 if op == 'Add' else -1)))
    if op == 'Mult' and sa is not None and st.facts.typeof(b) == 'int':
        r = int_op(ip, st, 'Mult', sa, b)
        return [(s, g, mktd(v) if g == 'v' else v) for s, g, v in r]
    if op == 'Mult' and sb is not None and st.facts.typeof(a) == 'int':
        return desc_op(ip, st, op, b, a)
    if op in ('FloorDiv', 'Mod') and sa is not None and sb is not None and isint(sb) and sb.v > 0:
        r = int_op(ip, st, op, sa, sb)
        if op == 'Mod':
            return [(s, g, mktd(v) if g == 'v' else v) for s, g, v in r]
        return r
    if op == 'FloorDiv' and sa is not None and isint(b) and b.v > 0:
        return [(s, g, mktd(v) if g == 'v' else v) for s, g, v in int_op(ip, st, op, sa, b)]
    if op == 'Div' and sa is not None and sb is not None:
        return ok(st, Op('tdiv', (sa, sb), 'float'))
    if ua is not None or sa is not None:
        for x, t in ((b, ub if ub is not None else sb),):
            if t is None and (st.facts.typeof(x) in ('int', 'float', 'str', 'NoneType', 'bytes')):
                return ip.raise_(st, 'TypeError', 'unsupported operand type')
    return None


def td_parts(st, us):
    """ (days, seconds, microseconds) of a timedelta. """
    c, d = lin_parts(us)
    f = st.facts
    rest = dict(d)
    days = ZERO
    for a, k in d.items():
        if k % DAY == 0:
            days = add(days, scale(a, k // DAY))
            rest.pop(a)
    cd, cr = divmod(c, DAY)
    days = add(days, K(cd))
    r = mklin(cr, rest)
    lo, hi = f.interval(r)
    if not (0 <= lo and hi < DAY):
        days = add(days, floordiv(f, r, DAY))
        r = modulo(f, r, DAY)
    secs = floordiv(f, r, US)
    return days, secs, modulo(f, r, US)


def mkpath(t):
    return Desc('path', t)


def path_text(st, v):
    if type(v) is Desc and v.kind == 'path':
        return v.parts[0]
    return v


def path_join(ip, st, *parts):
    ps = [path_text(st, p) for p in parts]
    out = []
    for p in ps:
        if isstr(p) and p.v in ('', '.') :
            continue
        if type(p) is Op and p.op == 'join':
            out.extend(p.args)
        else:
            out.append(p)
    # an absolute later part replaces the earlier ones
    for i in range(len(out) - 1, 0, -1):
        if isstr(out[i]) and out[i].v.startswith('/'):
            out = out[i:]
            break
    if not out:
        return K('.')
    if all(isstr(p) for p in out):
        import posixpath
        return K(posixpath.join(*[p.v for p in out]))
    if len(out) == 1:
        return out[0]
    return Op('join', tuple(out), 'str')


# ---------------------------------------------------------------------------
# Membership
# ---------------------------------------------------------------------------

def BM():
    from . import builtin_models
    return builtin_models


def contains(ip, st, a, b):
    """ a in b """
    if type(b) is Ref:
        o = st.get(b)
        if o.kind in ('dict', 'set', 'frozenset'):
            return key_search(ip, st, b, a, lambda s, i: ok(s, TRUE), lambda s: ok(s, FALSE))
        if o.kind == 'inst':
            g, _ = ip.lookup(st, o.cls, '__contains__')
            if type(g) is Fn:
                return ip.bind(ip.call(st, Bound(g, b), Call([a])), lambda s, v: ip.condval(s, ip.cond(s, v)))
            g, _ = ip.lookup(st, o.cls, '__iter__')
            if type(g) is Fn:
                return contains_iter(ip, st, a, b)
        if o.kind == 'bytearray':
            return contains(ip, st, a, o.data)
        if o.kind == 'list' and not plain_list(o):
            res = []
            reps = o.info.get('opaque') or Tup([x for x in o.data if is_rep(x)])
            cur = [st]
            for x in o.data:
                if is_rep(x):
                    continue
                nxt = []
                for s in cur:
                    for s2, bb in ip.branch(s, ip.eq_cond(s, x, a)):
                        if bb:
                            res.extend(ok(s2, TRUE))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                res.extend(ip.condval(s, ip.decide(s, Op('in', (a, reps), 'bool'))))
            return res
    if type(b) is Desc and b.kind == 'dictkeys':
        return contains(ip, st, a, b.parts[0])
    if type(b) is Desc and b.kind == 'range':
        lo, hi, step = b.parts
        if isint(step) and step.v == 1:
            res = []
            for s, x in ip.branch(st, ip.decide(st, Op('lt0', (sub(a, lo),), 'bool'))):
                if x:
                    res.extend(ok(s, FALSE))
                else:
                    res.extend(ip.condval(s, ip.decide(s, Op('lt0', (sub(a, hi),), 'bool'))))
            return res
    if type(b) is Gen:
        return contains_iter(ip, st, a, b)
    ta = st.facts.typeof(a) if type(a) is not Ref else None
    tb = st.facts.typeof(b) if type(b) is not Ref else None
    if type(a) is Ref and st.get(a).kind == 'bytearray':
        a, ta = st.get(a).data, 'bytes'
    if tb in STRT:
        if type(a) is K and type(b) is K:
            try:
                return ok(st, K(a.v in b.v))
            except TypeError as e:
                return ip.raise_(st, 'TypeError', str(e))
        if ta in ('int', 'bool') and tb == 'bytes':
            return ip.condval(st, ip.decide(st, Op('in', (a, b), 'bool')))
        if ta is not None and (ta == 'str') != (tb == 'str'):
            return ip.raise_(st, 'TypeError', 'in <string> requires string as left operand')
        if type(a) is Ref:
            return ip.raise_(st, 'TypeError', 'in <string> requires string as left operand')
        if type(a) is K and len(a.v) == 0:
            return ok(st, TRUE)
        if type(b) is Bs and type(a) is K and any(sg.kind == 'lit' and a.v in sg.a[0] for sg in b.segs):
            return ok(st, TRUE)
        if type(a) is K and type(b) in (Bs, Op) and a.v and any(
                all(BM().lacks(st, sg, ch) for sg in segs_of(b, tb == 'str'))
                for ch in (a.v if tb == 'str' else [bytes([x]) for x in a.v])):
            return ok(st, FALSE)
        return ip.condval(st, ip.decide(st, Op('in', (a, b), 'bool')))
    if tb in ('int', 'float', 'NoneType', 'bool'):
        return ip.raise_(st, 'TypeError', 'argument is not iterable')
    its = known_items(ip, st, b)
    if its is not None:
        res = []
        cur = [st]
        for x in its:
            nxt = []
            for s in cur:
                c = ip.eq_cond(s, x, a)
                if x == a:
                    c = True
                for s2, bb in ip.branch(s, c):
                    if bb:
                        res.extend(ok(s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
            if not cur:
                break
        return res + [(s, 'v', FALSE) for s in cur]
    return ip.condval(st, ip.decide(st, Op('in', (a, b), 'bool')))


def contains_iter(ip, st, a, it):
    def h(s, x):
        res = []
        for s2, sig, v in ip.compare_op(s, 'Eq', x, a):
            if sig != 'v':
                res.append((s2, sig, v))
                continue
            for s3, b in ip.branch(s2, ip.cond(s2, v)):
                res.append((s3, 'foundit', NONE) if b else (s3, 'v', NONE))
        return res
    return [(s, 'v' if sig in ('v', 'foundit') else sig, K(sig == 'foundit') if sig in ('v', 'foundit') else x)
            for s, sig, x in iterate(ip, st, it, h)]


# ---------------------------------------------------------------------------
# Items
# ---------------------------------------------------------------------------

def getitem(ip, st, o, i):
    if type(i) in (Sym, Op, Lin):
        i = st.facts.simp(i)
    if type(o) is Ref:
        ob = st.get(o)
        if ob.kind == 'dict':
            def missing(s):
                df = s.get(o).info.get('default_factory')
                if df is not None and df != NONE:
                    return ip.bind(ip.call(s, df, Call()), lambda s1, v: ip.bind(
                        dict_set(ip, s1, o, i, v), lambda s2, _: ok(s2, v)))
                return ip.raise_(s, 'KeyError', i if isinstance(i, Term) else str(i))
            return key_search(ip, st, o, i, lambda s, j: ok(s, dict_value(ip, s, o, j, i)), missing)
        if ob.kind == 'bytearray':
            outs = getitem(ip, st, ob.data, i)
            if type(i) is Desc and i.kind == 'slice':
                return ip.bind(outs, lambda s, v: ok(s, ip.alloc(s, Obj('bytearray', data=v))))
            return outs
        if ob.kind in ('list', 'xml'):
            return seq_getitem(ip, st, o, i)
        if ob.kind == 'class':
            return ok(st, Op('generic', (o, i), None))
        if ob.kind in ('opaque', 'ext', 'stream'):
            st.ev('ocall', o, '__getitem__', Tup([i]), ip.where())
            return ok(st, Op('item', (o, i), None))
        if ob.kind in ('set', 'frozenset'):
            return ip.raise_(st, 'TypeError', 'not subscriptable')
    if type(o) is Ext or type(o) is Desc and o.kind == 'union':
        return ok(st, Ext('typing.Any') if type(o) is Ext and o.name.startswith('typing') else Op('generic', (o,), None))
    if type(o) is Tup:
        return seq_getitem(ip, st, o, i)
    t = st.facts.typeof(o)
    if t in STRT:
        return str_getitem(ip, st, o, i, t)
    if t in ('int', 'float', 'NoneType', 'bool', 'function'):
        return ip.raise_(st, 'TypeError', 'object is not subscriptable')
    if type(o) is Op and o.op == 'partition0':
        return ok(st, Op('item', (o, i), None))
    return ok(st, Op('item', (o, i), None))


def seq_items(st, o):
    if type(o) is Tup:
        return o.items
    return st.get(o).data


def seq_getitem(ip, st, o, i):
    items = seq_items(st, o)
    if type(i) is Desc and i.kind == 'slice':
        if any(is_rep(x) for x in items):
            return ok(st, Op('slice', (o, i), None))
        parts = [st.facts.simp(p) for p in i.parts]
        if all(type(p) is K for p in parts):
            r = items[slice(*[p.v for p in parts])]
            return ok(st, Tup(r)) if type(o) is Tup else ok(st, ip.alloc(st, Obj('list', data=tuple(r))))
        return ok(st, Op('slice', (o, i), None))
    ti = ip.type_of(st, i)
    if ti is not None and ti.name not in ('builtins.int', 'builtins.bool') and type(i) is not Ref:
        return ip.raise_(st, 'TypeError', 'indices must be integers')
    if any(is_rep(x) for x in items):
        if isint(i) and i.v >= 0 and not any(is_rep(x) for x in items[:i.v + 1]) and i.v < len(items):
            return ok(st, items[i.v])
        if isint(i) and i.v < 0:
            tail = items[i.v:] if -i.v <= len(items) else None
            if tail is not None and not any(is_rep(x) for x in tail):
                return ok(st, tail[0])
        return ok(st, Op('repitem', (Tup([x for x in items if is_rep(x)]), i), None))
    n = len(items)
    if isint(i):
        if -n <= i.v < n:
            return ok(st, items[i.v])
        return ip.raise_(st, 'IndexError', 'list index out of range')
    if st.facts.typeof(i) not in ('int', 'bool', None):
        return ip.raise_(st, 'TypeError', 'indices must be integers')
    lo, hi = st.facts.interval(i)
    res = []
    cur = [st]
    # split on the value of a bounded index
    a, b = max(lo, -n), min(hi, n - 1)
    for v in range(int(a), int(b) + 1):
        nxt = []
        for s in cur:
            for s1, y in ip.branch(s, Op('eq0', (sub(i, K(v)),), 'bool')):
                if y:
                    res.extend(ok(s1, items[v]))
                else:
                    nxt.append(s1)
        cur = nxt
    for s in cur:
        l2, h2 = s.facts.interval(i)
        if l2 > n - 1 or h2 < -n or l2 < -n or h2 > n - 1:
            res.extend(ip.raise_(s, 'IndexError', 'list index out of range'))
    return res


def str_getitem(ip, st, o, i, t):
    f = st.facts
    n = bytes_len(o)
    text = t == 'str'
    if type(i) is Desc and i.kind == 'slice':
        lo, hi, step = [f.simp(p) for p in i.parts]
        if type(o) is K and all(type(p) is K for p in (lo, hi, step)):
            return ok(st, K(o.v[lo.v:hi.v:step.v]))
        if step not in (NONE, ONE):
            if step == K(-1) and lo == NONE and hi == NONE:
                return ok(st, Op('reversed', (o,), t))
            return ok(st, Op('strslice', (o, lo, hi, step), t))
        lo = ZERO if lo == NONE else lo
        # negative constants
        res = []
        states = [(st, lo, hi)]
        if isint(lo) and lo.v < 0:
            nxt = []
            for s, l, h in states:
                for s1, y in ip.branch(s, ip.decide(s, Op('lt0', (add(n, l),), 'bool'))):
                    nxt.append((s1, ZERO if y else add(n, l), h))
            states = nxt
        if hi != NONE and isint(hi) and hi.v < 0:
            nxt = []
            for s, l, h in states:
                for s1, y in ip.branch(s, ip.decide(s, Op('lt0', (add(n, h),), 'bool'))):
                    nxt.append((s1, l, ZERO if y else add(n, h)))
            states = nxt
        for s, l, h in states:
            if h == NONE:
                res.extend(str_slice(ip, s, o, l, n, t))
                continue
            for s1, y in ip.branch(s, ip.decide(s, Op('lt0', (sub(n, h),), 'bool'))):
                res.extend(str_slice(ip, s1, o, l, n if y else h, t))
        return res
    if type(o) is K and isint(i):
        try:
            return ok(st, K(o.v[i.v]))
        except IndexError as e:
            return ip.raise_(st, 'IndexError', 'index out of range')
    if st.facts.typeof(i) not in ('int', 'bool', None):
        return ip.raise_(st, 'TypeError', 'indices must be integers')
    lo, hi = f.interval(i)
    idx = i
    if hi < 0:
        idx = add(n, i)
    res = []
    bad = ip.decide(st, Op('lt0', (add(sub(n, idx), K(-1)),), 'bool'))
    for s, y in ip.branch(st, bad):
        if y:
            res.extend(ip.raise_(s, 'IndexError', 'index out of range'))
        else:
            res.extend(ok(s, byte_of(s, o, idx, text)))
    return res


def byte_of(st, o, idx, text):
    """ The idx-th byte (or character) of a string. """
    f = st.facts
    pos = idx
    for s in segs_of(o, text):
        s = simp_seg(f, s)
        n = f.simp(s.n)
        lo, _ = f.interval(sub(n, pos))
        if lo >= 1:
            pos = f.simp(pos)
            if s.kind == 'lit' and isint(pos):
                x = s.a[0][pos.v]
                return K(x)
            if s.kind == 'rd' and not text:
                return byte_at(s.a[0], add(s.a[1], pos))
            if s.kind == 'fill':
                return K(s.a[0][0])
            if s.kind == 'ube' and isint(pos):
                w = s.a[1]
                return mask_low(f, shr(f, s.a[0], 8 * (w - 1 - pos.v)), 8)
            if s.kind == 't':
                return Op('tbyte', (s.a[0], pos), 'str' if text else 'int')
            break
        _, hi = f.interval(sub(n, pos))
        if hi <= 0:
            pos = sub(pos, n)
            continue
        break
    return Op('tchar' if text else 'tbyte', (o, idx), 'str' if text else 'int')


def str_slice(ip, st, o, l, h, t):
    """ o[l:h] with 0 <= l, h <= len(o). """
    f = st.facts
    text = t == 'str'
    n = f.simp(sub(h, l))
    if f.interval(n)[1] <= 0:
        return ok(st, K('' if text else b''))
    out = []
    pos = l            # still to skip
    left = n           # still to take
    exact = True
    segs = list(segs_of(o, text))
    while segs:
        s = simp_seg(f, segs.pop(0))
        pos, left = f.simp(pos), f.simp(left)
        if left == ZERO:
            break
        w = f.simp(s.n)
        # skip
        dlo, dhi = f.interval(sub(pos, w))
        if dlo >= 0 and pos != ZERO:
            pos = sub(pos, w)
            continue
        if pos != ZERO:
            if s.kind == 'rd' and f.interval(pos)[0] >= 0 and dhi <= 0:
                s = Seg('rd', s.a[0], add(s.a[1], pos), sub(w, pos))
            elif isint(pos) and s.kind in ('lit', 'fill', 'ube') and dhi <= 0:
                s = split_seg(f, s, pos.v)[1]
            else:
                exact = False
                break
            pos = ZERO
            w = f.simp(s.n)
        dlo, dhi = f.interval(sub(left, w))
        if dlo >= 0:
            out.append(s)
            left = sub(left, w)
            continue
        if dhi <= 0:
            if s.kind == 'rd':
                out.append(Seg('rd', s.a[0], s.a[1], left))
            elif s.kind == 'fill':
                out.append(Seg('fill', s.a[0], left))
            elif isint(left) and s.kind in ('lit', 'ube'):
                out.append(split_seg(f, s, left.v)[0])
            else:
                out.append(Seg('t', Op('prefix', (mkbs([s], text), left), 'str' if text else 'bytes'), left))
            left = ZERO
            continue
        exact = False
        break
    if exact and f.simp(left) == ZERO:
        return ok(st, mkbs(out, text))
    if l == ZERO:
        r = Op('prefix', (o, h), 'str' if text else 'bytes')
    else:
        r = Op('strslice', (o, l, h), 'str' if text else 'bytes')
    return ok(st, mkbs([Seg('t', r, n)], text) if f.interval(n)[0] >= 0 else r)


def setitem(ip, st, o, i, v):
    if type(o) is Ref:
        ob = st.get(o)
        if ob.kind == 'dict':
            return dict_set(ip, st, o, i, v)
        if ob.kind == 'list':
            if isint(i) and plain_list(ob) and -len(ob.data) <= i.v < len(ob.data):
                m = ip.mut(st, o, 'setitem', i, v)
                d = list(m.data)
                d[i.v] = v
                m.data = tuple(d)
                return ok(st, None)
            if isint(i) and plain_list(ob):
                return ip.raise_(st, 'IndexError', 'assignment index out of range')
            if type(i) is Desc and plain_list(ob):
                its = known_items(ip, st, v)
                if its is not None and all(type(p) is K for p in i.parts):
                    m = ip.mut(st, o, 'setitem', i, v)
                    d = list(m.data)
                    d[slice(*[p.v for p in i.parts])] = its
                    m.data = tuple(d)
                    return ok(st, None)
            ip.mut(st, o, 'setitem', i, v).data = (Desc('rep', K('unknown'), K(o.oid)),)
            return ok(st, None)
        if ob.kind == 'bytearray':
            if type(i) is Desc and i.kind == 'slice':
                lo, hi, step = [st.facts.simp(p) for p in i.parts]
                v2 = deref(st, v)
                d = ob.data
                if step in (NONE, ONE) and st.facts.typeof(v2) == 'bytes':
                    n = bytes_len(d)
                    l = ZERO if lo == NONE else lo
                    h = n if hi == NONE else hi
                    outs = str_slice(ip, st, d, ZERO, l, 'bytes')
                    s, _, pre = outs[0]
                    s, _, post = str_slice(ip, s, d, h, n, 'bytes')[0]
                    m = ip.mut(s, o, 'setitem', i, v)
                    m.data = mkbs(segs_of(pre) + segs_of(v2) + segs_of(post))
                    return ok(s, None)
            m = ip.mut(st, o, 'setitem', i, v)
            d = m.data
            if isint(i) and type(d) is K and isint(v) and -len(d.v) <= i.v < len(d.v) and 0 <= v.v < 256:
                ba = bytearray(d.v)
                ba[i.v] = v.v
                m.data = K(bytes(ba))
            else:
                n = bytes_len(d)
                m.data = mkbs([Seg('t', Op('setbyte', (d, i, v), 'bytes'), n)])
            return ok(st, None)
        if ob.kind == 'ext' and 'environ' in ob.info:
            pass
        st.ev('omut', o, 'setitem', ip.where(), i, v)
        return ok(st, None)
    if type(o) is Tup or st.facts.typeof(o) in ('str', 'bytes', 'int', 'NoneType', 'tuple', 'float'):
        return ip.raise_(st, 'TypeError', 'object does not support item assignment')
    st.ev('omut', o, 'setitem', ip.where(), i, v)
    return ok(st, None)


def delitem(ip, st, o, i):
    if type(o) is Ref:
        ob = st.get(o)
        if ob.kind == 'dict':
            def found(s, j):
                m = ip.mut(s, o, 'delitem', i)
                if j >= 0:
                    m.data = m.data[:j] + m.data[j + 1:]
                return ok(s, None)
            return key_search(ip, st, o, i, found, lambda s: ip.raise_(s, 'KeyError', 'missing'))
        if ob.kind == 'list' and isint(i) and plain_list(ob):
            if not -len(ob.data) <= i.v < len(ob.data):
                return ip.raise_(st, 'IndexError', 'deletion index out of range')
            m = ip.mut(st, o, 'delitem', i)
            d = list(m.data)
            del d[i.v]
            m.data = tuple(d)
            return ok(st, None)
        if ob.kind == 'list' and type(i) is Desc and all(type(p) is K for p in i.parts) and plain_list(ob):
            m = ip.mut(st, o, 'delitem', i)
            d = list(m.data)
            del d[slice(*[p.v for p in i.parts])]
            m.data = tuple(d)
            return ok(st, None)
        if ob.kind == 'inst':
            g, _ = ip.lookup(st, ob.cls, '__delitem__')
            if type(g) is Fn:
                return [(s, sig, None if sig == 'v' else x) for s, sig, x in ip.call(st, Bound(g, o), Call([i]))]
    st.ev('omut', o, 'delitem', ip.where(), i)
    return ok(st, None)


def list_extend(ip, st, ref, other):
    def h(s, x):
        o = ip.mut(s, ref)
        o.data = o.data + (x,)
        return [(s, 'v', NONE)]
    ip.mut(st, ref, 'extend', other)
    its = known_items(ip, st, other)
    if its is not None:
        o = ip.mut(st, ref)
        o.data = o.data + tuple(its)
        return ok(st, None)
    return [(s, sig, None if sig == 'v' else x) for s, sig, x in iterate(ip, st, other, h)]


def ba_extend(ip, st, ref, other):
    v = deref(st, other)
    t = st.facts.typeof(v) if type(v) is not Ref else None
    if t == 'bytes' or t == 'bytearray':
        o = ip.mut(st, ref, 'extend', v)
        o.data = mkbs(segs_of(o.data) + segs_of(v))
        return ok(st, None)
    if t in ('int', 'str', 'NoneType', 'float', 'bool'):
        return ip.raise_(st, 'TypeError', "can't extend bytearray with %s" % t)
    its = known_items(ip, st, v)
    if its is not None and all(isint(x) and 0 <= x.v < 256 for x in its):
        o = ip.mut(st, ref, 'extend', v)
        o.data = mkbs(segs_of(o.data) + segs_of(K(bytes(x.v for x in its))))
        return ok(st, None)
    if type(v) is Gen or type(v) is Ref and st.get(v).kind in ('list', 'set'):
        def h(s, x):
            o = ip.mut(s, ref)
            o.data = mkbs(segs_of(o.data) + (byteseg(s, x),))
            return [(s, 'v', NONE)]
        return [(s, sig, None if sig == 'v' else x) for s, sig, x in iterate(ip, st, v, h)]
    o = ip.mut(st, ref, 'extend', v)
    b = v if t == 'bytes' else Op('tobytes', (v,), 'bytes')
    o.data = mkbs(segs_of(o.data) + segs_of(b))
    return ok(st, None)


def byteseg(st, x):
    lo, hi = st.facts.interval(x)
    return Seg('ube', x, 1)


from .builtin_models import (obj_getattr, obj_setattr, desc_getattr, value_getattr, ext_inst_attr,  # noqa: E402
                             call_desc, call_opaque, call_unknown, special_base)
from . import lib_models  # noqa: E402,F401
