"""
The abstract value domain.

Abstract values are *normal forms*: constants, linear integer forms over atoms,
byte/text strings as sequences of segments (literal, bytes read from a stream,
big-endian integers, opaque), tuples, references to abstract heap objects, and
uninterpreted applications.  Two values are provably equal when their normal
forms coincide.  Intervals, types and equalities known on a path are kept in
`Facts`; there is no solver.
"""
from functools import lru_cache
from math import gcd

INF = float('inf')


class Term:
    __slots__ = ('_h',)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __eq__(self, other):
        return self is other or (type(self) is type(other)
                                 and hash(self) == hash(other)
                                 and self.key() == other.key())

    def __ne__(self, other):
        return not self == other


def _ckey(v):
    if isinstance(v, float):
        return ('float', repr(v))
    if isinstance(v, tuple):
        return ('tuple', tuple(_ckey(x) for x in v))
    return (type(v).__name__, v)


class K(Term):
    """ A Python constant. """
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        try:
            hash(self.v)
            return _ckey(self.v)
        except TypeError:
            return (type(self.v).__name__, repr(self.v))

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = K(None), K(True), K(False)
ZERO, ONE = K(0), K(1)
EMPTY_STR = K('')


class Sym(Term):
    """ An atom. `free` atoms are scenario inputs (arbitrary, independent). """
    __slots__ = ('name', 'ty', 'free')

    def __init__(self, name, ty=None, free=True):
        self.name, self.ty, self.free = name, ty, free

    def key(self):
        return self.name

    def __repr__(self):
        return self.name


class Op(Term):
    """ Application of an uninterpreted (or partially interpreted) operator. """
    __slots__ = ('op', 'args', 'ty')

    def __init__(self, op, args=(), ty=None):
        self.op, self.args, self.ty = op, tuple(args), ty

    def key(self):
        return (self.op, self.args)

    def __repr__(self):
        if self.op == 'byte':
            return '%r[%r]' % self.args
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Lin(Term):
    """ c + sum(coef*atom); always has at least one atom, and is not a bare atom. """
    __slots__ = ('c', 'ts')

    def __init__(self, c, ts):
        self.c, self.ts = c, ts

    def key(self):
        return (self.c, self.ts)

    def __repr__(self):
        s = ''
        for t, k in self.ts:
            if k == 1:
                s += ' + %r' % (t,)
            elif k == -1:
                s += ' - %r' % (t,)
            else:
                s += ' %s %d*%r' % ('-' if k < 0 else '+', abs(k), t)
        if self.c:
            s += ' %s %d' % ('-' if self.c < 0 else '+', abs(self.c))
        s = s.strip()
        return '(%s)' % (s[2:] if s.startswith('+ ') else s)


class Tup(Term):
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def key(self):
        return self.items

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Ref(Term):
    """ Reference to an abstract heap object. """
    __slots__ = ('oid', 'tag')

    def __init__(self, oid, tag=''):
        self.oid, self.tag = oid, tag

    def key(self):
        return self.oid

    def __repr__(self):
        return '<%s#%s>' % (self.tag, self.oid)


class Ext(Term):
    """ Something outside the analysed package, by qualified name. """
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return self.name


class Fn(Term):
    """ An analysed function (closure). """
    __slots__ = ('node', 'mod', 'fid', 'defaults', 'kwdefaults', 'name', 'qual', 'owner', 'isgen', 'uid', 'deco')
    _n = 0

    def __init__(self, node, mod, fid, defaults, kwdefaults, name, qual, isgen):
        self.node, self.mod, self.fid = node, mod, fid
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qual, self.isgen = name, qual, isgen
        self.owner = None
        self.deco = ()
        Fn._n += 1
        self.uid = Fn._n

    def key(self):
        return self.uid

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound(Term):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def key(self):
        return (self.fn, self.self)

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Desc(Term):
    """ staticmethod / classmethod / property / slot descriptors, super proxies,
        partials: small immutable wrappers. """
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts

    def key(self):
        return (self.kind, self.parts)

    def __repr__(self):
        return '<%s %s>' % (self.kind, ', '.join(map(repr, self.parts)))


class Gen(Term):
    """ A generator (or generator expression, or lazy iterator) not yet run. """
    __slots__ = ('kind', 'parts', 'uid')
    _n = 0

    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts
        Gen._n += 1
        self.uid = Gen._n

    def key(self):
        return self.uid

    def __repr__(self):
        return '<iterator %s>' % self.kind


# ---------------------------------------------------------------------------
# Linear arithmetic
# ---------------------------------------------------------------------------

def is_int_const(t):
    return type(t) is K and isinstance(t.v, int)


def lin_parts(t):
    """ (c, {atom: coef}) of an integer term. """
    if type(t) is Lin:
        return t.c, dict(t.ts)
    if type(t) is K and isinstance(t.v, int):
        return int(t.v), {}
    return 0, {t: 1}


def _order(t):
    return (type(t).__name__, repr(t))


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return Lin(c, tuple(sorted(d.items(), key=lambda x: _order(x[0]))))


def add(a, b, k=1):
    """ a + k*b """
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for t, x in db.items():
        da[t] = da.get(t, 0) + k * x
    return mklin(ca + k * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return mklin(c * k, {t: x * k for t, x in d.items()})


def norm_lin(t):
    """ Split an integer term into (direction, sign, gcd, constant) such that
        t == sign*g*direction + c ; the direction is canonical. """
    c, d = lin_parts(t)
    if not d:
        return None, 1, 1, c
    items = sorted(d.items(), key=lambda x: _order(x[0]))
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    s = 1 if items[0][1] > 0 else -1
    direction = tuple((t_, k // (g * s)) for t_, k in items)
    return direction, s, g, c


# ---------------------------------------------------------------------------
# Byte and text strings
# ---------------------------------------------------------------------------

class Seg(Term):
    """ A segment of a byte or text string.
        kind 'lit'  (value,)            literal bytes / str
             'rd'   (stream, pos, n)    n bytes at pos of a stream's contents
             'ube'  (x, n)              x as n big-endian bytes (n constant int)
             'fill' (byte, n)           n copies of one byte
             't'    (term, n)           opaque contents of length n
             'rep'  (loop, alts, n)     contents appended by a loop
    """
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def key(self):
        return (self.kind, self.a if self.kind != 'lit' else (type(self.a[0]).__name__, self.a[0]))

    def __repr__(self):
        if self.kind == 'lit':
            return repr(self.a[0])
        return '%s(%s)' % (self.kind, ', '.join(map(repr, self.a)))

    @property
    def n(self):
        if self.kind == 'lit':
            return K(len(self.a[0]))
        if self.kind == 'ube':
            return K(self.a[1])
        return self.a[-1]


class Bs(Term):
    """ A byte string (or text string, if `text`). """
    __slots__ = ('segs', 'text', '_n')

    def __init__(self, segs, text=False):
        self.segs, self.text, self._n = tuple(segs), text, None

    def key(self):
        return (self.segs, self.text)

    def __repr__(self):
        return '%s[%s]' % ('text' if self.text else 'bytes', ' '.join(map(repr, self.segs)))

    @property
    def n(self):
        if self._n is None:
            c, r = 0, ZERO
            for s in self.segs:
                if s.kind == 'lit':
                    c += len(s.a[0])
                    continue
                n = s.n
                if type(n) is K:
                    c += n.v
                else:
                    r = add(r, n)
            self._n = add(r, K(c))
        return self._n


def mkbs(segs, text=False):
    """ Normalised concatenation; a constant if all literal. """
    out = []
    for s in segs:
        if s.kind == 'ube' and type(s.a[0]) is K:
            try:
                s = Seg('lit', int(s.a[0].v).to_bytes(s.a[1], 'big'))
            except OverflowError:
                pass
        elif s.kind == 'fill' and type(s.a[1]) is K and isinstance(s.a[1].v, int) and s.a[1].v <= 4096:
            s = Seg('lit', s.a[0] * max(0, s.a[1].v))
        n = s.n
        if type(n) is K and n.v == 0:
            continue
        if out:
            p = out[-1]
            if p.kind == 'lit' and s.kind == 'lit':
                out[-1] = Seg('lit', p.a[0] + s.a[0])
                continue
            if p.kind == 'rd' and s.kind == 'rd' and p.a[0] == s.a[0] and add(p.a[1], p.a[2]) == s.a[1]:
                out[-1] = Seg('rd', p.a[0], p.a[1], add(p.a[2], s.a[2]))
                continue
            if p.kind == 'fill' and s.kind == 'fill' and p.a[0] == s.a[0]:
                out[-1] = Seg('fill', p.a[0], add(p.a[1], s.a[1]))
                continue
            if p.kind == 'ube' and s.kind == 'ube' and False:
                pass
        out.append(s)
    if not out:
        return K('' if text else b'')
    if len(out) == 1 and out[0].kind == 'lit':
        return K(out[0].a[0])
    if len(out) == 1 and out[0].kind == 't':
        t = out[0].a[0]
        if out[0].a[1] == mklen(t) and getattr(t, 'ty', None) == ('str' if text else 'bytes'):
            return t
    return Bs(out, text)


def mklen(t):
    return Op('len', (t,), 'int')


def segs_of(t, text=False):
    """ The segments of a bytes (or text) value. """
    if type(t) is Bs:
        return t.segs
    if type(t) is K:
        if isinstance(t.v, (bytes, bytearray)):
            return (Seg('lit', bytes(t.v)),)
        if isinstance(t.v, str):
            return (Seg('lit', t.v),)
    return (Seg('t', t, mklen(t)),)


def bytes_len(t):
    if type(t) is K:
        return K(len(t.v))
    if type(t) is Bs:
        return t.n
    return mklen(t)


def byte_at(stream, pos):
    return Op('byte', (stream, pos), 'int')


def ube_value(segs):
    """ The unsigned big-endian value of the segments, or None. """
    total = ZERO
    for s in segs:
        n = s.n
        if not is_int_const(n):
            return None
        w = n.v
        if s.kind == 'lit':
            v = K(int.from_bytes(s.a[0], 'big'))
        elif s.kind == 'ube':
            v = s.a[0]
        elif s.kind == 'rd':
            if w > 64:
                return None
            v = ZERO
            for i in range(w):
                v = add(scale(v, 256), byte_at(s.a[0], add(s.a[1], K(i))))
        elif s.kind == 'fill':
            v = K(int.from_bytes(s.a[0] * w, 'big'))
        elif s.kind == 't' and w <= 16:
            v = ZERO
            for i in range(w):
                v = add(scale(v, 256), Op('tbyte', (s.a[0], K(i)), 'int'))
        else:
            return None
        total = add(scale(total, 256 ** w), v)
    return total


# ---------------------------------------------------------------------------
# Type information
# ---------------------------------------------------------------------------

def static_type(t):
    """ Python type name of a term, when its form determines it. """
    c = type(t)
    if c is K:
        ty = type(t.v)
        return ty.__name__ if ty.__module__ == 'builtins' else '%s.%s' % (ty.__module__, ty.__qualname__)
    if c is Lin:
        return 'int'
    if c is Bs:
        return 'str' if t.text else 'bytes'
    if c is Tup:
        return 'tuple'
    if c is Sym or c is Op:
        return t.ty
    if c in (Fn, Bound):
        return 'function'
    if c is Gen:
        return 'generator'
    return None


def atoms(t, acc=None):
    """ All atoms (Sym, Op) below a term. """
    acc = set() if acc is None else acc
    c = type(t)
    if c is Sym:
        acc.add(t)
    elif c is Op:
        acc.add(t)
        for a in t.args:
            if isinstance(a, Term):
                atoms(a, acc)
    elif c is Lin:
        for a, _ in t.ts:
            atoms(a, acc)
    elif c is Tup:
        for a in t.items:
            atoms(a, acc)
    elif c is Bs:
        for s in t.segs:
            for a in s.a:
                if isinstance(a, Term):
                    atoms(a, acc)
    elif c in (Bound,):
        atoms(t.self, acc)
    return acc


def subst(t, m):
    """ Replace atoms by terms. """
    if t in m:
        return m[t]
    c = type(t)
    if c is Op:
        return Op(t.op, [subst(a, m) if isinstance(a, Term) else a for a in t.args], t.ty)
    if c is Lin:
        r = K(t.c)
        for a, k in t.ts:
            r = add(r, subst(a, m), k)
        return r
    if c is Tup:
        return Tup([subst(a, m) for a in t.items])
    if c is Bs:
        return mkbs([Seg(s.kind, *[subst(a, m) if isinstance(a, Term) else a for a in s.a])
                     for s in t.segs], t.text)
    return t


# Operators whose results are functions of their arguments, as documented by
# the Python library (so distinguishing arguments distinguishes results for
# some input).  Everything else is treated as unknown.
KNOWN_OPS = {
    'byte', 'tbyte', 'len', 'str', 'repr', 'decode', 'encodestr', 'translate', 'partition0',
    'unpackf', 'packf', 'item', 'eof', 'default', 'ubeval', 'mkdate', 'us', 'days', 'secs',
    'micros', 'tdelta', 'realpath', 'basename', 'stem', 'join', 'fmt', 'upper', 'lower',
    'fdiv', 'mod', 'attr', 'float', 'int', 'literal_eval', 'fromiso', 'b64e', 'b64d',
    'kwget', 'end', 'title', 'strip', 'ret', 'dictget', 'text', 'tell', 'mul', 'tbl', 'prefix',
    'cmp', 'eq', 'lt0', 'eq0', 'not', 'isinst', 'in', 'truth', 'datesub', 'splitext', 'expanduser',
    'replace', 'b64text', 'b64lines', 'hexbyte', 'hexdigit', 'idiv', 'iter', 'key', 'val', 'hex', 'and', 'or', 'xor', 'arg', 'dateadd',
}


def transparent(t):
    """ Is the term built only from free inputs and well-understood operators? """
    for a in atoms(t):
        if type(a) is Sym:
            if not a.free:
                return False
        elif a.op not in KNOWN_OPS:
            return False
    return True


# ---------------------------------------------------------------------------
# Facts known on a path
# ---------------------------------------------------------------------------

class Facts:
    """ Intervals on linear directions, truth of boolean terms, types. """
    __slots__ = ('iv', 'tr', 'ty', 'dead')

    def __init__(self):
        self.iv, self.tr, self.ty = {}, {}, {}
        self.dead = False

    def clone(self):
        f = Facts()
        f.iv, f.tr, f.ty = dict(self.iv), dict(self.tr), dict(self.ty)
        f.dead = self.dead
        return f

    # -- intervals -----------------------------------------------------------
    def atom_iv(self, t):
        r = self.iv.get(((t, 1),))
        lo, hi = r if r else (-INF, INF)
        if type(t) is Op:
            if t.op in ('byte', 'tbyte'):
                lo, hi = max(lo, 0), min(hi, 255)
            elif t.op in ('len', 'ubeval', 'end'):
                lo = max(lo, 0)
                if t.op == 'ubeval' and is_int_const(t.args[-1]):
                    hi = min(hi, 256 ** t.args[-1].v - 1)
            elif t.op == 'mod' and is_int_const(t.args[1]) and t.args[1].v > 0:
                lo, hi = max(lo, 0), min(hi, t.args[1].v - 1)
            elif t.op == 'fdiv' and is_int_const(t.args[1]) and t.args[1].v > 0:
                a, b = self.interval(t.args[0])
                m = t.args[1].v
                lo = max(lo, a if a == -INF else a // m)
                hi = min(hi, b if b == INF else b // m)
            elif t.op == 'secs':
                lo, hi = max(lo, 0), min(hi, 86399)
            elif t.op == 'micros':
                lo, hi = max(lo, 0), min(hi, 999999)
            elif t.ty == 'bool':
                v = self.truth(t)
                l, h = (0, 1) if v is None else (int(v), int(v))
                lo, hi = max(lo, l), min(hi, h)
        if type(t) is Sym and t.ty == 'bool':
            lo, hi = max(lo, 0), min(hi, 1)
        return lo, hi

    def truth(self, t):
        """ Whether a condition used as a value is known to hold, or None. """
        if t in self.tr:
            return self.tr[t]
        if t.op == 'not' and type(t.args[0]) is Op:
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op in ('lt0', 'eq0'):
            lo, hi = self.interval(t.args[0])
            if t.op == 'lt0':
                return True if hi < 0 else False if lo >= 0 else None
            return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        return None

    def interval(self, t):
        c, d = lin_parts(t)
        if not d:
            return c, c
        if len(d) == 1:
            (a, k), = d.items()
            lo, hi = self.atom_iv(a)
            lo, hi = (lo * k + c, hi * k + c) if k > 0 else (hi * k + c, lo * k + c)
            return lo, hi
        lo = hi = c
        for a, k in d.items():
            l, h = self.atom_iv(a)
            if k < 0:
                l, h = h, l
            lo += l * k
            hi += h * k
        direction, s, g, _ = norm_lin(t)
        r = self.iv.get(direction)
        if r:
            l, h = r
            if s < 0:
                l, h = -h, -l
            lo, hi = max(lo, l * g + c), min(hi, h * g + c)
        # One combination step: t = f + rest, for known facts f on several atoms
        if lo < hi:
            dd = frozenset(d)
            more = []
            for a in d:
                if type(a) is Op and a.op == 'fdiv' and is_int_const(a.args[1]) and a.args[1].v > 1:
                    # 0 <= x - m * (x // m) <= m - 1
                    dr, ds, dg, dc = norm_lin(sub(a.args[0], scale(a, a.args[1].v)))
                    if dr is not None and dg == 1:
                        l, h = -dc, a.args[1].v - 1 - dc
                        more.append((dr, (l, h) if ds > 0 else (-h, -l)))
            for direction2, (l, h) in more:
                if direction2 == direction:
                    l, h = (l, h) if s > 0 else (-h, -l)
                    lo, hi = max(lo, l * g + c), min(hi, h * g + c)
            for direction2, (l, h) in list(self.iv.items()) + more:
                if len(direction2) < 2 or direction2 == direction:
                    continue
                if not dd & {a for a, _ in direction2}:
                    continue
                for sign in (1, -1):
                    rest = dict(d)
                    ok = False
                    for a, k in direction2:
                        k2 = rest.get(a, 0) - sign * k
                        if a in d and k2 == 0:
                            ok = True
                        rest[a] = k2
                    if not ok:
                        continue
                    rl = rh = c
                    for a, k in rest.items():
                        if not k:
                            continue
                        al, ah = self.atom_iv(a)
                        if k < 0:
                            al, ah = ah, al
                        rl += al * k
                        rh += ah * k
                    fl, fh = (l, h) if sign > 0 else (-h, -l)
                    if rl != -INF and fl != -INF:
                        lo = max(lo, rl + fl)
                    if rh != INF and fh != INF:
                        hi = min(hi, rh + fh)
        return lo, hi

    def restrict(self, t, lo=-INF, hi=INF):
        """ Assume lo <= t <= hi. Returns False if that is impossible. """
        cl, ch = self.interval(t)
        if cl > hi or ch < lo:
            self.dead = True
            return False
        direction, s, g, c = norm_lin(t)
        if direction is None:
            return True
        l, h = lo - c, hi - c
        if s < 0:
            l, h = -h, -l
        l = l if l == -INF else -((-l) // g)
        h = h if h == INF else h // g
        ol, oh = self.iv.get(direction, (-INF, INF))
        nl, nh = max(l, ol), min(h, oh)
        if nl > nh:
            self.dead = True
            return False
        if self.tr and (nl, nh) != (ol, oh):
            # values known to be impossible
            dd = dict(direction)
            while nl <= nh and nl != -INF and self.tr.get(Op('eq0', (mklin(-nl, dd),), 'bool')) is False:
                nl += 1
            while nl <= nh and nh != INF and self.tr.get(Op('eq0', (mklin(-nh, dd),), 'bool')) is False:
                nh -= 1
            if nl > nh:
                self.dead = True
                return False
        self.iv[direction] = (nl, nh)
        # Propagate to single atoms: t = k*a + rest
        if len(direction) > 1:
            for a, k in direction:
                rl, rh = 0, 0
                for b, kb in direction:
                    if b == a:
                        continue
                    bl, bh = self.atom_iv(b)
                    if kb < 0:
                        bl, bh = bh, bl
                    rl += bl * kb
                    rh += bh * kb
                # k*a in [nl - rh, nh - rl]
                xl = nl - rh if nl != -INF and rh != INF else -INF
                xh = nh - rl if nh != INF and rl != -INF else INF
                if k < 0:
                    xl, xh = -xh, -xl
                    kk = -k
                else:
                    kk = k
                xl = xl if xl == -INF else -((-xl) // kk)
                xh = xh if xh == INF else xh // kk
                al, ah = self.atom_iv(a)
                if xl > al or xh < ah:
                    ol, oh = self.iv.get(((a, 1),), (-INF, INF))
                    nn = (max(ol, xl), min(oh, xh))
                    if nn[0] > nn[1]:
                        self.dead = True
                        return False
                    self.iv[((a, 1),)] = nn
        cl, ch = self.interval(t)
        if cl > ch:
            self.dead = True
            return False
        return True

    def const(self, t):
        """ The constant value an integer term is known to have, or None. """
        lo, hi = self.interval(t)
        if lo == hi and lo not in (INF, -INF):
            return lo
        return None

    def simp(self, t):
        """ Replace atoms known to be constant. """
        if type(t) in (Sym, Op) and self.tr:
            ty = static_type(t)
            if ty in ('str', 'bytes') and self.known_empty(t):
                return K('' if ty == 'str' else b'')
            if ty not in ('int', 'bool'):
                for a, v in self.tr.items():
                    if v and type(a) is Op and a.op == 'eq':
                        x, y = a.args
                        if type(y) is K and x == t:
                            return y
                        if type(x) is K and y == t:
                            return x
        if type(t) in (Sym, Op, Lin) and (type(t) is Lin or static_type(t) in ('int', 'bool')):
            if type(t) is Lin:
                v = self.const(t)
                if v is not None:
                    return K(v)
            c, d = lin_parts(t)
            ch = False
            for a in list(d):
                v = self.const(a)
                if v is not None:
                    c += d.pop(a) * v
                    ch = True
            if ch:
                return mklin(c, d)
        return t

    def known_empty(self, t):
        """ Whether a text or bytes term is known to have length 0. """
        for d, (lo, hi) in self.iv.items():
            if hi == 0 and len(d) == 1 and d[0][1] == 1:
                a = d[0][0]
                if type(a) is Op and a.op == 'len':
                    x = a.args[0]
                    if x == t or type(x) is Op and x.op == 'encodestr' and x.args[0] == t or \
                            type(t) is Op and t.op == 'encodestr' and t.args[0] == x:
                        return True
        return False

    def empty(self):
        """ Whether the linear facts contradict each other (Fourier-Motzkin
            elimination over the polyhedron they describe). """
        if self.dead:
            return True
        return polyhedron_empty(self)

    # -- types ---------------------------------------------------------------
    def typeof(self, t):
        s = static_type(t)
        if s is not None:
            return s
        r = self.ty.get(t)
        if r and r[0] is not None and len(r[0]) == 1:
            return next(iter(r[0]))
        return None

    def describe(self, limit=12):
        out = []
        for d, (lo, hi) in self.iv.items():
            t = mklin(0, dict(d))
            if lo == hi:
                out.append('%r == %s' % (t, lo))
            elif lo == -INF:
                out.append('%r <= %s' % (t, hi))
            elif hi == INF:
                out.append('%r >= %s' % (t, lo))
            else:
                out.append('%s <= %r <= %s' % (lo, t, hi))
        for t, v in self.tr.items():
            out.append('%r' % (t,) if v else 'not %r' % (t,))
        return out[:limit]


# ---------------------------------------------------------------------------
# Comparison of abstract values
# ---------------------------------------------------------------------------

def compare(facts, a, b):
    """ 'eq': equal for every concretisation on this path; 'ne': some
        concretisation distinguishes them; 'unk': the domain cannot tell. """
    a, b = facts.simp(a), facts.simp(b)
    if a == b:
        return 'eq' if True else None
    ta, tb = facts.typeof(a), facts.typeof(b)
    if ta in ('int', 'bool') and tb in ('int', 'bool') and \
            not (type(a) is K and type(b) is K):
        d = sub(a, b)
        lo, hi = facts.interval(d)
        if lo == hi == 0:
            return 'eq'
        if lo > 0 or hi < 0:
            return 'ne'
        return 'ne' if transparent(d) else 'unk'
    if type(a) is K and type(b) is K:
        if type(a.v) in (bool, int) and type(b.v) in (bool, int):
            return 'eq' if a.v == b.v else 'ne'
        if isinstance(a.v, (bytes, bytearray)) and isinstance(b.v, (bytes, bytearray)):
            return 'eq' if bytes(a.v) == bytes(b.v) else 'ne'
        return 'eq' if a == b else 'ne'
    if ta and tb and ta != tb and not {ta, tb} <= {'bytes', 'bytearray'}:
        return 'ne'
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return 'ne'
        rs = [compare(facts, x, y) for x, y in zip(a.items, b.items)]
        return 'ne' if 'ne' in rs else 'unk' if 'unk' in rs else 'eq'
    strlike = ('bytes', 'bytearray', 'str')
    if ta in strlike and tb in strlike and (type(a) in (Bs, K) or type(b) in (Bs, K)):
        return compare_segs(facts, segs_of(a), segs_of(b))
    if type(a) is Op and type(b) is Op and a.op == b.op and len(a.args) == len(b.args):
        rs = [compare(facts, x, y) if isinstance(x, Term) and isinstance(y, Term)
              else ('eq' if x == y else 'ne') for x, y in zip(a.args, b.args)]
        if all(r == 'eq' for r in rs):
            return 'eq'
        if 'ne' in rs and a.op in KNOWN_OPS and transparent(a) and transparent(b):
            return 'ne'
        return 'unk'
    if type(a) is Ref and type(b) is Ref:
        return 'ne'
    if transparent(a) and transparent(b):
        sa, sb = type(a), type(b)
        if sa is K or sb is K or sa is Sym or sb is Sym:
            return 'ne'
    return 'unk'


def _eqlen(facts, s):
    return facts.simp(s.n)


def simp_seg(facts, s):
    if s.kind == 'lit':
        return s
    return Seg(s.kind, *[facts.simp(x) if isinstance(x, Term) else x for x in s.a])


def bytes_of(facts, p, segs):
    """ Whether the whole of p, of known length, is spelled out byte by byte in the first segments. """
    n = _eqlen(facts, p)
    return p.kind == 't' and is_int_const(n) and 0 < n.v <= len(segs) and type(p.a[0]) is not Op and all(
        s.kind == 'ube' and s.a[1] == 1 and s.a[0] == Op('tbyte', (p.a[0], K(i)), 'int') for i, s in enumerate(segs[:n.v]))


def compare_segs(facts, x, y):
    xs = [simp_seg(facts, s) for s in x]
    ys = [simp_seg(facts, s) for s in y]
    xs = list(segs_of(mkbs(xs)))
    ys = list(segs_of(mkbs(ys)))
    opaque = False
    while xs and ys:
        p, q = xs[0], ys[0]
        if p == q:
            xs.pop(0)
            ys.pop(0)
            continue
        lp, lq = _eqlen(facts, p), _eqlen(facts, q)
        if p.kind == 'lit' and q.kind == 'lit':
            n = min(len(p.a[0]), len(q.a[0]))
            if p.a[0][:n] != q.a[0][:n]:
                return 'ne'
            xs[0] = Seg('lit', p.a[0][n:])
            ys[0] = Seg('lit', q.a[0][n:])
            if not xs[0].a[0]:
                xs.pop(0)
            if not ys[0].a[0]:
                ys.pop(0)
            continue
        if 'lit' in (p.kind, q.kind) and isinstance((p if p.kind == 'lit' else q).a[0], str):
            # text: hexadecimal digits are never white space or brackets
            t, u = (p, q) if p.kind == 'lit' else (q, p)
            if u.kind == 'rd' and type(u.a[0]) is Op and u.a[0].op == 'hexbyte' and t.a[0][0] not in '0123456789abcdefABCDEF' \
                    and is_int_const(_eqlen(facts, u)):
                return 'ne'
            return 'unk'
        if is_int_const(lp) and lp == lq:
            vp, vq = ube_value([p]), ube_value([q])
            if vp is not None and vq is not None:
                r = compare(facts, vp, vq)
                if r != 'eq':
                    return r
                xs.pop(0)
                ys.pop(0)
                continue
        # a value against its bytes one after the other
        if bytes_of(facts, p, ys):
            del xs[0], ys[:lp.v]
            continue
        if bytes_of(facts, q, xs):
            del ys[0], xs[:lq.v]
            continue
        # split literals/reads/ube against each other at constant widths
        if is_int_const(lp) and is_int_const(lq) and lp != lq:
            n = min(lp.v, lq.v)
            a1, a2 = split_seg(facts, p, n)
            b1, b2 = split_seg(facts, q, n)
            if a1 is not None and b1 is not None:
                xs[0:1] = [s for s in (a1, a2) if s is not None]
                ys[0:1] = [s for s in (b1, b2) if s is not None]
                continue
        if p.kind == q.kind and p.kind in ('rd', 't', 'fill', 'rep'):
            rs = [compare(facts, u, v) if isinstance(u, Term) and isinstance(v, Term)
                  else ('eq' if u == v else 'ne') for u, v in zip(p.a, q.a)]
            if all(r == 'eq' for r in rs):
                xs.pop(0)
                ys.pop(0)
                continue
            if p.kind == 'fill' and rs[0] == 'eq':
                # different amounts of the same filler: lengths decide
                pass
            elif 'ne' in rs and transparent(Bs([p])) and transparent(Bs([q])):
                return 'ne'
        opaque = True
        break
    if not opaque:
        rest = xs or ys
        if not rest:
            return 'eq'
        n = mkbs(rest)
        n = bytes_len(n)
        lo, hi = facts.interval(n)
        if hi == 0:
            return 'eq'
        if lo > 0 or transparent(n):
            return 'ne'
        return 'unk'
    # Structures differ: total lengths may still decide
    lx = bytes_len(mkbs(xs))
    ly = bytes_len(mkbs(ys))
    d = sub(lx, ly)
    lo, hi = facts.interval(d)
    if lo > 0 or hi < 0:
        return 'ne'
    both = transparent(Bs(xs)) and transparent(Bs(ys))
    if not both:
        return 'unk'
    if (lo, hi) != (0, 0) and d != ZERO:
        return 'ne'
    # equal lengths, transparent, different leading content
    kinds = {xs[0].kind, ys[0].kind}
    if kinds <= {'rd', 'lit', 'fill'} or kinds == {'t', 'lit'} or kinds == {'t', 'rd'}:
        return 'ne'
    return 'unk'


def split_seg(facts, s, n):
    """ Split a segment after n bytes (n a constant int). """
    if s.kind == 'lit':
        a, b = s.a[0][:n], s.a[0][n:]
        return Seg('lit', a), (Seg('lit', b) if b else None)
    if s.kind == 'rd':
        rest = sub(s.a[2], K(n))
        return Seg('rd', s.a[0], s.a[1], K(n)), (Seg('rd', s.a[0], add(s.a[1], K(n)), rest)
                                                 if rest != ZERO else None)
    if s.kind == 'fill':
        rest = sub(s.a[1], K(n))
        return Seg('lit', s.a[0] * n), (Seg('fill', s.a[0], rest) if rest != ZERO else None)
    if s.kind == 'ube':
        w = s.a[1] - n
        hi = shr(facts, s.a[0], 8 * w)
        lo = mask_low(facts, s.a[0], 8 * w)
        return Seg('ube', hi, n), (Seg('ube', lo, w) if w else None)
    return None, None


def floordiv(facts, t, m):
    """ t // m for a positive constant m. """
    c, d = lin_parts(t)
    if not d:
        return K(c // m)
    q, r = {}, {}
    for a, k in d.items():
        if k % m == 0:
            q[a] = k // m
        else:
            r[a] = k
    cq, cr = divmod(c, m)
    rest = mklin(cr, r)
    lo, hi = facts.interval(rest)
    if lo != -INF and hi != INF and lo // m == hi // m:
        return add(mklin(cq, q), K(lo // m))
    # (x // a + c) // m == (x + c*a) // (a*m)
    if len(r) == 1:
        (a, k), = r.items()
        if k == 1 and type(a) is Op and a.op == 'fdiv' and is_int_const(a.args[1]):
            return add(mklin(cq, q), floordiv(facts, add(a.args[0], K(cr * a.args[1].v)), m * a.args[1].v))
    return add(mklin(cq, q), Op('fdiv', (rest, K(m)), 'int'))


def modulo(facts, t, m):
    """ t % m, as t - m * (t // m). """
    return sub(t, scale(floordiv(facts, t, m), m))


def shr(facts, t, k):
    return floordiv(facts, t, 1 << k)


def mask_low(facts, t, k):
    return modulo(facts, t, 1 << k) if k else ZERO


def _prefix(lo, hi):
    """ Known leading bits of all values in [lo, hi] (both >= 0):
        (value of known bits, number of unknown low bits). """
    j = (lo ^ hi).bit_length()
    return (lo >> j) << j, j


def bit_and(facts, t, m):
    """ t & m with a constant mask m >= 0. """
    if m == 0:
        return ZERO
    lo, hi = facts.interval(t)
    if m & (m + 1) == 0:
        return mask_low(facts, t, m.bit_length())
    if lo < 0 or hi == INF:
        # align: low zero bits of the mask
        return Op('and', (t, K(m)), 'int')
    p, j = _prefix(int(lo), int(hi))
    u = sub(t, K(p))
    U = (1 << j) - 1
    mu = m & U
    if mu == 0:
        return K(p & m)
    if mu == U:
        return add(K(p & m), u)
    if mu & (mu + 1) == 0:
        return add(K(p & m), mask_low(facts, u, mu.bit_length()))
    # mask is a contiguous high run within U: u - (u mod 2^k)
    k = (mu & -mu).bit_length() - 1
    if mu == U & ~((1 << k) - 1):
        return add(K(p & m), sub(u, mask_low(facts, u, k)))
    # single bit or run in the middle: ((u >> k) mod 2^w) << k
    w = (mu >> k)
    if w & (w + 1) == 0:
        return add(K(p & m), scale(mask_low(facts, shr(facts, u, k), w.bit_length()), 1 << k))
    return Op('and', (t, K(m)), 'int')


def bit_or(facts, t, m):
    a = bit_and(facts, t, m)
    if type(a) is Op and a.op == 'and':
        return Op('or', (t, K(m)), 'int')
    return sub(add(t, K(m)), a)


def bit_xor(facts, t, m):
    a = bit_and(facts, t, m)
    if type(a) is Op and a.op == 'and':
        return Op('xor', (t, K(m)), 'int')
    return sub(add(t, K(m)), scale(a, 2))


def alignment(t):
    """ Largest k such that t is a multiple of 2**k. """
    c, d = lin_parts(t)
    g = abs(c)
    for _, k in d.items():
        g = gcd(g, abs(k))
    if g == 0:
        return 64
    return (g & -g).bit_length() - 1


def disjoint_bits(facts, a, b):
    """ Are the set bits of a and b provably disjoint (both >= 0)? """
    for x, y in ((a, b), (b, a)):
        k = alignment(x)
        lo, hi = facts.interval(y)
        lx, _ = facts.interval(x)
        if lo >= 0 and hi < (1 << k) and lx >= 0:
            return True
    return False


def polyhedron_empty(facts, limit=4000):
    """ Emptiness of the polyhedron of the linear facts (rational
        relaxation): constraints sum(k*a) + c >= 0. """
    cons = set()

    def put(d, c):
        if d:
            g = 0
            for k in d.values():
                g = gcd(g, abs(k))
            cons.add((frozenset((a, k // g) for a, k in d.items()), c // g))
        elif c < 0:
            return False
        return True
    used = set()
    for direction, (lo, hi) in facts.iv.items():
        d = dict(direction)
        used |= set(d)
        if lo != -INF:
            put(d, -lo)
        if hi != INF:
            put({a: -k for a, k in d.items()}, hi)
    for a in list(used):
        if type(a) is Op and a.op == 'fdiv' and is_int_const(a.args[1]):
            r, m = sub(a.args[0], scale(a, a.args[1].v)), a.args[1].v
            c, d = lin_parts(r)
            used |= set(d)
            put(d, c)
            put({x: -k for x, k in d.items()}, m - 1 - c)
    for a in used:
        lo, hi = facts.atom_iv(a)
        if lo != -INF:
            put({a: 1}, -lo)
        if hi != INF:
            put({a: -1}, hi)
    while cons:
        # drop dominated constraints
        best = {}
        for d, c in cons:
            if d not in best or c < best[d]:
                best[d] = c
        counts = {}
        for d in best:
            for a, k in d:
                p, n = counts.get(a, (0, 0))
                counts[a] = (p + (k > 0), n + (k < 0))
        if not counts:
            return False
        a = min(counts, key=lambda x: (counts[x][0] * counts[x][1], repr(x)))
        if counts[a][0] * counts[a][1] > limit:
            return False
        pos, neg, rest = [], [], set()
        for d, c in best.items():
            k = dict(d).get(a, 0)
            if k > 0:
                pos.append((dict(d), c, k))
            elif k < 0:
                neg.append((dict(d), c, -k))
            else:
                rest.add((d, c))
        cons = rest
        for dp, cp, kp in pos:
            for dn, cn, kn in neg:
                d = {}
                for x, k in dp.items():
                    d[x] = d.get(x, 0) + k * kn
                for x, k in dn.items():
                    d[x] = d.get(x, 0) + k * kp
                d = {x: k for x, k in d.items() if k}
                c = cp * kn + cn * kp
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = gcd(g, abs(k))
                cons.add((frozenset((x, k // g) for x, k in d.items()), c // g))
        if len(cons) > limit:
            return False
    return False
