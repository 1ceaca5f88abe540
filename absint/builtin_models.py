"""
Models, part 2: attribute access, calls of unknown things, built-in functions
and the methods of the built-in types.
"""
import builtins
import codecs
import re

from .terms import *
from .interp import Obj, Call, ok, pyobj, canon_ext, AnalysisError
from .models import (MODELS, ATTRS, model, A, isstr, isbytes, isint, deref, is_rep, plain_list, plain_dict,
                     container_len, make_set, hashable, key_search, dict_value, dict_set, dict_update, list_append,
                     known_items, to_items, iterate, next_of, concat_text, to_str, format_value, binop,
                     getitem, setitem, delitem, list_extend, ba_extend, byte_of, contains)

CONTAINERS = ('list', 'dict', 'set', 'frozenset', 'bytearray')


# ---------------------------------------------------------------------------
# Attributes
# ---------------------------------------------------------------------------

def obj_getattr(ip, st, o, ob, name):
    if name == '__class__':
        return ok(st, ip.type_of(st, o))
    if ob.kind in CONTAINERS:
        if hasattr(getattr(builtins, ob.kind), name):
            return ok(st, Bound(Ext('builtins.%s.%s' % (ob.kind, name)), o))
        return ip.raise_(st, 'AttributeError', name)
    if ob.info.get('type') == 'tlocal':
        key = local_key(st, ob, name)
        return ok(st, ob.attrs[key]) if key in ob.attrs else ip.raise_(st, 'AttributeError', name)
    if name in ob.attrs:
        v = ob.attrs[name]
        if type(v) is Fn:
            return ok(st, v)
        return ok(st, v)
    if ob.kind == 'stream':
        if name == 'closed':
            return ok(st, ob.info.get('closed', FALSE))
        if name in ('name', 'mode', 'encoding', 'errors', 'newlines'):
            if name in ob.info:
                return ok(st, ob.info[name])
            if ob.info.get('role') == 'mem':
                return ip.raise_(st, 'AttributeError', name)
            return ok(st, Op('attr', (o, name), None))
        if 'oracle' in ob.info and 'oracle.' + name in MODELS:
            return ok(st, Bound(Ext('oracle.' + name), o))
        if ob.info.get('role') == 'mem' and name in ('readall',):
            return ip.raise_(st, 'AttributeError', name)
        return ok(st, Bound(Ext('stream.' + name), o))
    if ob.kind == 'xml':
        return ok(st, Bound(Ext('etree.' + name), o))
    if ob.kind == 'ext' and 'getattr' not in ob.info:
        if 'type' in ob.info:
            return ok(st, Bound(Ext('%s.%s' % (ob.info['type'], name)), o))
        return ok(st, Op('attr', (o, name), None))
    f = ob.info.get('getattr')
    if f is not None:
        r = f(ip, st, o, name)
        if r is not None:
            return r
    return ok(st, Op('attr', (o, name), None))


def local_key(st, ob, name):
    """ Attributes of a threading.local belong to the current thread. """
    if ob.info.get('type') == 'tlocal':
        return '%s@%r' % (name, st.ctx.get('threadref', st.ctx.get('thread', 1)))
    return name


def obj_setattr(ip, st, o, ob, name, v):
    name = local_key(st, ob, name)
    if ob.kind in CONTAINERS:
        return ip.raise_(st, 'AttributeError', name)
    if ob.kind == 'opaque':
        st.ev('omut', o, 'setattr', ip.where(), name, v)
    ip.mut(st, o, 'setattr', name, v).attrs[name] = v
    return ok(st, None)


def desc_getattr(ip, st, o, name):
    k = o.kind
    m = DESC_ATTRS.get((k, name)) or DESC_ATTRS.get((k, '*'))
    if m is not None:
        return m(ip, st, o, name)
    if k in ('dictkeys', 'dictvalues', 'dictitems', 'range', 'slice'):
        return ok(st, Bound(Ext('desc.%s.%s' % (k, name)), o))
    if k == 'partial':
        if name == 'func':
            return ok(st, o.parts[0])
        if name == 'args':
            return ok(st, Tup(o.parts[1]))
        return ip.raise_(st, 'AttributeError', name)
    if k == 'rep':
        return ok(st, Op('attr', (o, name), None))
    return ok(st, Bound(Ext('desc.%s.%s' % (k, name)), o))


DESC_ATTRS = {}


def value_getattr(ip, st, o, name):
    t = st.facts.typeof(o)
    if t is None and type(o) is Gen:
        t = 'generator'
    if t == 'NoneType':
        if hasattr(None, name):
            return ok(st, Bound(Ext('builtins.NoneType.' + name), o))
        return ip.raise_(st, 'AttributeError', name)
    if t is None or '.' in t or t in ('generator', 'function', 'iterator'):
        key = (t, name)
        m = VALUE_ATTRS.get(key)
        if m is not None:
            return m(ip, st, o, name)
        if type(o) is Gen:
            return ok(st, Bound(Ext('generator.' + name), o))
        if t is not None and '.' in t:
            po = pyobj(t)
            if isinstance(po, type):
                if not hasattr(po, name):
                    return ip.raise_(st, 'AttributeError', name)
                if callable(getattr(po, name)):
                    return ok(st, Bound(Ext('%s.%s' % (t, name)), o))
        if type(o) is K and hasattr(o.v, name) and not callable(getattr(o.v, name)):
            return ok(st, K(getattr(o.v, name)))
        if name == '__class__':
            return ok(st, Op('type', (o,), 'type'))
        return ok(st, Op('attr', (o, name), None))
    if name == '__class__':
        return ok(st, Ext('builtins.' + t))
    po = getattr(builtins, t, None)
    if po is None or not hasattr(po, name):
        if po is None and type(o) is K:
            if not hasattr(o.v, name):
                return ip.raise_(st, 'AttributeError', name)
            a = getattr(o.v, name)
            if not callable(a):
                return ok(st, K(a))
            return ok(st, Bound(Ext('%s.%s.%s' % (type(o.v).__module__, t, name)), o))
        if po is None:
            return ok(st, Op('attr', (o, name), None))
        return ip.raise_(st, 'AttributeError', name)
    if t in ('int', 'bool') and name in ('real', 'numerator'):
        return ok(st, o)
    return ok(st, Bound(Ext('builtins.%s.%s' % (t, name)), o))


VALUE_ATTRS = {}


def ext_inst_attr(ip, st, o, ob, name, v):
    """ Attribute of an analysed class's instance inherited from a library
        class; None for the default treatment. """
    po = pyobj(v.name)
    if po is not None and not callable(po) and not isinstance(po, (staticmethod, classmethod)):
        if isinstance(po, (str, int, float, bytes, type(None))):
            return ok(st, K(po))
        # getset descriptors / properties of the base class
        st.ev('inherited', o, name, ip.where())
        return ok(st, Op('inherited', (o, name), None))
    return None


# ---------------------------------------------------------------------------
# Calls
# ---------------------------------------------------------------------------

def call_desc(ip, st, f, c):
    if f.kind == 'union':
        return ip.raise_(st, 'TypeError', 'not callable')
    m = MODELS.get('desccall.' + f.kind)
    if m is not None:
        return m(ip, st, Call([f] + c.args, c.kw, c.star, c.dstar))
    return call_opaque(ip, st, f, c)


def argterms(c):
    a = list(c.args)
    for k in sorted(c.kw):
        a.append(Op('arg', (K(k), c.kw[k])))
    if c.star is not None:
        a.append(Op('star', (c.star,)))
    if c.dstar is not None:
        a.append(Op('dstar', (c.dstar,)))
    return tuple(a)


def has_mutable(ip, st, c):
    for v in list(c.args) + list(c.kw.values()):
        if type(v) is Ref and st.get(v).kind in ('list', 'dict', 'set', 'bytearray', 'inst', 'xml', 'stream'):
            return True
    return False


def call_opaque(ip, st, f, c):
    t = ip.type_of(st, f) if isinstance(f, Term) else None
    if type(f) in (K, Tup, Lin, Bs) or (t is not None and t.name in (
            'builtins.int', 'builtins.str', 'builtins.bytes', 'builtins.NoneType', 'builtins.float')) \
            or type(f) is Ref and st.get(f).kind in CONTAINERS + ('module', 'inst', 'stream', 'xml'):
        return ip.raise_(st, 'TypeError', 'object is not callable')
    h = ip.cfg.get('ocall')
    if h is not None:
        r = h(ip, st, f, c)
        if r is not None:
            return r
    args = argterms(c)
    st.ev('ocall', f, args, ip.where())
    if type(f) is Op and f.op == 'attr' and type(f.args[0]) is Ref and st.get(f.args[0]).kind == 'inst':
        st.doubt('call of unknown attribute %s' % f.args[1])
    elif type(f) is Op and f.op.startswith(('call:', 'ret')) and any(type(a) is Ref and st.get(a).kind == 'inst' for a in c.args):
        st.doubt('call of an unknown function with an object')
    return ok(st, Op('ret', (f,) + args, None))


PURE = ('builtins.', 'math.', 'base64.', 'binascii.', 'datetime.', 'operator.', 'struct.', 'string.', 'textwrap.',
        'posixpath.', 'os.path.join', 'os.path.basename', 'os.path.splitext', 'os.path.dirname', 'os.path.split',
        'os.path.normpath', 're.escape', 'ast.literal_eval', 'unicodedata.', 'html.', 'xml.sax.saxutils.',
        'os.path.isabs', 'os.fspath', 'fractions.', 'decimal.', 'calendar.', 'platform.architecture')
IMPURE = {'builtins.open', 'builtins.input', 'builtins.print', 'builtins.exec', 'builtins.eval', 'builtins.compile',
          'builtins.__import__', 'builtins.id', 'builtins.hash', 'builtins.globals', 'builtins.locals',
          'builtins.vars', 'builtins.dir', 'builtins.breakpoint', 'builtins.exit', 'builtins.quit',
          'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today'}
CONSTS = (int, float, str, bytes, bool, type(None), tuple, complex)


def fold_const(ip, st, name, c):
    """ Evaluate a pure library function on constants. Outcomes or None. """
    if name in IMPURE or not name.startswith(PURE) or c.star is not None or c.dstar is not None:
        return None
    vals = []
    for a in c.args:
        a = st.facts.simp(a) if type(a) in (Sym, Op, Lin) else a
        if type(a) is K:
            vals.append(a.v)
        elif type(a) is Tup and all(type(x) is K for x in a.items):
            vals.append(tuple(x.v for x in a.items))
        else:
            return None
    kw = {}
    for k, a in c.kw.items():
        if type(a) is not K:
            return None
        kw[k] = a.v
    f = pyobj(name)
    if not callable(f):
        return None
    try:
        r = f(*vals, **kw)
    except Exception as e:
        n = type(e)
        return ip.raise_(st, '%s.%s' % (n.__module__, n.__qualname__), str(e))
    return wrap_const(ip, st, r)


def wrap_const(ip, st, r):
    import datetime
    if isinstance(r, bool) or r is None or isinstance(r, (int, float, str, bytes, complex)):
        return ok(st, K(r))
    if isinstance(r, (datetime.datetime, datetime.timedelta, datetime.date)):
        return ok(st, K(r))
    if isinstance(r, bytearray):
        return ok(st, ip.alloc(st, Obj('bytearray', data=K(bytes(r)))))
    if isinstance(r, tuple):
        out = []
        for x in r:
            o = wrap_const(ip, st, x)
            if o is None:
                return None
            out.append(o[0][2])
        return ok(st, Tup(out))
    if isinstance(r, list):
        out = []
        for x in r:
            o = wrap_const(ip, st, x)
            if o is None:
                return None
            out.append(o[0][2])
        return ok(st, ip.alloc(st, Obj('list', data=tuple(out))))
    return None


RESULT_TYPES = {}


def call_unknown(ip, st, name, c):
    o = pyobj(name)
    if isinstance(o, type) and issubclass(o, BaseException):
        return ok(st, ip.exc(st, Ext(name), *c.args))
    if name.startswith('any.'):
        return ok(st, ip.exc(st, Ext(name), *c.args))
    r = fold_const(ip, st, name, c)
    if r is not None:
        return r
    if name.endswith('.__init__'):
        return ok(st, NONE)
    if o is not None and not callable(o):
        return ip.raise_(st, 'TypeError', 'object is not callable')
    # methods of container types on the base implementation
    parts = name.split('.')
    if len(parts) >= 3 and parts[-1].startswith('__') and parts[-1].endswith('__'):
        d = dunder(ip, st, parts[-1], c)
        if d is not None:
            return d
    ip.unknown_ext.add(name)
    if has_mutable(ip, st, c):
        st.doubt('effect of %s() is not modelled' % name)
    st.ev('xcall', name, argterms(c), ip.where())
    return ok(st, Op('call:' + name, argterms(c), RESULT_TYPES.get(name)))


def dunder(ip, st, n, c):
    a = c.args
    ops = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__or__': 'BitOr', '__and__': 'BitAnd',
           '__xor__': 'BitXor', '__mod__': 'Mod', '__floordiv__': 'FloorDiv', '__truediv__': 'Div',
           '__lshift__': 'LShift', '__rshift__': 'RShift', '__pow__': 'Pow'}
    if n in ops and len(a) == 2:
        return binop(ip, st, ops[n], a[0], a[1])
    cmps = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}
    if n in cmps and len(a) == 2:
        return ip.compare_op(st, cmps[n], a[0], a[1])
    if n == '__len__' and len(a) == 1:
        return m_len(ip, st, c)
    if n == '__contains__' and len(a) == 2:
        return contains(ip, st, a[1], a[0])
    if n == '__getitem__' and len(a) == 2:
        return getitem(ip, st, a[0], a[1])
    if n == '__setitem__' and len(a) == 3:
        return [(s, g, NONE if g == 'v' else v) for s, g, v in setitem(ip, st, *a)]
    if n == '__delitem__' and len(a) == 2:
        return [(s, g, NONE if g == 'v' else v) for s, g, v in delitem(ip, st, *a)]
    if n == '__iter__' and len(a) == 1:
        return m_iter(ip, st, c)
    if n == '__next__' and len(a) == 1:
        return next_of(ip, st, a[0])
    if n in ('__str__', '__repr__') and len(a) == 1:
        return to_str(ip, st, a[0], 's' if n == '__str__' else 'r')
    if n == '__bool__' and len(a) == 1:
        return ip.condval(st, ip.cond(st, a[0]))
    if n == '__int__' and len(a) == 1:
        return m_int(ip, st, c)
    if n == '__float__' and len(a) == 1:
        return m_float(ip, st, c)
    if n == '__index__' and len(a) == 1:
        return ok(st, a[0])
    if n == '__hash__' and len(a) == 1:
        return ok(st, Op('hash', (a[0],), 'int'))
    if n == '__format__' and len(a) == 2 and isstr(a[1]):
        return format_value(ip, st, a[0], a[1].v, '')
    return None


def special_base(ip, st, ref, cls, exts, c):
    return None


# ---------------------------------------------------------------------------
# object
# ---------------------------------------------------------------------------

@model('builtins.object.__init__', 'builtins.object.__init_subclass__')
def m_obj_init(ip, st, c):
    return ok(st, NONE)


@model('builtins.object')
def m_object(ip, st, c):
    return ok(st, ip.alloc(st, Obj('inst', Ext('builtins.object')), 'object'))


@model('builtins.object.__new__')
def m_obj_new(ip, st, c):
    return ok(st, ip.alloc(st, Obj('inst', c.args[0])))


@model('builtins.object.__setattr__')
def m_obj_setattr(ip, st, c):
    o, n, v = c.args[:3]
    if isstr(n):
        if type(o) is Ref and st.get(o).kind == 'inst':
            d, _ = ip.lookup(st, st.get(o).cls, n.v)
            if type(d) is Desc and d.kind == 'property':
                return ip.setattr_(st, o, n.v, v)
            ip.mut(st, o, 'setattr', n.v, v).attrs[n.v] = v
            return ok(st, NONE)
        return [(s, g, NONE if g == 'v' else x) for s, g, x in ip.setattr_(st, o, n.v, v)]
    st.doubt('attribute of unknown name set')
    return ok(st, NONE)


@model('builtins.object.__getattribute__')
def m_obj_getattr(ip, st, c):
    if isstr(c.args[1]):
        return ip.getattr_(st, c.args[0], c.args[1].v)
    return ok(st, Op('getattr', tuple(c.args), None))


@model('builtins.object.__repr__')
def m_obj_repr(ip, st, c):
    return ok(st, Op('repr', (c.args[0],), 'str'))


@model('builtins.object.__str__')
def m_obj_str(ip, st, c):
    o = c.args[0]
    f, _ = ip.lookup(st, ip.type_of(st, o), '__repr__') if ip.type_of(st, o) is not None else (None, None)
    if type(f) is Fn:
        return ip.call(st, f, Call([o]))
    return ok(st, Op('repr', (o,), 'str'))


@model('builtins.object.__eq__')
def m_obj_eq(ip, st, c):
    if c.args[0] == c.args[1]:
        return ok(st, TRUE)
    return ok(st, Ext('builtins.NotImplemented'))


@model('builtins.object.__ne__')
def m_obj_ne(ip, st, c):
    return ip.compare_op(st, 'NotEq', c.args[0], c.args[1])


@model('builtins.object.__hash__')
def m_obj_hash(ip, st, c):
    return ok(st, Op('hash', (c.args[0],), 'int'))


@model('builtins.BaseException.with_traceback')
def m_with_tb(ip, st, c):
    return ok(st, c.args[0])


@model('builtins.BaseException.__init__', 'builtins.Exception.__init__')
def m_exc_init(ip, st, c):
    e = c.args[0]
    if type(e) is Ref:
        ip.mut(st, e).attrs['args'] = Tup(c.args[1:])
    return ok(st, NONE)


# ---------------------------------------------------------------------------
# Built-in functions
# ---------------------------------------------------------------------------

@model('builtins.len')
def m_len(ip, st, c):
    v = c.args[0]
    if type(v) is Ref:
        o = st.get(v)
        if o.kind == 'inst':
            f, _ = ip.lookup(st, o.cls, '__len__')
            if f is not None:
                return ip.call(st, Bound(f, v), Call())
            return ip.raise_(st, 'TypeError', 'object has no len()')
        if o.kind in CONTAINERS or o.kind == 'xml':
            n = container_len(ip, st, v)
            return ok(st, n if n is not None else mklen(v))
        if o.kind in ('stream', 'class', 'module'):
            return ip.raise_(st, 'TypeError', 'object has no len()')
        return ok(st, mklen(v))
    if type(v) is Tup:
        return ok(st, K(len(v.items)))
    if type(v) is K:
        try:
            return ok(st, K(len(v.v)))
        except TypeError:
            return ip.raise_(st, 'TypeError', 'object has no len()')
    if type(v) is Bs:
        return ok(st, v.n)
    if type(v) is Desc:
        its = known_items(ip, st, v)
        if its is not None:
            return ok(st, K(len(its)))
        if v.kind in ('dictkeys', 'dictvalues', 'dictitems'):
            return m_len(ip, st, Call([v.parts[0]]))
    if type(v) in (Gen, Fn, Bound):
        return ip.raise_(st, 'TypeError', 'object has no len()')
    t = st.facts.typeof(v)
    if t in ('int', 'float', 'bool', 'NoneType'):
        return ip.raise_(st, 'TypeError', 'object has no len()')
    if type(v) is Op and v.op == 'iter':
        return ip.raise_(st, 'TypeError', 'object has no len()')
    return ok(st, mklen(v))


@model('builtins.ord')
def m_ord(ip, st, c):
    v = deref(st, c.args[0])
    if type(v) is K:
        try:
            return ok(st, K(ord(v.v)))
        except TypeError as e:
            return ip.raise_(st, 'TypeError', str(e))
    t = st.facts.typeof(v)
    if t in ('int', 'NoneType', 'bool', 'float', 'list', 'tuple'):
        return ip.raise_(st, 'TypeError', 'ord() expected string')
    n = bytes_len(v)
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('eq0', (add(n, K(-1)),), 'bool'))):
        if not b:
            res.extend(ip.raise_(s, 'TypeError', 'ord() expected a character'))
        elif t == 'bytes' or t == 'bytearray':
            res.extend(ok(s, byte_of(s, v, ZERO, False)))
        else:
            res.extend(ok(s, Op('ord', (v,), 'int')))
    return res


@model('builtins.chr')
def m_chr(ip, st, c):
    v = st.facts.simp(c.args[0])
    if type(v) is K:
        return fold_const(ip, st, 'builtins.chr', Call([v]))
    t = st.facts.typeof(v)
    if t not in ('int', 'bool', None):
        return ip.raise_(st, 'TypeError', 'an integer is required')
    res = []
    for s, b in split_range(ip, st, v, 0, 0x10ffff):
        res.extend(ok(s, Bs([Seg('t', Op('chr', (v,), 'str'), ONE)], True)) if b
                   else ip.raise_(s, 'ValueError', 'chr() arg not in range'))
    return res


def split_range(ip, st, v, lo, hi):
    """ [(state, in range?)] """
    out = []
    for s, b in ip.branch(st, ip.decide(st, Op('lt0', (add(v, K(-lo)),), 'bool'))):
        if b:
            out.append((s, False))
            continue
        for s2, b2 in ip.branch(s, ip.decide(s, Op('lt0', (sub(K(hi), v),), 'bool'))):
            out.append((s2, not b2))
    return out


def partition_int(ip, st, t, limit=20):
    """ Split on the values of an integer in a small range: [(state, int)] or None. """
    t = st.facts.simp(t)
    if isint(t):
        return [(st, t.v)]
    lo, hi = st.facts.interval(t)
    if lo == -INF or hi == INF or hi - lo > limit:
        return None
    out = []
    cur = [st]
    for v in range(int(lo), int(hi) + 1):
        nxt = []
        for s in cur:
            for s2, b in ip.branch(s, ip.decide(s, Op('eq0', (add(t, K(-v)),), 'bool'))):
                if b:
                    out.append((s2, v))
                else:
                    nxt.append(s2)
        cur = nxt
    return out


def hex_value(segs):
    """ The value of hexadecimal digits. """
    total = None
    for g in segs:
        if g.kind == 'lit':
            try:
                w, v = len(g.a[0]), K(int(g.a[0], 16))
            except ValueError:
                return None
        elif g.kind == 'rd' and type(g.a[0]) is Op and g.a[0].op == 'hexbyte' and is_int_const(g.a[1]) and is_int_const(g.a[2]):
            b, (i, w) = g.a[0].args[0], (g.a[1].v, g.a[2].v)
            v = b if (i, w) == (0, 2) else Op('hexdigit', (b, K(i)), 'int') if w == 1 else None
            if v is None:
                return None
        else:
            return None
        total = v if total is None else add(scale(total, 16 ** w), v)
    return total


@model('builtins.int')
def m_int(ip, st, c):
    if not c.args and not c.kw:
        return ok(st, ZERO)
    v = c.args[0]
    v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
    base = A(c, 1, 'base')
    r = fold_const(ip, st, 'builtins.int', Call([v] + ([base] if base is not None else [])))
    if r is not None:
        return r
    t = st.facts.typeof(v) if type(v) is not Ref else None
    if t == 'int':
        return ok(st, v)
    if t == 'bool':
        return ip.bind([(s, 'v', K(int(b))) for s, b in ip.branch(st, ip.cond(st, v))], ok)
    if t == 'float':
        res = []
        for s, b in ip.branch(st, ip.decide(st, Op('finite', (v,), 'bool'))):
            res.extend(ok(s, Op('int', (v,), 'int')) if b else ip.raise_(s, 'OverflowError', 'cannot convert float'))
        return res
    if t == 'NoneType' or type(v) in (Tup,):
        return ip.raise_(st, 'TypeError', 'int() argument')
    if type(v) is Ref:
        o = st.get(v)
        if o.kind == 'inst':
            f, _ = ip.lookup(st, o.cls, '__int__')
            if f is not None:
                return ip.call(st, Bound(f, v), Call())
        if o.kind in ('list', 'dict', 'set', 'inst'):
            return ip.raise_(st, 'TypeError', 'int() argument')
    if type(v) is Op and v.op == 'str' and st.facts.typeof(v.args[0]) == 'int' and base is None:
        return ok(st, v.args[0])
    if base == K(16):
        x = hex_value(segs_of(v, t == 'str'))
        if x is not None:
            return ok(st, x)
    args = (v,) + ((base,) if base is not None else ())
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('isint', args, 'bool'))):
        res.extend(ok(s, Op('int', args, 'int')) if b else ip.raise_(s, 'ValueError', 'invalid literal for int()'))
    return res


@model('builtins.float')
def m_float(ip, st, c):
    if not c.args:
        return ok(st, K(0.0))
    v = c.args[0]
    v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
    r = fold_const(ip, st, 'builtins.float', Call([v]))
    if r is not None:
        return r
    t = st.facts.typeof(v) if type(v) is not Ref else None
    if t == 'float':
        return ok(st, v)
    if t in ('int', 'bool'):
        return ok(st, Op('float', (v,), 'float'))
    if t == 'NoneType' or type(v) is Tup or type(v) is Ref and st.get(v).kind != 'opaque':
        return ip.raise_(st, 'TypeError', 'float() argument')
    if type(v) is Op and v.op in ('str', 'repr') and st.facts.typeof(v.args[0]) == 'float':
        # the text of a float reads as that float
        return ok(st, v.args[0])
    if type(v) is Op and v.op in ('str', 'repr') and st.facts.typeof(v.args[0]) == 'int':
        return ok(st, Op('float', v.args, 'float'))
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('isfloat', (v,), 'bool'))):
        res.extend(ok(s, Op('float', (v,), 'float')) if b else ip.raise_(s, 'ValueError', 'could not convert to float'))
    return res


@model('builtins.bool')
def m_bool(ip, st, c):
    if not c.args:
        return ok(st, FALSE)
    if type(c.args[0]) is Ref and st.get(c.args[0]).kind == 'inst':
        return [(s, sig, K(v) if sig == 'v' else v) for s, sig, v in ip.branch_val(st, c.args[0])]
    return ip.condval(st, ip.cond(st, c.args[0]))


@model('builtins.str')
def m_str(ip, st, c):
    if not c.args and 'object' not in c.kw:
        return ok(st, K(''))
    v = A(c, 0, 'object')
    enc, err = A(c, 1, 'encoding'), A(c, 2, 'errors')
    if enc is not None or err is not None:
        return m_decode(ip, st, Call([v, enc or K('utf-8'), err or K('strict')]))
    return to_str(ip, st, v)


def new_ba(ip, st, content):
    return ok(st, ip.alloc(st, Obj('bytearray', data=content)))


@model('builtins.bytearray')
def m_bytearray(ip, st, c):
    return ip.bind(m_bytes(ip, st, c), lambda s, v: new_ba(ip, s, v))


@model('builtins.bytes')
def m_bytes(ip, st, c):
    if not c.args:
        return ok(st, K(b''))
    v = deref(st, c.args[0])
    v = st.facts.simp(v) if type(v) in (Sym, Op, Lin) else v
    t = st.facts.typeof(v) if type(v) is not Ref else None
    if t == 'str':
        if len(c.args) < 2 and 'encoding' not in c.kw:
            return ip.raise_(st, 'TypeError', 'string argument without an encoding')
        return m_encode(ip, st, Call([v, A(c, 1, 'encoding'), A(c, 2, 'errors', K('strict'))]))
    if t in ('bytes', 'bytearray'):
        return ok(st, v)
    if t in ('int', 'bool'):
        res = []
        for s, b in ip.branch(st, ip.decide(st, Op('lt0', (v,), 'bool'))):
            res.extend(ip.raise_(s, 'ValueError', 'negative count') if b else ok(s, mkbs([Seg('fill', b'\0', v)])))
        return res
    if t in ('NoneType', 'float'):
        return ip.raise_(st, 'TypeError', 'cannot convert to bytes')
    its = known_items(ip, st, v)
    if its is not None:
        segs = []
        for x in its:
            x = st.facts.simp(x)
            if isint(x):
                if not 0 <= x.v < 256:
                    return ip.raise_(st, 'ValueError', 'bytes must be in range(0, 256)')
                segs.append(Seg('lit', bytes([x.v])))
                continue
            if st.facts.typeof(x) not in ('int', 'bool', None):
                return ip.raise_(st, 'TypeError', 'an integer is required')
            segs.append(x)
        outs = [(st, 'v', ())]
        for x in segs:
            if isinstance(x, Seg):
                outs = ip.bind(outs, lambda s, acc, x=x: ok(s, acc + (x,)))
            else:
                def one(s, acc, x=x):
                    return [o for s2, b in split_range(ip, s, x, 0, 255) for o in (
                        ok(s2, acc + (Seg('ube', x, 1),)) if b else
                        ip.raise_(s2, 'ValueError', 'bytes must be in range(0, 256)'))]
                outs = ip.bind(outs, one)
        return ip.bind(outs, lambda s, acc: ok(s, mkbs(acc)))
    if type(v) is Gen:
        return ip.bind(to_items(ip, st, v), lambda s, its: m_bytes(ip, s, Call([Tup(its)])) if not any(
            is_rep(x) for x in its) else ok(s, Op('bytes', (Tup(its),), 'bytes')))
    if type(v) is Ref and st.get(v).kind == 'inst':
        f, _ = ip.lookup(st, st.get(v).cls, '__bytes__')
        if f is not None:
            return ip.call(st, Bound(f, v), Call())
        return ip.raise_(st, 'TypeError', 'cannot convert to bytes')
    return ok(st, Op('tobytes', (v,), 'bytes'))


@model('builtins.memoryview')
def m_memoryview(ip, st, c):
    v = deref(st, c.args[0])
    return ok(st, v)


@model('builtins.isinstance')
def m_isinstance(ip, st, c):
    cls = flat_classes(ip, st, c.args[1])
    return ip.condval(st, ip.isinst(st, c.args[0], cls))


def flat_classes(ip, st, cls):
    if type(cls) is Tup:
        out = []
        for x in cls.items:
            x = flat_classes(ip, st, x)
            out.extend(x.items if type(x) is Tup else [x])
        return Tup(out)
    if type(cls) is Ext:
        return Ext(canon_ext(cls.name))
    if cls == K(type(None)):
        return Ext('builtins.NoneType')
    return cls


@model('builtins.issubclass')
def m_issubclass(ip, st, c):
    a, b = c.args[0], flat_classes(ip, st, c.args[1])
    if type(a) is Ext:
        a = Ext(canon_ext(a.name))
    if type(a) not in (Ref, Ext) or (type(a) is Ref and st.get(a).kind != 'class'):
        if type(a) in (K, Tup, Bs, Lin) or type(a) is Ref and st.get(a).kind in CONTAINERS + ('inst', 'stream', 'xml', 'module'):
            return ip.raise_(st, 'TypeError', 'issubclass() arg 1 must be a class')
        return ok(st, Op('issubclass', (a, b), 'bool'))
    clss = b.items if type(b) is Tup else [b]
    rs = [ip.subclass(st, a, x) if type(x) in (Ref, Ext) else None for x in clss]
    if any(r is True for r in rs):
        return ok(st, TRUE)
    if all(r is False for r in rs):
        return ok(st, FALSE)
    return ok(st, Op('issubclass', (a, b), 'bool'))


def attr_unknown(v, o, name):
    return type(v) is Op and v.op in ('attr',) and v.args[0] == o and v.args[1] == name


@model('builtins.hasattr')
def m_hasattr(ip, st, c):
    o, n = c.args
    if not isstr(n):
        return ok(st, Op('hasattr', (o, n), 'bool'))
    res = []
    for s, sig, v in ip.getattr_(st, o, n.v):
        if sig == 'v':
            if attr_unknown(v, o, n.v):
                t = Op('hasattr', (o, n), 'bool')
                res.extend(ok(s, K(s.facts.tr[t]) if t in s.facts.tr else t))
            else:
                res.extend(ok(s, TRUE))
        elif sig == 'raise' and is_attr_error(ip, s, v):
            res.extend(ok(s, FALSE))
        else:
            res.append((s, sig, v))
    return res


def is_attr_error(ip, s, e):
    return type(e) is Ref and ip.subclass(s, s.get(e).cls, Ext('builtins.AttributeError')) is True


@model('builtins.getattr')
def m_getattr(ip, st, c):
    o, n = c.args[:2]
    if not isstr(n):
        # unknown attribute name
        return ok(st, Op('getattr', (o, n) + tuple(c.args[2:]), None))
    if len(c.args) < 3:
        return ip.getattr_(st, o, n.v)
    res = []
    for s, sig, v in ip.getattr_(st, o, n.v):
        if sig == 'raise' and is_attr_error(ip, s, v):
            res.extend(ok(s, c.args[2]))
        elif sig == 'v' and attr_unknown(v, o, n.v):
            t = Op('hasattr', (o, n), 'bool')
            for s2, b in ip.branch(s, ip.decide(s, t)):
                res.extend(ok(s2, v if b else c.args[2]))
        else:
            res.append((s, sig, v))
    return res


@model('builtins.setattr')
def m_setattr(ip, st, c):
    o, n, v = c.args
    if isstr(n):
        return [(s, g, NONE if g == 'v' else x) for s, g, x in ip.setattr_(st, o, n.v, v)]
    st.ev('omut', o, 'setattr', ip.where(), n, v)
    st.doubt('attribute of unknown name set')
    return ok(st, NONE)


@model('builtins.delattr')
def m_delattr(ip, st, c):
    o, n = c.args
    if type(o) is Ref and isstr(n) and n.v in st.get(o).attrs:
        ip.mut(st, o, 'delattr', n.v).attrs.pop(n.v)
        return ok(st, NONE)
    return ip.raise_(st, 'AttributeError', n.v if isstr(n) else '?')


@model('builtins.type')
def m_type(ip, st, c):
    if len(c.args) == 1:
        t = ip.type_of(st, c.args[0])
        return ok(st, t if t is not None else Op('type', (c.args[0],), 'type'))
    name, bases, d = c.args[:3]
    attrs = {}
    if type(d) is Ref and st.get(d).kind == 'dict':
        for k, v in st.get(d).data:
            if isstr(k):
                attrs[k.v] = v
            else:
                st.doubt('class attribute of unknown name')
    bs = known_items(ip, st, bases) or []
    if isstr(name):
        nm = name.v
    else:
        nm = '?'
    ref = ip.make_class(st, nm, bs, attrs)
    st.get(ref).info['nameterm'] = name
    for v in attrs.values():
        for f in ip.fns_in(v) if hasattr(ip, 'fns_in') else ():
            if f.owner is None:
                f.owner = ref
    return ok(st, ref)


@model('builtins.type.mro')
def m_mro(ip, st, c):
    return ok(st, ip.alloc(st, Obj('list', data=tuple(ip.mro(st, c.args[0])))))


@model('builtins.type.__subclasses__')
def m_subclasses(ip, st, c):
    out = [Ref(k, o.info.get('name', 'class')) for k, o in st.heap.items()
           if o.kind == 'class' and c.args[0] in o.info['bases']]
    return ok(st, ip.alloc(st, Obj('list', data=tuple(out))))


@model('builtins.property')
def m_property(ip, st, c):
    parts = [A(c, i, n, NONE) for i, n in enumerate(('fget', 'fset', 'fdel'))]
    return ok(st, Desc('property', *parts))


@model('builtins.property.setter')
def m_prop_setter(ip, st, c):
    p = c.args[0]
    return ok(st, Desc('property', p.parts[0], c.args[1], p.parts[2]))


@model('builtins.property.getter')
def m_prop_getter(ip, st, c):
    p = c.args[0]
    return ok(st, Desc('property', c.args[1], p.parts[1], p.parts[2]))


@model('builtins.property.deleter')
def m_prop_deleter(ip, st, c):
    p = c.args[0]
    return ok(st, Desc('property', p.parts[0], p.parts[1], c.args[1]))


@model('builtins.staticmethod')
def m_staticmethod(ip, st, c):
    return ok(st, Desc('staticmethod', c.args[0]))


@model('builtins.classmethod')
def m_classmethod(ip, st, c):
    return ok(st, Desc('classmethod', c.args[0]))


@model('builtins.super')
def m_super(ip, st, c):
    if len(c.args) == 2:
        return ok(st, Desc('super', c.args[0], c.args[1]))
    return ip.raise_(st, 'RuntimeError', 'super(): no arguments')


@model('builtins.sum')
def m_sum(ip, st, c):
    start = A(c, 1, 'start', ZERO)
    acc = ip.alloc(st, Obj('list', data=(start,)), 'acc')

    def h(s, v):
        cur = s.get(acc).data[0]
        if is_rep(cur):
            cur = Op('repsum', (cur,), 'int')

        def put(s2, r):
            ip.mut(s2, acc).data = (r,)
            return ok(s2)
        return ip.bind(binop(ip, s, 'Add', cur, v), put)

    def done(s, _):
        r = s.get(acc).data[0]
        if is_rep(r):
            s.doubt('sum over an unknown number of items')
            return ok(s, Op('repsum', (r,), 'int'))
        return ok(s, r)
    return ip.bind(iterate(ip, st, c.args[0], h), done)


def minmax(ip, st, c, want):
    key = c.kw.get('key')

    def go(s, its):
        if any(is_rep(x) for x in its):
            return ok(s, Op('minmax', (K(want), Tup(its)), 'int' if all(
                s.facts.typeof(x) == 'int' for x in its if not is_rep(x)) and any(not is_rep(x) for x in its) else None))
        if not its:
            if 'default' in c.kw:
                return ok(s, c.kw['default'])
            return ip.raise_(s, 'ValueError', 'arg is an empty sequence')
        outs = [(s, 'v', its[0])]
        for x in its[1:]:
            def step(s1, best, x=x):
                def keyed(s2, v):
                    return ok(s2, v) if key in (None, NONE) else ip.call(s2, key, Call([v]))

                def cmp(s2, kb, kx):
                    r = []
                    outs2 = ip.compare_op(s2, 'Lt' if want == 'min' else 'Gt', kx, kb)
                    for s3, sig, v in outs2:
                        if sig != 'v':
                            r.append((s3, sig, v))
                            continue
                        for s4, b in ip.branch(s3, ip.cond(s3, v)):
                            r.append((s4, 'v', x if b else best))
                    return r
                return ip.bind(keyed(s1, best), lambda s2, kb: ip.bind(keyed(s2, x), lambda s3, kx: cmp(s3, kb, kx)))
            outs = ip.bind(outs, step)
        return outs
    if len(c.args) == 1:
        return ip.bind(to_items(ip, st, c.args[0]), go)
    return go(st, list(c.args))


@model('builtins.min')
def m_min(ip, st, c):
    return minmax(ip, st, c, 'min')


@model('builtins.max')
def m_max(ip, st, c):
    return minmax(ip, st, c, 'max')


def anyall(ip, st, c, stop):
    def h(s, v):
        res = []
        for s1, sig, b in ip.branch_val(s, v):
            if sig != 'v':
                res.append((s1, sig, b))
            elif b == stop:
                res.append((s1, 'anystop', K(stop)))
            else:
                res.append((s1, 'v', NONE))
        return res
    return [(s, 'v', K(stop) if sig == 'anystop' else K(not stop)) if sig in ('anystop', 'v') else (s, sig, v)
            for s, sig, v in iterate(ip, st, c.args[0], h)]


@model('builtins.any')
def m_any(ip, st, c):
    return anyall(ip, st, c, True)


@model('builtins.all')
def m_all(ip, st, c):
    return anyall(ip, st, c, False)


def new_list(ip, st, items):
    return ok(st, ip.alloc(st, Obj('list', data=tuple(items))))


@model('builtins.list')
def m_list(ip, st, c):
    if not c.args:
        return new_list(ip, st, ())
    v = c.args[0]
    if type(v) is Ref and st.get(v).info.get('opaque') and st.get(v).kind == 'list':
        o = st.get(v)
        return ok(st, ip.alloc(st, Obj('list', data=o.data, info=dict(o.info))))
    return ip.bind(to_items(ip, st, v), lambda s, its: new_list(ip, s, its))


@model('builtins.tuple')
def m_tuple(ip, st, c):
    if not c.args:
        return ok(st, Tup())
    if type(c.args[0]) in (Sym, Op) and st.facts.typeof(c.args[0]) == 'tuple':
        return ok(st, c.args[0])

    def go(s, its):
        if any(is_rep(x) for x in its):
            return ok(s, Op('tuple', (Tup(its),), 'tuple'))
        return ok(s, Tup(its))
    return ip.bind(to_items(ip, st, c.args[0]), go)


@model('builtins.dict')
def m_dict(ip, st, c):
    ref = ip.alloc(st, Obj('dict', data=()))
    outs = [(st, 'v', None)]
    if c.args:
        outs = dict_update(ip, st, ref, c.args[0])
        for s, _, _ in outs:
            s.get(ref).origin = 'fresh'
    for k, v in c.kw.items():
        outs = ip.bind(outs, lambda s, _, k=k, v=v: dict_set(ip, s, ref, K(k), v, quiet=True))
    if c.dstar is not None:
        outs = ip.bind(outs, lambda s, _: dict_update(ip, s, ref, c.dstar))
    return ip.bind(outs, lambda s, _: ok(s, ref))


@model('builtins.set')
def m_set(ip, st, c):
    if not c.args:
        return ok(st, ip.alloc(st, Obj('set', data=())))

    def go(s, its):
        return make_set(ip, s, its)
    return ip.bind(to_items(ip, st, c.args[0]), go)


@model('builtins.frozenset')
def m_frozenset(ip, st, c):
    if not c.args:
        return ok(st, ip.alloc(st, Obj('frozenset', data=())))
    return ip.bind(to_items(ip, st, c.args[0]), lambda s, its: make_set(ip, s, its, 'frozenset'))


@model('builtins.sorted')
def m_sorted(ip, st, c):
    key, rev = c.kw.get('key', NONE), c.kw.get('reverse', FALSE)

    def go(s, its):
        if not any(is_rep(x) for x in its):
            if len(its) < 2:
                return new_list(ip, s, its)
            if key == NONE and all(type(x) is K for x in its) and type(rev) is K:
                try:
                    return new_list(ip, s, [K(x) for x in sorted([x.v for x in its], reverse=bool(rev.v))])
                except TypeError as e:
                    return ip.raise_(s, 'TypeError', str(e))
            if key != NONE and type(rev) is K:
                def keyed(s2, ks):
                    its2 = ks
                    ks = [k for k, x in its2]
                    if all(type(k) is K for k in ks):
                        try:
                            order = sorted(range(len(ks)), key=lambda i: ks[i].v, reverse=bool(rev.v))
                        except TypeError as e:
                            return ip.raise_(s2, 'TypeError', str(e))
                        return new_list(ip, s2, [its2[i][1] for i in order])
                    return ok(s2, ip.alloc(s2, Obj('list', data=(Desc('rep', K('sorted'), Tup(its), key, rev),))))
                cur = [(s, 'v', ())]
                for x in its:
                    cur = ip.bind(cur, lambda s2, acc, x=x: ip.bind(ip.call(s2, key, Call([x])), lambda s3, k: [(s3, 'v', acc + ((k, x),))]))
                return ip.bind(cur, keyed)
        return ok(s, ip.alloc(s, Obj('list', data=(Desc('rep', K('sorted'), Tup(its), key, rev),))))
    return ip.bind(to_items(ip, st, c.args[0]), go)


@model('builtins.next')
def m_next(ip, st, c):
    outs = next_of(ip, st, c.args[0])
    if len(c.args) > 1:
        return [(s, 'v', c.args[1]) if sig == 'raise' and s.get(v).cls == Ext('builtins.StopIteration')
                else (s, sig, v) for s, sig, v in outs]
    return outs


@model('builtins.iter')
def m_iter(ip, st, c):
    if len(c.args) == 2:
        return ok(st, Gen('callit', c.args[0], c.args[1]))
    v = c.args[0]
    if type(v) is Gen:
        return ok(st, v)
    if type(v) is Ref and st.get(v).kind == 'inst':
        f, _ = ip.lookup(st, st.get(v).cls, '__iter__')
        if f is not None:
            return ip.call(st, Bound(f, v), Call())
        if ip.lookup(st, st.get(v).cls, '__getitem__')[0] is None:
            return ip.raise_(st, 'TypeError', 'object is not iterable')
    if type(v) is Ref and st.get(v).kind == 'ext':
        return ok(st, v)
    if type(v) in (K,) and not isinstance(v.v, (str, bytes, tuple)):
        return ip.raise_(st, 'TypeError', 'object is not iterable')
    return ok(st, ip.alloc(st, Obj('ext', Ext('builtins.iterator'), info={'iter': True, 'src': v, 'pos': ZERO,
                                                                           'type': 'listiter'}), 'iterator'))


@model('builtins.range')
def m_range(ip, st, c):
    a = [st.facts.simp(x) for x in c.args]
    for x in a:
        t = st.facts.typeof(x)
        if t not in ('int', 'bool', None):
            return ip.raise_(st, 'TypeError', 'range() integer expected')
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = a + [ONE]
    if a[2] == ZERO:
        return ip.raise_(st, 'ValueError', 'range() arg 3 must not be zero')
    return ok(st, Desc('range', *a))


@model('builtins.enumerate')
def m_enumerate(ip, st, c):
    return ok(st, Gen('enumerate', c.args[0], A(c, 1, 'start', ZERO)))


@model('builtins.zip')
def m_zip(ip, st, c):
    return ok(st, Gen('zip', *c.args))


@model('builtins.map')
def m_map(ip, st, c):
    return ok(st, Gen('map', *c.args))


@model('builtins.filter')
def m_filter(ip, st, c):
    return ok(st, Gen('filter', *c.args))


@model('builtins.reversed')
def m_reversed(ip, st, c):
    return ok(st, Gen('reversed', c.args[0]))


@model('itertools.chain')
def m_chain(ip, st, c):
    return ok(st, Gen('chain', *c.args))


@model('itertools.chain.from_iterable')
def m_chain_fi(ip, st, c):
    return ip.bind(to_items(ip, st, c.args[0]), lambda s, its: ok(s, Gen('chain', *its)))


@model('itertools.islice')
def m_islice(ip, st, c):
    if len(c.args) == 2:
        return ok(st, Gen('islice', c.args[0], ZERO, c.args[1]))
    return ok(st, Gen('islice', c.args[0], c.args[1] if c.args[1] != NONE else ZERO, c.args[2]))


@model('itertools.count')
def m_count(ip, st, c):
    return ok(st, Gen('count', A(c, 0, 'start', ZERO)))


@model('builtins.abs')
def m_abs(ip, st, c):
    v = st.facts.simp(c.args[0])
    if type(v) is K:
        return fold_const(ip, st, 'builtins.abs', Call([v]))
    if st.facts.typeof(v) in ('int', 'bool'):
        return [(s, 'v', scale(v, -1) if b else v) for s, b in ip.branch(st, ip.decide(st, Op('lt0', (v,), 'bool')))]
    return ok(st, Op('abs', (v,), st.facts.typeof(v)))


@model('builtins.divmod')
def m_divmod(ip, st, c):
    return ip.bind(binop(ip, st, 'FloorDiv', *c.args), lambda s, q: ip.bind(
        binop(ip, s, 'Mod', *c.args), lambda s2, r: ok(s2, Tup([q, r]))))


@model('builtins.pow')
def m_pow(ip, st, c):
    if len(c.args) == 2:
        return binop(ip, st, 'Pow', *c.args)
    return call_unknown(ip, st, 'builtins.pow', c)


@model('builtins.round')
def m_round(ip, st, c):
    r = fold_const(ip, st, 'builtins.round', c)
    if r is not None:
        return r
    v = c.args[0]
    if st.facts.typeof(v) in ('int', 'bool'):
        return ok(st, v)
    return ok(st, Op('round', tuple(c.args), 'int' if len(c.args) == 1 else 'float'))


@model('builtins.repr')
def m_repr(ip, st, c):
    return to_str(ip, st, c.args[0], 'r')


@model('builtins.ascii')
def m_ascii(ip, st, c):
    return ok(st, Op('ascii', tuple(c.args), 'str'))


@model('builtins.format')
def m_format(ip, st, c):
    spec = A(c, 1, 'format_spec', K(''))
    return format_value(ip, st, c.args[0], spec.v if isstr(spec) else None, '')


def radix(ty):
    def m(ip, st, c):
        v = st.facts.simp(c.args[0])
        if type(v) is K:
            return fold_const(ip, st, 'builtins.' + {'x': 'hex', 'o': 'oct', 'b': 'bin'}[ty], Call([v]))
        if st.facts.typeof(v) not in ('int', 'bool', None):
            return ip.raise_(st, 'TypeError', 'an integer is required')
        return ok(st, Op('fmt', (K('#' + ty), v), 'str'))
    return m


MODELS['builtins.hex'] = radix('x')
MODELS['builtins.oct'] = radix('o')
MODELS['builtins.bin'] = radix('b')


@model('builtins.print')
def m_print(ip, st, c):
    st.ev('print', tuple(c.args), c.kw.get('file', NONE), ip.where())
    return ok(st, NONE)


@model('builtins.input')
def m_input(ip, st, c):
    st.ev('input', ip.where())
    return ok(st, Op('input', (K(len(st.event_list())),), 'str'))


@model('builtins.callable')
def m_callable(ip, st, c):
    v = c.args[0]
    if type(v) in (Fn, Bound, Ext):
        return ok(st, TRUE)
    if type(v) in (K, Tup, Lin, Bs, Gen):
        return ok(st, FALSE)
    if type(v) is Ref:
        o = st.get(v)
        if o.kind == 'class':
            return ok(st, TRUE)
        if o.kind == 'inst':
            return ok(st, K(ip.lookup(st, o.cls, '__call__')[0] is not None))
        if o.kind in CONTAINERS + ('stream', 'xml', 'module'):
            return ok(st, FALSE)
    return ok(st, Op('callable', (v,), 'bool'))


@model('builtins.id')
def m_id(ip, st, c):
    return ok(st, Op('id', (c.args[0],), 'int'))


@model('builtins.hash')
def m_hash(ip, st, c):
    v = c.args[0]
    if not hashable(ip, st, v):
        return ip.raise_(st, 'TypeError', 'unhashable type')
    if type(v) is Ref and st.get(v).kind == 'inst':
        f, _ = ip.lookup(st, st.get(v).cls, '__hash__')
        if type(f) is Fn:
            return ip.call(st, Bound(f, v), Call())
    return ok(st, Op('hash', (v,), 'int'))


@model('builtins.vars')
def m_vars(ip, st, c):
    o = c.args[0] if c.args else None
    if type(o) is Ref and st.get(o).kind in ('inst', 'class', 'module'):
        d = ip.alloc(st, Obj('dict', data=tuple((K(k), v) for k, v in st.get(o).attrs.items())))
        return ok(st, d)
    return ok(st, Op('vars', tuple(c.args), None))


@model('builtins.slice')
def m_slice(ip, st, c):
    a = list(c.args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return ok(st, Desc('slice', *a))


@model('sys.exit', 'builtins.exit', 'builtins.quit', 'os._exit')
def m_exit(ip, st, c):
    return ip.raise_(st, 'SystemExit', *c.args)


# ---------------------------------------------------------------------------
# list / dict / set / bytearray methods
# ---------------------------------------------------------------------------

def meth(names, kinds=None):
    def deco(f):
        for n in names.split():
            MODELS['builtins.' + n] = f
        return f
    return deco


def none(outs):
    return [(s, sig, NONE if sig == 'v' else v) for s, sig, v in outs]


@meth('list.append')
def l_append(ip, st, c):
    return none(list_append(ip, st, c.args[0], c.args[1]))


@meth('list.extend')
def l_extend(ip, st, c):
    return none(list_extend(ip, st, c.args[0], c.args[1]))


@meth('list.insert')
def l_insert(ip, st, c):
    ref, i, v = c.args
    o = st.get(ref)
    if isint(i) and not any(is_rep(x) for x in o.data):
        d = list(o.data)
        d.insert(i.v, v)
        ip.mut(st, ref, 'insert', i, v).data = tuple(d)
    else:
        ip.mut(st, ref, 'insert', i, v).data = o.data + (Desc('rep', K('ins'), i, v),)
    return ok(st, NONE)


@meth('list.pop')
def l_pop(ip, st, c):
    ref = c.args[0]
    o = st.get(ref)
    i = A(c, 1, None, K(-1))
    if plain_list(o):
        if not o.data:
            return ip.raise_(st, 'IndexError', 'pop from empty list')
        if isint(i):
            try:
                d = list(o.data)
                v = d.pop(i.v)
            except IndexError:
                return ip.raise_(st, 'IndexError', 'pop index out of range')
            ip.mut(st, ref, 'pop', i).data = tuple(d)
            return ok(st, v)
    if isint(i) and i.v == -1 and o.data and not is_rep(o.data[-1]):
        v = o.data[-1]
        ip.mut(st, ref, 'pop', i).data = o.data[:-1]
        return ok(st, v)
    if isint(i) and i.v >= 0 and len(o.data) > i.v and not any(is_rep(x) for x in o.data[:i.v + 1]):
        d = list(o.data)
        v = d.pop(i.v)
        ip.mut(st, ref, 'pop', i).data = tuple(d)
        return ok(st, v)
    st.doubt('pop from a list of unknown contents')
    base = Tup(o.data)
    m = ip.mut(st, ref, 'pop', i)
    m.data = (Desc('rep', K('pop'), base),)
    return ok(st, Op('popped', (base, i), None))


@meth('list.remove')
def l_remove(ip, st, c):
    ref, v = c.args
    o = st.get(ref)
    res = []
    cur = [st]
    for j, x in enumerate(o.data):
        nxt = []
        if is_rep(x):
            for s in cur:
                s.doubt('remove from a list of unknown contents')
            break
        for s in cur:
            for s1, sig, r in ip.compare_op(s, 'Eq', x, v):
                if sig != 'v':
                    res.append((s1, sig, r))
                    continue
                for s2, b in ip.branch(s1, ip.cond(s1, r)):
                    if b:
                        d = list(s2.get(ref).data)
                        del d[j]
                        ip.mut(s2, ref, 'remove', v).data = tuple(d)
                        res.extend(ok(s2, NONE))
                    else:
                        nxt.append(s2)
        cur = nxt
    for s in cur:
        res.extend(ip.raise_(s, 'ValueError', 'list.remove(x): x not in list'))
    return res


@meth('list.clear dict.clear set.clear')
def l_clear(ip, st, c):
    m = ip.mut(st, c.args[0], 'clear')
    m.data = ()
    m.info.pop('opaque', None)
    return ok(st, NONE)


@meth('bytearray.clear')
def ba_clear(ip, st, c):
    ip.mut(st, c.args[0], 'clear').data = K(b'')
    return ok(st, NONE)


@meth('list.copy dict.copy set.copy frozenset.copy bytearray.copy')
def l_copy(ip, st, c):
    o = st.get(c.args[0])
    return ok(st, ip.alloc(st, Obj(o.kind, data=o.data, info=dict(o.info))))


@model('copy.copy', 'copy.deepcopy')
def m_copy(ip, st, c):
    v = c.args[0]
    if type(v) is Ref and st.get(v).kind in CONTAINERS:
        return l_copy(ip, st, c)
    if type(v) is Ref and st.get(v).kind in ('inst', 'xml'):
        o = st.get(v)
        n = Obj(o.kind, o.cls, dict(o.attrs), o.data, dict(o.info))
        return ok(st, ip.alloc(st, n, v.tag))
    return ok(st, v)


@meth('list.reverse')
def l_reverse(ip, st, c):
    o = st.get(c.args[0])
    ip.mut(st, c.args[0], 'reverse').data = o.data[::-1]
    return ok(st, NONE)


@meth('list.sort')
def l_sort(ip, st, c):
    def put(s, r):
        ip.mut(s, c.args[0], 'sort').data = s.get(r).data
        return ok(s, NONE)
    return ip.bind(m_sorted(ip, st, c), put)


@meth('list.index tuple.index')
def l_index(ip, st, c):
    its = known_items(ip, st, c.args[0])
    if its is None:
        return ok(st, Op('index', (Tup(st.get(c.args[0]).data) if type(c.args[0]) is Ref else c.args[0], c.args[1]), 'int'))
    res = []
    cur = [st]
    for i, x in enumerate(its):
        nxt = []
        for s in cur:
            for s1, sig, r in ip.compare_op(s, 'Eq', x, c.args[1]):
                if sig != 'v':
                    res.append((s1, sig, r))
                    continue
                for s2, b in ip.branch(s1, ip.cond(s1, r)):
                    if b:
                        res.extend(ok(s2, K(i)))
                    else:
                        nxt.append(s2)
        cur = nxt
    for s in cur:
        res.extend(ip.raise_(s, 'ValueError', 'not in list'))
    return res


@meth('list.count tuple.count')
def l_count(ip, st, c):
    its = known_items(ip, st, c.args[0])
    if its is not None and all(type(x) is K for x in its) and type(c.args[1]) is K:
        return ok(st, K(sum(1 for x in its if x.v == c.args[1].v)))
    return ok(st, Op('count', (Tup(its or ()), c.args[1]), 'int'))


@meth('dict.get')
def d_get(ip, st, c):
    ref, k = c.args[:2]
    d = A(c, 2, 'default', NONE)
    return key_search(ip, st, ref, k, lambda s, i: ok(s, dict_value(ip, s, ref, i, k)), lambda s: ok(s, d))


@meth('dict.setdefault')
def d_setdefault(ip, st, c):
    ref, k = c.args[:2]
    d = A(c, 2, 'default', NONE)

    def missing(s):
        return [(s1, sig, d if sig == 'v' else v) for s1, sig, v in dict_set(ip, s, ref, k, d)]
    return key_search(ip, st, ref, k, lambda s, i: ok(s, dict_value(ip, s, ref, i, k)), missing)


@meth('dict.pop')
def d_pop(ip, st, c):
    ref, k = c.args[:2]

    def found(s, i):
        v = dict_value(ip, s, ref, i, k)
        o = s.get(ref)
        d = list(o.data)
        if i >= 0:
            del d[i]
        m = ip.mut(s, ref, 'pop', k)
        m.data = tuple(d)
        if i < 0:
            base = m.info.get('opaque')
            if base is not None:
                m.info['opaque'] = Op('without', (base, k), None)
        return ok(s, v)

    def missing(s):
        if len(c.args) > 2:
            return ok(s, c.args[2])
        return ip.raise_(s, 'KeyError', k)
    return key_search(ip, st, ref, k, found, missing)


@meth('dict.popitem')
def d_popitem(ip, st, c):
    ref = c.args[0]
    o = st.get(ref)
    if plain_dict(o):
        if not o.data:
            return ip.raise_(st, 'KeyError', 'popitem(): dictionary is empty')
        ip.mut(st, ref, 'popitem').data = o.data[:-1]
        return ok(st, Tup(o.data[-1]))
    st.doubt('popitem')
    ip.mut(st, ref, 'popitem')
    return ok(st, Op('popitem', (ref,), 'tuple'))


@meth('dict.update')
def d_update(ip, st, c):
    outs = [(st, 'v', None)]
    for x in c.args[1:]:
        outs = ip.bind(outs, lambda s, _, x=x: dict_update(ip, s, c.args[0], x))
    for k, v in c.kw.items():
        outs = ip.bind(outs, lambda s, _, k=k, v=v: dict_set(ip, s, c.args[0], K(k), v))
    if c.dstar is not None:
        outs = ip.bind(outs, lambda s, _: dict_update(ip, s, c.args[0], c.dstar))
    return none(outs)


@meth('dict.keys')
def d_keys(ip, st, c):
    return ok(st, Desc('dictkeys', c.args[0]))


@meth('dict.values')
def d_values(ip, st, c):
    return ok(st, Desc('dictvalues', c.args[0]))


@meth('dict.items')
def d_items(ip, st, c):
    return ok(st, Desc('dictitems', c.args[0]))


@meth('dict.fromkeys')
def d_fromkeys(ip, st, c):
    a = [x for x in c.args if x != Ext('builtins.dict')]
    val = a[1] if len(a) > 1 else NONE
    ref = ip.alloc(st, Obj('dict', data=()))

    def go(s, its):
        outs = [(s, 'v', None)]
        for k in its:
            outs = ip.bind(outs, lambda s1, _, k=k: dict_set(ip, s1, ref, k, val, quiet=True))
        return ip.bind(outs, lambda s1, _: ok(s1, ref))
    return ip.bind(to_items(ip, st, a[0]), go)


@meth('set.add')
def s_add(ip, st, c):
    return none(dict_set(ip, st, c.args[0], c.args[1], NONE))


def s_remove(strict):
    def m(ip, st, c):
        ref, k = c.args

        def found(s, i):
            d = list(s.get(ref).data)
            if i >= 0:
                del d[i]
            ip.mut(s, ref, 'discard', k).data = tuple(d)
            return ok(s, NONE)
        return key_search(ip, st, ref, k, found, lambda s: ok(s, NONE) if not strict else ip.raise_(s, 'KeyError', k))
    return m


MODELS['builtins.set.remove'] = s_remove(True)
MODELS['builtins.set.discard'] = s_remove(False)


def set_method(op):
    def m(ip, st, c):
        outs = ok(st, c.args[0])
        if len(c.args) == 1:
            return l_copy(ip, st, c)
        for x in c.args[1:]:
            outs = ip.bind(outs, lambda s, a, x=x: ip.bind(
                ok(s, x) if type(x) is Ref and s.get(x).kind in ('set', 'frozenset') else m_set(ip, s, Call([x])),
                lambda s2, b: binop(ip, s2, op, a, b)))
        return outs
    return m


for _n, _o in (('union', 'BitOr'), ('intersection', 'BitAnd'), ('difference', 'Sub'), ('symmetric_difference', 'BitXor')):
    MODELS['builtins.set.' + _n] = MODELS['builtins.frozenset.' + _n] = set_method(_o)


@meth('set.update')
def s_update(ip, st, c):
    def go(s, its):
        outs = [(s, 'v', None)]
        for k in its:
            if is_rep(k):
                def put(s1, _, k=k):
                    o = ip.mut(s1, c.args[0], 'update')
                    o.data = o.data + ((k, NONE),)
                    return ok(s1)
                outs = ip.bind(outs, put)
            else:
                outs = ip.bind(outs, lambda s1, _, k=k: dict_set(ip, s1, c.args[0], k, NONE))
        return outs
    outs = [(st, 'v', None)]
    for x in c.args[1:]:
        outs = ip.bind(outs, lambda s, _, x=x: ip.bind(to_items(ip, s, x), go))
    return none(outs)


@meth('set.issubset frozenset.issubset')
def s_issubset(ip, st, c):
    return ip.compare_op(st, 'LtE', c.args[0], c.args[1])


@meth('set.issuperset frozenset.issuperset')
def s_issuperset(ip, st, c):
    return ip.compare_op(st, 'GtE', c.args[0], c.args[1])


@meth('set.pop')
def s_pop(ip, st, c):
    o = st.get(c.args[0])
    if plain_dict(o) and not o.data:
        return ip.raise_(st, 'KeyError', 'pop from an empty set')
    if plain_dict(o) and len(o.data) == 1:
        ip.mut(st, c.args[0], 'pop').data = ()
        return ok(st, o.data[0][0])
    st.doubt('set.pop')
    ip.mut(st, c.args[0], 'pop')
    return ok(st, Op('popped', (c.args[0],), None))


@meth('bytearray.append')
def ba_append(ip, st, c):
    ref, x = c.args
    o = st.get(ref)
    res = []
    x = st.facts.simp(x)
    if st.facts.typeof(x) not in ('int', 'bool', None):
        return ip.raise_(st, 'TypeError', 'an integer is required')
    for s, b in split_range(ip, st, x, 0, 255):
        if b:
            m = ip.mut(s, ref, 'append', x)
            m.data = mkbs(segs_of(m.data) + (Seg('ube', x, 1),))
            res.extend(ok(s, NONE))
        else:
            res.extend(ip.raise_(s, 'ValueError', 'byte must be in range(0, 256)'))
    return res


@meth('bytearray.extend')
def m_ba_extend(ip, st, c):
    return none(ba_extend(ip, st, c.args[0], c.args[1]))


@meth('bytearray.insert')
def ba_insert(ip, st, c):
    ref, i, x = c.args
    o = st.get(ref)
    if i == ZERO:
        m = ip.mut(st, ref, 'insert', i, x)
        m.data = mkbs((Seg('ube', x, 1),) + segs_of(m.data))
        return ok(st, NONE)
    st.doubt('bytearray.insert')
    ip.mut(st, ref, 'insert', i, x).data = Op('inserted', (o.data, i, x), 'bytes')
    return ok(st, NONE)


@model('desc.range.index', 'desc.range.count', 'desc.dictkeys.isdisjoint')
def desc_m(ip, st, c):
    return ok(st, Op('call:desc', tuple(c.args), None))


# ---------------------------------------------------------------------------
# str / bytes methods
# ---------------------------------------------------------------------------

def smeth(names):
    """ Methods shared by str, bytes and bytearray: constants are folded. """
    def deco(f):
        for n in names.split():
            for t in ('str', 'bytes', 'bytearray'):
                if hasattr(getattr(builtins, t), n):
                    MODELS['builtins.%s.%s' % (t, n)] = sfold(t, n, f)
        return f
    return deco


def sfold(t, n, f):
    def m(ip, st, c):
        isba = type(c.args[0]) is Ref
        c = Call([deref(st, a) for a in c.args], {k: deref(st, v) for k, v in c.kw.items()}, c.star, c.dstar)
        c.args = [st.facts.simp(a) if type(a) in (Sym, Op, Lin) else a for a in c.args]
        tt = 'bytes' if t == 'bytearray' else t
        r = fold_const(ip, st, 'builtins.%s.%s' % (tt, n), c)
        if r is None:
            # argument type errors
            self_t = st.facts.typeof(c.args[0]) if type(c.args[0]) is not Ref else None
            if self_t is not None and self_t not in ('str', 'bytes', 'bytearray') or type(c.args[0]) is Ref:
                return ip.raise_(st, 'TypeError', 'descriptor requires a %s' % tt)
            r = f(ip, st, tt, n, c)
        if r is None:
            r = ok(st, Op('call:%s.%s' % (tt, n), argterms(c), SRES.get(n, tt)))
        if isba and n in ('ljust', 'rjust', 'center', 'strip', 'lstrip', 'rstrip', 'replace', 'upper', 'lower',
                          'translate', 'title', 'zfill'):
            r = ip.bind(r, lambda s, v: new_ba(ip, s, v))
        return r
    return m


SRES = {'find': 'int', 'rfind': 'int', 'index': 'int', 'rindex': 'int', 'count': 'int', 'startswith': 'bool', 'endswith': 'bool',
        'isalpha': 'bool', 'isdigit': 'bool', 'isalnum': 'bool', 'isspace': 'bool', 'isupper': 'bool',
        'islower': 'bool', 'isdecimal': 'bool', 'isnumeric': 'bool', 'isidentifier': 'bool', 'isascii': 'bool',
        'isprintable': 'bool', 'istitle': 'bool', 'hex': 'str', 'encode': 'bytes', 'decode': 'str'}


@smeth('isalpha isdigit isalnum isspace isupper islower isdecimal isnumeric isidentifier isascii isprintable istitle '
       'startswith endswith')
def s_pred(ip, st, t, n, c):
    v = c.args[0]
    if n in ('startswith', 'endswith') and type(c.args[1]) is K and type(v) is Bs:
        segs = segs_of(v)
        s = segs[0] if n == 'startswith' else segs[-1]
        if s.kind == 'lit' and isinstance(c.args[1].v, (str, bytes)):
            k = c.args[1].v
            if len(s.a[0]) >= len(k):
                return ok(st, K(s.a[0].startswith(k) if n == 'startswith' else s.a[0].endswith(k)))
    return ok(st, Op(n, argterms(c), 'bool'))


@smeth('find rfind index rindex count hex splitlines expandtabs swapcase casefold capitalize center zfill '
       'removeprefix removesuffix rpartition rsplit maketrans format_map')
def s_other(ip, st, t, n, c):
    if n in ('find', 'index') and len(c.args) == 2 and one_char(c.args[1]):
        r = find_sep(ip, st.clone(), segs_of(c.args[0], t == 'str'), c.args[1].v)
        if r is not None:
            res = []
            for s, a, b in r:
                if b is not None:
                    res.extend(ok(s, bytes_len(mkbs(a, t == 'str'))))
                elif n == 'find':
                    res.extend(ok(s, K(-1)))
                else:
                    res.extend(ip.raise_(s, 'ValueError', 'substring not found'))
            return res
    if n in ('splitlines', 'rsplit'):
        ref = ip.alloc(st, Obj('list', data=(), info={'opaque': Op(n, argterms(c)), 'itemof': lambda ip_, s, i: Op(
            'item', (Op(n, argterms(c)), i), t)}))
        return ok(st, ref)
    if n == 'hex':
        r = to_hex(st, c.args[0]) if len(c.args) == 1 else None
        return ok(st, r if r is not None else Op('hex', argterms(c), 'str'))
    if n == 'center' or n == 'zfill':
        return ok(st, Op(n, argterms(c), t))
    return None


@smeth('upper lower title')
def s_case(ip, st, t, n, c):
    return ok(st, Op(n, (c.args[0],), t))


@smeth('replace')
def s_replace(ip, st, t, n, c):
    v, old, new = c.args[:3]
    if len(c.args) == 3 and one_char(old) and st.facts.typeof(new) == st.facts.typeof(old) and new != old:
        text = t == 'str'
        out = []
        for g in segs_of(v, text):
            if g.kind == 'lit':
                for i, part in enumerate(g.a[0].split(old.v)):
                    if i:
                        out.extend(segs_of(new, text))
                    out.append(Seg('lit', part))
            elif lacks(st, g, old.v):
                out.append(g)
            elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op == 'b64lines' and old.v in ('\n', b'\n'):
                if new.v in ('', b'') if type(new) is K else False:
                    out.append(b64seg(g.a[0].args[0]))
                else:
                    x = Op('replace', (g.a[0], old, new), t)
                    out.append(Seg('t', x, mklen(x)))
            else:
                out = None
                break
        if out is not None:
            return ok(st, mkbs(out, text))
    return ok(st, Op('replace', argterms(c), t))


@smeth('rjust ljust')
def s_just(ip, st, t, n, c):
    v, w = c.args[:2]
    text = t == 'str'
    fill = A(c, 2, None, K(' ' if text else b' '))
    if st.facts.typeof(w) not in ('int', 'bool', None):
        return ip.raise_(st, 'TypeError', 'an integer is required')
    if type(fill) is not K:
        return None
    res = []
    ln = bytes_len(v)

    def emit(s, pad):
        p = Seg('fill', fill.v, pad)
        segs = segs_of(v, text)
        return ok(s, mkbs((p,) + tuple(segs) if n == 'rjust' else tuple(segs) + (p,), text))
    d = sub(w, ln)
    if n == 'rjust':
        ps = partition_int(ip, st, d, 16)
        if ps is not None:
            for s, k in ps:
                s_ = s.facts.simp
                res.extend(emit(s, K(max(0, k))))
            return res
    for s, b in ip.branch(st, ip.decide(st, Op('lt0', (add(d, K(-1)),), 'bool'))):
        res.extend(ok(s, v) if b else emit(s, d))
    return res


def strip_lead(ip, st, segs, chars):
    """ Strip leading bytes; outcomes (state, segs) or None if undecidable. """
    out = []
    work = [(st, list(segs))]
    while work:
        s, ss = work.pop(0)
        if not ss:
            out.append((s, []))
            continue
        p = ss[0]
        if p.kind == 'lit':
            r = p.a[0].lstrip(chars)
            if r:
                out.append((s, [Seg('lit', r)] + ss[1:]))
            else:
                work.append((s, ss[1:]))
            continue
        if p.kind == 'fill':
            if p.a[0] in chars:
                work.append((s, ss[1:]))
            else:
                lo, hi = s.facts.interval(p.a[1])
                if lo <= 0:
                    return None
                out.append((s, ss))
            continue
        if p.kind == 'ube' and isinstance(chars, bytes) and chars in (b'\0', b'\xff'):
            x, w = p.a
            cur = [s]
            for k in range(0, w + 1):
                nxt = []
                for s1 in cur:
                    if chars == b'\0':
                        cond = Op('lt0', (sub(x, K(256 ** k)),), 'bool')   # fits in k bytes
                    else:
                        # top (w-k) bytes are ff: x >= 256**w - 256**k
                        cond = Op('lt0', (sub(K(256 ** w - 256 ** k - 1), x),), 'bool')
                    for s2, b in ip.branch(s1, ip.decide(s1, cond)):
                        if not b:
                            nxt.append(s2)
                        elif k == 0:
                            work.append((s2, ss[1:]))
                        else:
                            y = x if chars == b'\0' else sub(x, K(256 ** w - 256 ** k))
                            out.append((s2, [Seg('ube', y, k)] + ss[1:]))
                cur = nxt
            continue
        return None
    return out


@smeth('strip lstrip rstrip')
def s_strip(ip, st, t, n, c):
    v = c.args[0]
    chars = A(c, 1)
    if n == 'lstrip' and isbytes(chars) and type(v) is Bs:
        r = strip_lead(ip, st, v.segs, chars.v)
        if r is not None:
            return [(s, 'v', mkbs(ss)) for s, ss in r]
    if type(chars) is K and isinstance(chars.v, (str, bytes)) and chars.v:
        text = t == 'str'
        r = [(st.clone(), list(segs_of(v, text)))]
        if n in ('strip', 'lstrip'):
            r = strip_end(ip, r, chars.v, text, 0)
        if n in ('strip', 'rstrip') and r is not None:
            r = strip_end(ip, r, chars.v, text, -1)
        if r is not None:
            return [(s, 'v', mkbs(ss, text)) for s, ss in r]
    if (len(c.args) == 1 or chars == NONE) and type(v) is Op and (
            v.op in ('str', 'repr') and (st.facts.typeof(v.args[0]) in ('int', 'float', 'bool', 'datetime.datetime')
                                         or type(v.args[0]) is Desc and v.args[0].kind == 'dt') or v.op == 'isoformat'):
        return ok(st, v)    # numbers and dates are written without white space at the ends
    return ok(st, Op(n if n == 'strip' else n, argterms(c), t))


def strip_end(ip, states, chars, text, end):
    """ Strip characters from one end: [(state, segments)] or None. """
    out = []
    units = [chars[i:i + 1] for i in range(len(chars))]
    todo = list(states)
    while todo:
        s, ss = todo.pop()
        if not ss:
            out.append((s, ss))
            continue
        g = ss[end]
        rest = ss[1:] if end == 0 else ss[:-1]
        if g.kind == 'lit':
            x = g.a[0].lstrip(chars) if end == 0 else g.a[0].rstrip(chars)
            if x:
                out.append((s, [Seg('lit', x)] + rest if end == 0 else rest + [Seg('lit', x)]))
            else:
                todo.append((s, rest))
        elif g.kind == 'fill' and g.a[0] in units:
            todo.append((s, rest))
        elif all(lacks(s, g, u) for u in units):
            for s2, empty in ip.branch(s, ip.decide(s, Op('lt0', (add(g.n, K(-1)),), 'bool'))):
                if empty:
                    todo.append((s2, rest))
                else:
                    out.append((s2, ss))
        else:
            return None
    return out


def printable_bytes(st, x):
    if type(x) is Op and x.op == 'prefix':
        return printable_bytes(st, x.args[0])
    if type(x) is Bs:
        return all(g.kind == 't' and printable_bytes(st, g.a[0]) for g in x.segs)
    if printable(st, x):
        return True
    if type(x) is Op and x.op == 'prefix':
        return printable_bytes(st, x.args[0])
    return type(x) is Op and x.op == 'encodestr' and printable(st, x.args[0])


def printable(st, x):
    return st.facts.tr.get(Op('printable', (x,), 'bool')) is True


@smeth('translate')
def s_translate(ip, st, t, n, c):
    v, tab = c.args[0], c.args[1] if len(c.args) > 1 else None
    g = segs_of(v)
    if t == 'bytes' and type(tab) is K and isinstance(tab.v, bytes) and len(tab.v) == 256 and all(
            tab.v[i] == i for i in range(32, 127)) and all(
                x.kind == 't' and printable_bytes(st, x.a[0]) or x.kind == 'lit' and x.a[0].translate(tab.v) == x.a[0] for x in g):
        return ok(st, v)
    if t == 'bytes' and len(c.args) == 2 and not c.kw:
        o = Op('translate', tuple(c.args), 'bytes')
        return ok(st, Bs([Seg('t', o, bytes_len(c.args[0]))]))
    return ok(st, Op('translate', argterms(c), t))


def lacks(st, seg, ch):
    """ Whether a segment certainly does not contain a character (or byte). """
    if seg.kind == 'lit':
        return ch not in seg.a[0]
    if seg.kind == 'fill':
        return seg.a[0] != ch
    if seg.kind == 'ube' and seg.a[1] == 1:
        lo, hi = st.facts.interval(seg.a[0])
        return not lo <= ord(ch) <= hi
    if seg.kind == 't':
        return lacks_term(st, seg.a[0], ch)
    cs = charset(seg)
    if cs is not None:
        return (ch.decode('latin-1') if isinstance(ch, bytes) else ch) not in cs
    return False


B64CHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='
HEXCHARS = '0123456789abcdef'
WS = ' \t\n\r\x0b\x0c'


def charset(seg):
    """ The characters a segment of coded (base64, hexadecimal, number) text is made of. """
    if seg.kind == 'rd' and type(seg.a[0]) is Op:
        return {'b64text': B64CHARS, 'hexbyte': HEXCHARS}.get(seg.a[0].op)
    if seg.kind == 't' and type(seg.a[0]) is Op:
        x = seg.a[0]
        if x.op == 'encodestr':
            x = x.args[0]
        if type(x) is Op and x.op == 'fmt' and type(x.args[0]) is K and re.match(r'^0?\d*[dxXob]?$', str(x.args[0].v)):
            return '-0123456789' + ('' if str(x.args[0].v).startswith('0') else ' ') + \
                ('abcdef' if 'x' in x.args[0].v else 'ABCDEF' if 'X' in x.args[0].v else '')
        if type(x) is Op and x.op == 'str' and x.ty == 'str' and static_type(x.args[0]) == 'int':
            return '-0123456789'
    return None


def lacks_term(st, x, ch):
    if st.facts.tr.get(Op('has', (x, K(ch)), 'bool')) is False:
        return True
    if type(x) in (K, Bs):
        return all(lacks(st, g, ch) for g in segs_of(x))
    if type(x) is Op and x.args:
        if x.op == 'encodestr' and isinstance(ch, bytes):
            return lacks_term(st, x.args[0], ch.decode('latin-1'))
        if x.op in ('prefix', 'partition0'):
            return x.op == 'partition0' and x.args[1] == K(ch) or lacks_term(st, x.args[0], ch)
        if x.op == 'translate' and type(x.args[1]) is K and isinstance(x.args[1].v, (bytes, bytearray)):
            return ch not in bytes(x.args[1].v)
        cs = charset(Seg('t', x, ZERO))
        if cs is not None:
            return (ch.decode('latin-1') if isinstance(ch, bytes) else ch) not in cs
        if x.op in ('str', 'repr') and st.facts.typeof(x.args[0]) in ('int', 'float'):
            return not isinstance(ch, bytes) and ch in '\0\n\r\t <>&'
    return False


def find_sep(ip, st, segs, ch):
    """ The first occurrence of a character: [(state, prefix, suffix or None)],
        or None where the segments do not determine it. """
    out = []
    todo = [(st, 0, 0)]
    segs = list(segs)
    while todo:
        s, i, _ = todo.pop()
        done = False
        while i < len(segs):
            g = segs[i]
            if g.kind == 'lit' and ch in g.a[0]:
                a, _, b = g.a[0].partition(ch)
                out.append((s, segs[:i] + [Seg('lit', a)], [Seg('lit', b)] + segs[i + 1:]))
                done = True
                break
            if g.kind == 'fill' and g.a[0] == ch:
                hit = None
                for s2, empty in ip.branch(s, ip.decide(s, Op('lt0', (add(g.a[1], K(-1)),), 'bool'))):
                    if empty:
                        hit = s2
                    else:
                        out.append((s2, segs[:i], [Seg('fill', g.a[0], add(g.a[1], K(-1)))] + segs[i + 1:]))
                if hit is None:
                    done = True
                    break
                s = hit
            elif not lacks(s, g, ch):
                return None
            i += 1
        if not done:
            out.append((s, segs, None))
    return out


def one_char(sep):
    return type(sep) is K and isinstance(sep.v, (str, bytes)) and len(sep.v) == 1


@smeth('partition')
def s_partition(ip, st, t, n, c):
    v, sep = c.args
    if one_char(sep):
        text = t == 'str'
        r = find_sep(ip, st.clone(), segs_of(v, text), sep.v)
        if r is not None:
            e = K('' if text else b'')
            return [(s, 'v', Tup([mkbs(a, text), e, e] if b is None else [mkbs(a, text), sep, mkbs(b, text)]))
                    for s, a, b in r]
    o = Op('partition0', (v, sep), t)
    return ok(st, Tup([o, Op('partition1', (v, sep), t), Op('partition2', (v, sep), t)]))


def split_words(st, segs, text):
    """ Segments split at white space, or None where they do not determine it. """
    words, cur = [], []
    for g in segs:
        if g.kind == 'lit':
            parts = re.split(r'\s+', g.a[0]) if text else re.split(rb'[ \t\n\r\x0b\x0c]+', g.a[0])
            for i, x in enumerate(parts):
                if i:
                    if cur:
                        words.append(cur)
                    cur = []
                if x:
                    cur.append(Seg('lit', x))
        elif st.facts.interval(g.n)[0] >= 1 and all(lacks(st, g, w if text else w.encode()) for w in WS):
            cur.append(g)
        else:
            return None
    return words + ([cur] if cur else [])


@smeth('split')
def s_split(ip, st, t, n, c):
    args = argterms(c)
    sep = A(c, 1, 'sep')
    mx = A(c, 2, 'maxsplit')
    v = c.args[0]
    text = t == 'str'
    if sep in (None, NONE) and mx in (None, K(-1)):
        words = split_words(st, segs_of(v, text), text)
        if words is not None:
            return ok(st, ip.alloc(st, Obj('list', data=tuple(mkbs(w, text) for w in words))))
    if one_char(sep if sep is not None else NONE) and mx in (None, K(-1), ONE):
        def rest(s, segs, acc):
            r = find_sep(ip, s.clone(), segs, sep.v) if mx != ONE or not acc else [(s, segs, None)]
            if r is None or len(acc) > 16:
                return None
            res = []
            for s2, a, b in r:
                if b is None:
                    res.append((s2, acc + [mkbs(a, text)]))
                else:
                    x = rest(s2, b, acc + [mkbs(a, text)])
                    if x is None:
                        return None
                    res.extend(x)
            return res
        r = rest(st, segs_of(v, text), [])
        if r is not None:
            return [(s, 'v', ip.alloc(s, Obj('list', data=tuple(x)))) for s, x in r]
    src = Op('split', args)
    # split(sep, ...)[0] is everything before the first separator
    def itemof(ip_, s, i):
        if i == ZERO and sep is not None and sep != NONE:
            return Op('partition0', (v, sep), t)
        return Op('item', (src, i), t)
    return ok(st, ip.alloc(st, Obj('list', data=(), info={'opaque': src, 'itemof': itemof,
                                                          'minlen': 1 if sep not in (None, NONE) else 0})))


@smeth('join')
def s_join(ip, st, t, n, c):
    sep = c.args[0]
    text = t == 'str'

    def go(s, its):
        if any(is_rep(x) for x in its):
            return ok(s, Op('joined', (sep, Tup(its)), t))
        segs = []
        for i, x in enumerate(its):
            x = deref(s, x)
            ty = s.facts.typeof(x) if type(x) is not Ref else 'object'
            if ty is not None and (ty == 'str') != text or ty in ('int', 'NoneType', 'object'):
                return ip.raise_(s, 'TypeError', 'sequence item: wrong type')
            if i:
                segs.extend(segs_of(sep, text))
            segs.extend(segs_of(x, text))
        return ok(s, mkbs(segs, text))
    return ip.bind(to_items(ip, st, c.args[1]), go)


def to_hex(st, v):
    """ The hexadecimal text of bytes of constant length. """
    out = []
    for g in segs_of(v):
        if g.kind == 'lit':
            out.append(Seg('lit', g.a[0].hex()))
        elif is_int_const(st.facts.simp(g.n)) and st.facts.simp(g.n).v <= 4096 and g.kind == 'rd':
            for i in range(st.facts.simp(g.n).v):
                out.append(Seg('rd', Op('hexbyte', (byte_at(g.a[0], add(g.a[1], K(i))),), 'bytes'), ZERO, K(2)))
        elif g.kind == 'ube' and g.a[1] == 1:
            out.append(Seg('rd', Op('hexbyte', (g.a[0],), 'bytes'), ZERO, K(2)))
        else:
            return None
    return mkbs(out, True)


def b64seg(x, a=ZERO, n=None):
    """ The base64 text of x, without line breaks. """
    if n is None:
        n = scale(Op('idiv', (add(bytes_len(x), K(2)), K(3)), 'int'), 4)
        if is_int_const(bytes_len(x)):
            n = K((bytes_len(x).v + 2) // 3 * 4)
    return Seg('rd', Op('b64text', (x,), 'bytes'), a, n)


def b64sig(segs):
    """ The significant characters of base64 text: its segments without line
        breaks and other ignored characters; or None. """
    out = []
    for g in segs:
        if g.kind == 'lit':
            x = g.a[0] if isinstance(g.a[0], str) else g.a[0].decode('latin-1')
            x = ''.join(ch for ch in x if ch in B64CHARS)
            if x:
                out.append(Seg('lit', x.encode()))
        elif g.kind == 'rd' and type(g.a[0]) is Op and g.a[0].op == 'b64text':
            out.append(g)
        elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op == 'b64lines':
            out.append(b64seg(g.a[0].args[0]))
        elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op == 'replace' and type(g.a[0].args[0]) is Op \
                and g.a[0].args[0].op == 'b64lines' and g.a[0].args[1].v in ('\n', b'\n') \
                and (type(g.a[0].args[2]) is K and b64sig(segs_of(g.a[0].args[2])) == []):
            out.append(b64seg(g.a[0].args[0].args[0]))
        else:
            return None
    return list(segs_of(mkbs(out))) if out else []


def retype(g, ty):
    """ Coded ASCII text as bytes, or the reverse. """
    x = g.a[0]
    if x.op == 'replace':
        conv = (lambda k: K(k.v.encode()) if isinstance(k.v, str) else k) if ty == 'bytes' else \
            (lambda k: K(k.v.decode()) if isinstance(k.v, bytes) else k)
        return Seg('t', Op('replace', (Op('b64lines', x.args[0].args, ty), conv(x.args[1]), conv(x.args[2])), ty), g.a[1])
    return Seg('t', Op('b64lines', x.args, ty), g.a[1])


def norm_enc(e):
    if not isstr(e):
        return None
    try:
        return codecs.lookup(e.v).name
    except LookupError:
        return False


@smeth('decode')
def s_decode(ip, st, t, n, c):
    return m_decode(ip, st, Call([c.args[0], A(c, 1, 'encoding', K('utf-8')), A(c, 2, 'errors', K('strict'))]))


def same_len(st, a, b):
    return a == b or st.facts.interval(sub(a, b)) == (0, 0)


def decodes(b, enc):
    try:
        b.decode(enc)
        return True
    except (UnicodeError, LookupError):
        return False


def m_decode(ip, st, c):
    v, enc, err = c.args
    v = deref(st, v)
    ty = st.facts.typeof(v) if type(v) is not Ref else 'object'
    if ty == 'str':
        return ip.raise_(st, 'TypeError', 'decoding str is not supported')
    if ty in ('int', 'NoneType', 'float', 'object', 'bool', 'tuple'):
        return ip.raise_(st, 'TypeError', 'decoding to str: need a bytes-like object')
    r = fold_const(ip, st, 'builtins.bytes.decode', Call([v, enc, err]))
    if r is not None:
        return r
    e = norm_enc(enc)
    if e is False:
        return ip.raise_(st, 'LookupError', 'unknown encoding')
    e = K(e) if e else enc
    # decoding what was encoded
    segs = segs_of(v)
    if len(segs) == 1 and segs[0].kind == 't' and type(segs[0].a[0]) is Op and segs[0].a[0].op == 'encodestr' \
            and (segs[0].a[0].args[1] == e or printable(st, segs[0].a[0].args[0])
                 and e in (K('ascii'), K('utf-8'), K('iso8859-1'))):
        return ok(st, segs[0].a[0].args[0])
    if len(segs) >= 1 and e in (K('ascii'), K('utf-8'), K('iso8859-1')):
        out = []
        for g in segs:
            if g.kind == 'lit' and (max(g.a[0], default=0) < 128 or e == K('iso8859-1')):
                out.append(Seg('lit', g.a[0].decode('latin-1')))
            elif g.kind == 'lit' and decodes(g.a[0], e.v):
                out.append(Seg('lit', g.a[0].decode(e.v)))
            elif g.kind == 'rd' and charset(g) is not None:
                out.append(g)
            elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op == 'encodestr' and charset(g) is not None:
                out.append(Seg('t', g.a[0].args[0], g.a[1]))
            elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op == 'encodestr' and same_len(st, g.a[1], mklen(g.a[0])) and \
                    len(g.a[0].args) == 2 and g.a[0].args[1] == e:
                out.append(Seg('t', g.a[0].args[0], mklen(g.a[0].args[0])))
            elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op == 'encodestr' and len(g.a[0].args) == 2 and \
                    printable(st, g.a[0].args[0]) and same_len(st, bytes_len(g.a[0].args[0]), g.a[1]):
                out.append(Seg('t', g.a[0].args[0], g.a[1]))
            elif g.kind == 't' and type(g.a[0]) is Op and g.a[0].op in ('b64lines', 'replace') and b64sig([g]) is not None:
                out.append(retype(g, 'str'))
            else:
                out = None
                break
        if out is not None:
            return ok(st, mkbs(out, True))
    plain = Op('decode', (v, e), 'str')
    if bytes_len(v) == ZERO or st.facts.const(bytes_len(v)) == 0:
        return ok(st, K(''))
    strict = err in (K('strict'), NONE)
    if e == K('iso8859-1'):
        return ok(st, Bs([Seg('t', plain, bytes_len(v))], True))
    cond = Op('decodable', (v, e), 'bool')
    res = []
    if e == K('ascii') and type(v) is Op and v.op == 'partition0':
        pass
    for s, b in ip.branch(st, ip.decide(st, cond)):
        if b:
            res.extend(ok(s, plain))
        elif strict:
            x = ip.raise_(s, 'UnicodeDecodeError', e, v)
            res.extend(x)
        else:
            res.extend(ok(s, Op('decode', (v, e, err), 'str')))
    return res


@smeth('encode')
def s_encode(ip, st, t, n, c):
    return m_encode(ip, st, Call([c.args[0], A(c, 1, 'encoding', K('utf-8')), A(c, 2, 'errors', K('strict'))]))


def m_encode(ip, st, c):
    v, enc, err = c.args
    r = fold_const(ip, st, 'builtins.str.encode', Call([v, enc, err]))
    if r is not None:
        return r
    e = norm_enc(enc)
    if e is False:
        return ip.raise_(st, 'LookupError', 'unknown encoding')
    e = K(e) if e else enc
    segs = segs_of(v, True)
    if e in (K('iso8859-1'), K('utf-8'), K('ascii')):
        out = []
        for s in segs:
            if s.kind == 'lit':
                try:
                    out.append(Seg('lit', s.a[0].encode(e.v, err.v if isstr(err) else 'strict')))
                    continue
                except UnicodeError:
                    out = None
                    break
            x = s.a[0] if s.kind == 't' else None
            if s.kind == 'rd' and charset(s) is not None:
                out.append(s)
                continue
            if x is not None and (charset(s) is not None or printable(st, x)):
                out.append(Seg('t', Op('encodestr', (x, K('ascii')), 'bytes'), s.a[1]))
                continue
            if s.kind == 't' and type(x) is Op and x.op in ('b64lines', 'replace') and b64sig([s]) is not None:
                out.append(retype(s, 'bytes'))
                continue
            if x is not None and e == K('utf-8') and err in (K('strict'), NONE) and same_len(st, s.a[1], mklen(x)) and \
                    st.facts.typeof(x) == 'str' and not (type(x) is Op and x.op in ('decode', 'chr')):
                b = Op('encodestr', (x, e), 'bytes')
                out.append(Seg('t', b, mklen(b)))
                continue
            if type(x) is Op and x.op == 'chr':
                lo, hi = st.facts.interval(x.args[0])
                if lo >= 0 and hi <= (255 if e.v == 'iso8859-1' else 127):
                    out.append(Seg('ube', x.args[0], 1))
                    continue
            if type(x) is Op and x.op == 'decode' and x.args[1] == e:
                out.append(Seg('t', x.args[0], bytes_len(x.args[0])) if True else None)
                continue
            out = None
            break
        if out is not None:
            return ok(st, mkbs(out))
    plain = Op('encodestr', (v, e), 'bytes')
    if printable(st, v) and e in (K('ascii'), K('utf-8'), K('iso8859-1')):
        return ok(st, Bs([Seg('t', Op('encodestr', (v, K('ascii')), 'bytes'), bytes_len(v))]))
    if e == K('utf-8') and err in (K('strict'), NONE):
        return ok(st, plain)
    if err not in (K('strict'), NONE):
        t = Op('encodestr', (v, e, err), 'bytes')
        if e == K('ascii') and err == K('replace'):
            return ok(st, Bs([Seg('t', t, bytes_len(v))]))
        return ok(st, t)
    res = []
    for s, b in ip.branch(st, ip.decide(st, Op('encodable', (v, e), 'bool'))):
        res.extend(ok(s, plain) if b else ip.raise_(s, 'UnicodeEncodeError', e, v))
    return res


# ---------------------------------------------------------------------------
# int / float methods
# ---------------------------------------------------------------------------

@model('builtins.int.to_bytes', 'builtins.bool.to_bytes')
def i_to_bytes(ip, st, c):
    v = st.facts.simp(c.args[0])
    n, order = A(c, 1, 'length', ONE), A(c, 2, 'byteorder', K('big'))
    signed = c.kw.get('signed', FALSE)
    n = st.facts.simp(n)
    if not isint(n):
        ps = partition_int(ip, st, n, 16)
        if ps is None:
            return ok(st, Bs([Seg('t', Op('to_bytes', argterms(c), 'bytes'), n)]))
        return [o for s, k in ps for o in i_to_bytes(ip, s, Call([v, K(k), order], {'signed': signed}))]
    w = n.v
    if w < 0:
        return ip.raise_(st, 'ValueError', 'length argument must be non-negative')
    if type(v) is K:
        return fold_const(ip, st, 'builtins.int.to_bytes', Call([v, n, order], {'signed': signed}))
    if order != K('big') or type(signed) is not K:
        return ok(st, Bs([Seg('t', Op('to_bytes', argterms(c), 'bytes'), n)]))
    lo, hi = (-(256 ** w) // 2, 256 ** w // 2 - 1) if signed.v else (0, 256 ** w - 1)
    if w == 0:
        lo = hi = 0
    res = []
    for s, b in split_range(ip, st, v, lo, hi):
        if not b:
            res.extend(ip.raise_(s, 'OverflowError', 'int too big to convert'))
            continue
        res.extend(pack_int(ip, s, v, w))
    return res


def pack_int(ip, s, v, w):
    """ Two's complement big-endian bytes of a value known to fit. """
    if w == 0:
        return ok(s, K(b''))
    return [(s1, 'v', mkbs([Seg('ube', add(v, K(256 ** w)) if neg else v, w)]))
            for s1, neg in ip.branch(s, ip.decide(s, Op('lt0', (v,), 'bool')))]


@model('builtins.int.from_bytes')
def i_from_bytes(ip, st, c):
    a = [x for x in c.args if x != Ext('builtins.int')]
    c2 = Call(a, c.kw)
    v = deref(st, A(c2, 0, 'bytes'))
    order = A(c2, 1, 'byteorder', K('big'))
    signed = c.kw.get('signed', FALSE)
    if type(v) is K and type(order) is K and type(signed) is K:
        return fold_const(ip, st, 'builtins.int.from_bytes', Call([v, order], {'signed': signed}))
    if type(v) is not Ref and st.facts.typeof(v) in ('str', 'int', 'NoneType', 'float'):
        return ip.raise_(st, 'TypeError', 'cannot convert to bytes')
    ps = partition_int(ip, st, bytes_len(v), 16)
    if ps is None or order != K('big') or type(signed) is not K:
        return ok(st, Op('from_bytes', argterms(c), 'int'))
    res = []
    for s, w in ps:
        segs = [simp_seg(s.facts, x) for x in segs_of(v)]
        u = ube_value(mkbs_segs(s, segs))
        if u is None:
            res.extend(ok(s, Op('from_bytes', (v, order, signed), 'int')))
        else:
            res.extend(to_signed(ip, s, u, w) if signed.v and w else ok(s, u))
    return res


def mkbs_segs(st, segs):
    return segs_of(mkbs([simp_seg(st.facts, x) for x in segs]))


def to_signed(ip, s, u, w):
    return [(s1, 'v', u if b else sub(u, K(256 ** w)))
            for s1, b in ip.branch(s, ip.decide(s, Op('lt0', (sub(u, K(256 ** w // 2)),), 'bool')))]


@model('builtins.int.bit_length', 'builtins.bool.bit_length')
def i_bit_length(ip, st, c):
    v = st.facts.simp(c.args[0])
    if type(v) is K:
        return ok(st, K(v.v.bit_length()))
    lo, hi = st.facts.interval(v)
    if lo >= 0 and hi <= 2 ** 64:
        # partition by magnitude
        res = []
        cur = [st]
        k = 0
        while cur and k <= 65:
            nxt = []
            for s in cur:
                for s2, b in ip.branch(s, ip.decide(s, Op('lt0', (sub(v, K(2 ** k)),), 'bool'))):
                    if b:
                        res.extend(ok(s2, K(k)))
                    else:
                        nxt.append(s2)
            cur = nxt
            k += 1
        return res
    return ok(st, Op('bitlen', (v,), 'int'))


@model('builtins.float.is_integer')
def f_is_integer(ip, st, c):
    return ok(st, Op('eq', (Op('int', (c.args[0],), 'int'), c.args[0]), 'bool'))


@model('builtins.tuple.__new__', 'builtins.int.__new__', 'builtins.str.__new__')
def m_prim_new(ip, st, c):
    st.doubt('subclass of a built-in type')
    return ok(st, Op('new', tuple(c.args), None))


@model('generator.close')
def g_close(ip, st, c):
    return ok(st, NONE)


@model('generator.__next__', 'listiter.__next__')
def g_next(ip, st, c):
    return next_of(ip, st, c.args[0])


@model('generator.__iter__', 'listiter.__iter__')
def g_iter(ip, st, c):
    return ok(st, c.args[0])
