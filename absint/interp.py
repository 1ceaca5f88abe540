"""
The abstract interpreter: transfer functions for the Python statements and
expressions over the domain in `terms`.

* trace partitioning: undecided branches split the abstract state;
* loops: a few peeled iterations, then widening (changed variables become loop
  atoms, accumulated contents become repetition segments);
* calls are inlined; calls beyond a recursion bound are replaced by an event
  recording the callee and its arguments by parameter name;
* everything outside the analysed package is a model (`models`), or opaque.
"""
import ast
import builtins
import copy
import importlib
import os
import sys

from .desugar import desugar
from .terms import *
from . import terms as T

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """ The analysis cannot proceed (an error of the check, not a verdict). """


class Budget(Exception):
    """ The analysis budget of a scenario ran out: its result is undecided. """


class Obj:
    __slots__ = ('kind', 'cls', 'attrs', 'data', 'info', 'origin')

    def __init__(self, kind, cls=None, attrs=None, data=None, info=None, origin=None):
        self.kind, self.cls, self.attrs, self.data = kind, cls, attrs if attrs is not None else {}, data
        self.info = info if info is not None else {}
        self.origin = origin

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.attrs), self.data, dict(self.info), self.origin)


class State:
    __slots__ = ('heap', 'frames', 'facts', 'events', 'path', 'stack', 'unsure', 'exc', 'ctx')

    def __init__(self):
        self.heap, self.frames, self.facts = {}, {}, Facts()
        self.events = self.path = None
        self.stack = ()
        self.unsure = ()
        self.exc = ()
        self.ctx = {}

    def clone(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.facts = self.facts.clone()
        s.events, s.path, s.stack = self.events, self.path, self.stack
        s.unsure, s.exc = self.unsure, self.exc
        s.ctx = dict(self.ctx)
        return s

    def get(self, ref):
        return self.heap[ref.oid]

    def ev(self, *e):
        self.events = (self.events, e)

    def event_list(self, since=None):
        out = []
        e = self.events
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def path_list(self):
        out = []
        e = self.path
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def doubt(self, why):
        if why not in self.unsure:
            self.unsure = self.unsure + (why,)


class Frame:
    __slots__ = ('fid', 'mod', 'parent', 'kind', 'globals_', 'nonlocals_', 'locals_', 'handler', 'fn', 'qual', 'gen')
    _n = 0

    def __init__(self, mod, parent=None, kind='function', fn=None, qual=''):
        Frame._n += 1
        self.fid = Frame._n
        self.mod, self.parent, self.kind, self.fn, self.qual = mod, parent, kind, fn, qual
        self.globals_ = self.nonlocals_ = self.locals_ = frozenset()
        self.handler = None
        self.gen = None


class Call:
    """ Arguments of a call. """
    __slots__ = ('args', 'kw', 'star', 'dstar')

    def __init__(self, args=(), kw=None, star=None, dstar=None):
        self.args = list(args)
        self.kw = dict(kw or {})
        self.star = star        # opaque *args term
        self.dstar = dstar      # opaque **kwargs term

    def __repr__(self):
        p = [repr(a) for a in self.args] + ['%s=%r' % kv for kv in self.kw.items()]
        if self.star is not None:
            p.append('*%r' % (self.star,))
        if self.dstar is not None:
            p.append('**%r' % (self.dstar,))
        return '(%s)' % ', '.join(p)


def ok(st, v=NONE):
    return [(st, 'v', v)]


_assigned_cache = {}
_closure_cache = {}


def has_closure(node):
    """ Whether a function's variables can outlive its call. """
    r = _closure_cache.get(id(node))
    if r is None:
        r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef))
                for x in ast.walk(node) if x is not node)
        _closure_cache[id(node)] = r = (r, node)
    return r[0]



def scope_info(node):
    """ (assigned names, global names, nonlocal names, has yield) of a function. """
    r = _assigned_cache.get(node)
    if r is not None:
        return r
    names, globs, nonl = set(), set(), set()
    isgen = [False]

    def args_of(a):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    isgen[0] = True
            return
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        args_of(node.args)
        visit(node.body)
    else:
        args_of(node.args)
        for s in node.body:
            visit(s)
    r = (frozenset(names - globs - nonl), frozenset(globs), frozenset(nonl), isgen[0])
    _assigned_cache[node] = r
    return r


_pyobj_cache = {}


def pyobj(name):
    """ The standard-library object with a qualified name (constant knowledge
        about the library, never about the analysed package). """
    if name in _pyobj_cache:
        return _pyobj_cache[name]
    parts = name.split('.')
    res = None
    if parts[0] not in ('ebmlite', 'any', 'opaque'):
        for i in range(len(parts), 0, -1):
            try:
                m = importlib.import_module('.'.join(parts[:i]))
            except Exception:
                continue
            o = m
            try:
                for p in parts[i:]:
                    o = getattr(o, p)
                res = o
                break
            except AttributeError:
                continue
    _pyobj_cache[name] = res
    return res


CANON = {}


def canon_ext(name):
    """ Canonical qualified name of a library object (aliases resolved). """
    if name in CANON:
        return CANON[name]
    r = name
    if name.startswith('posixpath.'):
        r = 'os.path.' + name[10:]
    o = pyobj(name)
    if isinstance(o, type):
        q = '%s.%s' % (o.__module__, o.__qualname__)
        q = {'_io.': 'io.', '_struct.': 'struct.', 'pathlib._local.': 'pathlib.'}.get(
            q[:q.rindex('.') + 1], q[:q.rindex('.') + 1]) + o.__qualname__
        if pyobj(q) is o:
            r = q
    if name in ('builtins.IOError', 'builtins.EnvironmentError', 'builtins.WindowsError'):
        r = 'builtins.OSError'
    if name == 'io.open':
        r = 'builtins.open'
    if name == 'threading.currentThread':
        r = 'threading.current_thread'
    if name in ('_thread.get_ident',):
        r = 'threading.get_ident'
    if name in ('typing.Dict',):
        r = name
    CANON[name] = r
    return r


_HAS_YIELD = {}


def has_yield(n):
    """ Does a loop contain a `yield` of its own function? """
    r = _HAS_YIELD.get(n)
    if r is None:
        def find(x):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                return False
            return any(find(c) for c in ast.iter_child_nodes(x))
        r = _HAS_YIELD[n] = any(find(c) for c in ast.iter_child_nodes(n))
    return r


def yield_path(stmts, y):
    """ The nested statements leading to a `yield` that is a statement, or the
        right side of an assignment. """
    for n in stmts:
        if type(n) in (ast.Expr, ast.Assign) and n.value is y:
            return [n]
        for f in ('body', 'orelse', 'finalbody'):
            sub_ = getattr(n, f, None)
            if isinstance(sub_, list) and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                p = yield_path(sub_, y)
                if p is not None:
                    return [n] + p
        for h in getattr(n, 'handlers', []) or []:
            p = yield_path(h.body, y)
            if p is not None:
                return [n, h] + p
    return None


class Interp:
    PEEL = 1
    MAX_STEPS = 400000
    MAX_UNROLL = 300
    RECURSION = 1

    def __init__(self, root='/repo', package='ebmlite'):
        self.root, self.package = root, package
        self.sources = {}
        self.trees = {}
        self.oidn = 0
        self.steps = 0
        self.max_steps = self.MAX_STEPS
        self.phase = 'module'
        self.cur = None            # current AST node, for reports
        self.curfn = ''
        self.hooks = {}            # qualname -> function(interp, st, fn, bound, node)
        self.loopmeta = {}
        self.cfg = {}
        self.analysed = set()      # qualnames of functions interpreted
        self.unknown_ext = set()   # external callables without a model
        self.modrefs = {}
        from . import models
        self.models = models.MODELS
        self.attrmodels = models.ATTRS
        self.m = models
        self.st0 = State()
        self._loop_n = 0

    # ------------------------------------------------------------------ misc
    def alloc(self, st, obj, tag=''):
        self.oidn += 1
        obj.origin = obj.origin or self.phase
        st.heap[self.oidn] = obj
        return Ref(self.oidn, tag or obj.kind)

    def mut(self, st, ref, what=None, *detail):
        o = st.heap[ref.oid] = st.heap[ref.oid].copy()
        if what:
            st.ev('mut', ref, what, self.where(), *detail)
        return o

    def where(self):
        n = self.cur
        return '%s:%s' % (self.curfn, getattr(n, 'lineno', '?'))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('analysis budget of %d steps exhausted' % self.max_steps)

    def bind(self, outs, f):
        res = []
        for st, sig, v in outs:
            if sig == 'v':
                res.extend(f(st, v))
            else:
                res.append((st, sig, v))
        return res

    def fold(self, st, nodes, f, ev):
        """ Evaluate nodes left to right, collecting values. """
        outs = [(st, 'v', ())]
        for n in nodes:
            outs = self.bind(outs, lambda s, acc, n=n:
                             [(s2, sig, acc + (v,) if sig == 'v' else v) for s2, sig, v in ev(n, s)])
        return self.bind(outs, lambda s, acc: f(s, list(acc)))

    # ------------------------------------------------------------ exceptions
    def exc(self, st, cls, *args, **info):
        if isinstance(cls, str):
            cls = Ext(canon_ext('builtins.' + cls if '.' not in cls else cls))
        args = [K(a) if isinstance(a, (str, int)) and not isinstance(a, Term) else a for a in args]
        return self.alloc(st, Obj('inst', cls, {'args': Tup(args)}, info=dict(info)), 'exc:%s' % (cls,))

    def raise_(self, st, cls, *args, **info):
        e = self.exc(st, cls, *args, **info)
        st.get(e).info['at'] = self.where()
        return [(st, 'raise', e)]

    def opaque_exc(self, st, name='any.Exception', why=''):
        e = self.alloc(st, Obj('inst', Ext(canon_ext(name)), {'args': Op('attr', (Sym('exc@%d' % self.oidn, None), 'args'), None)},
                               info={'opaque': why or True, 'at': self.where()}), 'exc:%s' % name)
        return e

    # --------------------------------------------------------------- classes
    def class_name(self, st, cls):
        if type(cls) is Ref:
            return st.get(cls).info.get('name', '?')
        if type(cls) is Ext:
            return cls.name.split('.')[-1]
        return repr(cls)

    def mro(self, st, cls):
        if type(cls) is Ref:
            return st.get(cls).info['mro']
        return self.ext_mro(cls)

    def ext_mro(self, cls):
        o = pyobj(cls.name)
        if isinstance(o, type):
            out = []
            for c in o.__mro__:
                out.append(Ext(canon_ext('%s.%s' % (c.__module__, c.__qualname__))))
            if out and out[0] != cls:
                out[0] = cls
            return out
        return [cls, Ext('builtins.object')]

    def make_class(self, st, name, bases, attrs, module=None, qual=None):
        bases = list(bases) or [Ext('builtins.object')]
        seqs = [list(self.mro(st, b)) for b in bases] + [list(bases)]
        mro = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in x[1:] for x in seqs):
                    break
            else:
                c = seqs[0][0]
            mro.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        o = Obj('class', Ext('builtins.type'), dict(attrs),
                info={'name': name, 'bases': bases, 'module': module, 'qual': qual or name})
        ref = self.alloc(st, o, 'class:%s' % name)
        o.info['mro'] = [ref] + mro
        slots = attrs.get('__slots__')
        if slots is not None:
            names = None
            if type(slots) is Tup:
                names = [i.v for i in slots.items if type(i) is K]
            elif type(slots) is K and isinstance(slots.v, str):
                names = [slots.v]
            elif type(slots) is Ref and isinstance(st.get(slots).data, tuple):
                names = [i.v for i in st.get(slots).data if type(i) is K]
            o.info['slots'] = names or []
            for n in names or []:
                if n in o.attrs and n not in ('__slots__',):
                    continue
                o.attrs[n] = Desc('slot', K(n))
        return ref

    def has_dict(self, st, cls):
        for c in self.mro(st, cls):
            if type(c) is Ref:
                if 'slots' not in st.get(c).info:
                    return True
            elif c.name not in ('builtins.object',):
                return True
        return False

    def lookup(self, st, cls, name, start=0, after=None):
        """ Find a name along the MRO: (value, class) or (None, None). """
        mro = self.mro(st, cls)
        if after is not None:
            i = 0
            for i, c in enumerate(mro):
                if c == after:
                    break
            mro = mro[i + 1:]
        for c in mro:
            if type(c) is Ref:
                a = st.get(c).attrs
                if name in a:
                    return a[name], c
            else:
                o = pyobj(c.name)
                if isinstance(o, type) and name in o.__dict__:
                    return Ext('%s.%s' % (c.name, name)), c
                if c.name.startswith('any.') and name in ('args', 'with_traceback'):
                    return Ext('%s.%s' % (c.name, name)), c
        return None, None

    def subclass(self, st, a, b):
        """ True / False / None (unknown) """
        if a == b or b == Ext('builtins.object'):
            return True
        if b in self.mro(st, a):
            return True
        if type(a) is Ext and a.name.startswith('any.'):
            # some unknown exception class
            if b in (Ext('builtins.Exception'), Ext('builtins.BaseException')):
                return True
            if type(b) is Ext and a.name == 'any.Exception':
                o = pyobj(b.name)
                if isinstance(o, type) and issubclass(o, BaseException):
                    return None if issubclass(o, Exception) else False
                return False
            return False
        if type(a) is Ext and type(b) is Ext:
            oa, ob = pyobj(a.name), pyobj(b.name)
            if isinstance(oa, type) and isinstance(ob, type):
                try:
                    return issubclass(oa, ob)
                except TypeError:
                    return False
        if type(a) is Ref and type(b) is Ext:
            ob = pyobj(b.name)
            for c in self.mro(st, a):
                if type(c) is Ext:
                    oc = pyobj(c.name)
                    if isinstance(oc, type) and isinstance(ob, type) and oc is not object:
                        try:
                            if issubclass(oc, ob):
                                return True
                        except TypeError:
                            pass
        return False

    # ------------------------------------------------------------------ types
    KIND_TYPES = {'list': 'list', 'dict': 'dict', 'set': 'set', 'bytearray': 'bytearray',
                  'frozenset': 'frozenset', 'module': 'types.ModuleType', 'class': 'type'}

    DESC_TYPES = {'deque': 'collections.deque', 'dt': 'datetime.datetime', 'td': 'datetime.timedelta',
                  'path': 'pathlib.Path', 'struct': 'struct.Struct', 'partial': 'functools.partial'}

    def type_of(self, st, v):
        """ The class of a value (Ref or Ext), or None if unknown. """
        c = type(v)
        if c is Ref:
            o = st.get(v)
            if o.kind in ('inst', 'stream', 'opaque', 'xml', 'ext'):
                return o.cls
            n = self.KIND_TYPES[o.kind]
            return Ext('builtins.' + n if '.' not in n else n)
        if c in (Fn, Bound):
            return Ext('types.FunctionType')
        if c is Gen:
            return Ext('types.GeneratorType')
        if c is Desc:
            n = self.DESC_TYPES.get(v.kind)
            if n:
                return Ext(n)
            return Ext('builtins.' + v.kind)
        if c is Ext:
            o = pyobj(v.name)
            if o is None:
                return None
            if isinstance(o, type):
                return Ext('builtins.type')
            t = type(o)
            return Ext(canon_ext('%s.%s' % (t.__module__, t.__qualname__)))
        n = st.facts.typeof(v)
        if n is None:
            return None
        return Ext(canon_ext(n if '.' in n else 'builtins.' + n))

    def isinst(self, st, v, cls):
        """ isinstance: True / False / condition term """
        if type(cls) is Tup:
            rs = [self.isinst(st, v, c) for c in cls.items]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            if not rs:
                return False
            if len(rs) == 1:
                return rs[0]
            return Op('isinst', (v, Tup([c for c in cls.items if self.isinst(st, v, c) is not False])), 'bool')
        if type(cls) is Ext and cls.name.startswith('typing.'):
            o = pyobj(cls.name)
            o = getattr(o, '__origin__', None)
            if isinstance(o, type):
                cls = Ext(canon_ext('%s.%s' % (o.__module__, o.__qualname__)))
        if type(cls) is Desc and cls.kind == 'union':
            return self.isinst(st, v, Tup(cls.parts))
        t = self.type_of(st, v)
        if t is not None:
            r = self.subclass(st, t, cls)
            if r is None:
                return Op('isinst', (v, cls), 'bool')
            if r is False and type(t) is Ext and t.name.startswith('opaque.'):
                return Op('isinst', (v, cls), 'bool')
            return r
        known = st.facts.ty.get(v)
        if known:
            inc, exc = known
            if inc is not None:
                rs = set()
                for n in inc:
                    rs.add(self.subclass(st, Ext('builtins.' + n if '.' not in n else n), cls))
                if rs == {True}:
                    return True
                if rs == {False}:
                    return False
            if cls in exc:
                return False
        return Op('isinst', (v, cls), 'bool')

    # -------------------------------------------------------------- conditions
    def cond(self, st, v):
        """ The truth of a value: True, False or a condition term. """
        c = type(v)
        if c is K:
            return bool(v.v)
        if c is Tup:
            return bool(v.items)
        if c is Bs:
            return self.decide(st, Op('not', (Op('eq0', (v.n,), 'bool'),), 'bool'))
        if c in (Fn, Bound, Ext, Gen, Desc):
            return True
        if c is Ref:
            o = st.get(v)
            if o.kind in ('list', 'set', 'dict', 'frozenset'):
                n = self.m.container_len(self, st, v)
                if n is not None:
                    return self.decide(st, Op('not', (Op('eq0', (n,), 'bool'),), 'bool'))
                return Op('truth', (v,), 'bool')
            if o.kind == 'bytearray':
                return self.decide(st, Op('not', (Op('eq0', (bytes_len(o.data),), 'bool'),), 'bool'))
            if o.kind == 'xml':
                return self.decide(st, Op('not', (Op('eq0', (self.m.container_len(self, st, v),), 'bool'),), 'bool'))
            if o.kind == 'opaque' and o.info.get('falsy'):
                return Op('truth', (v,), 'bool')
            return True
        ty = st.facts.typeof(v)
        if ty == 'NoneType':
            return False
        if c is Op and ty == 'bool':
            return self.decide(st, v)
        if ty in ('int', 'bool'):
            return self.decide(st, Op('not', (Op('eq0', (v,), 'bool'),), 'bool'))
        if ty in ('bytes', 'str', 'bytearray', 'list', 'tuple', 'dict', 'set'):
            return self.decide(st, Op('not', (Op('eq0', (mklen(v),), 'bool'),), 'bool'))
        return self.decide(st, Op('truth', (v,), 'bool'))

    def decide(self, st, t):
        """ Simplify a condition term using the facts. """
        if type(t) is K:
            return bool(t.v)
        if type(t) is not Op:
            return t
        if t.op == 'not':
            r = self.decide(st, t.args[0])
            if r is True or r is False:
                return not r
            if type(r) is Op and r.op == 'not':
                return r.args[0]
            return Op('not', (r,), 'bool')
        if t.op == 'lt0':
            lo, hi = st.facts.interval(t.args[0])
            if hi < 0:
                return True
            if lo >= 0:
                return False
            return t
        if t.op == 'eq0':
            x = t.args[0]
            lo, hi = st.facts.interval(x)
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            d, s, g, c = norm_lin(x)
            if d is not None and (-c * s) % g:
                return False
            # canonical direction: d == v
            v = -c * s // g
            t = Op('eq0', (mklin(-v, dict(d)),), 'bool')
            if t in st.facts.tr:
                return st.facts.tr[t]
            return t
        if t in st.facts.tr:
            return st.facts.tr[t]
        if t.op == 'eq':
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if type(y) is K:
                    for f, tv in st.facts.tr.items():
                        if tv and type(f) is Op and f.op == 'eq' and x in f.args:
                            o = f.args[0] if f.args[1] == x else f.args[1]
                            if type(o) is K:
                                return o == y
            if Op('eq', (b, a), 'bool') in st.facts.tr:
                return st.facts.tr[Op('eq', (b, a), 'bool')]
        if t.op == 'truth':
            x = t.args[0]
            if st.facts.tr.get(Op('is', (x, NONE), 'bool')):
                return False
        if t.op == 'is' and t.args[1] == NONE:
            if st.facts.tr.get(Op('truth', (t.args[0],), 'bool')):
                return False
        if t.op == 'isinst':
            r = self.isinst(st, *t.args)
            if r is True or r is False:
                return r
        return t

    def assume(self, st, t, val):
        """ Refine st with t == val. Returns False when impossible. """
        if t is True or t is False:
            return t == val
        if type(t) is K:
            return bool(t.v) == val
        f = st.facts
        if type(t) is Op:
            if t.op == 'not':
                return self.assume(st, t.args[0], not val)
            if t.op == 'lt0':
                return f.restrict(t.args[0], hi=-1) if val else f.restrict(t.args[0], lo=0)
            if t.op == 'eq0':
                if val:
                    if f.tr.get(t) is False:
                        return False
                    return f.restrict(t.args[0], 0, 0) and self._recheck(st)
                lo, hi = f.interval(t.args[0])
                if lo == 0:
                    return f.restrict(t.args[0], lo=1)
                if hi == 0:
                    return f.restrict(t.args[0], hi=-1)
                f.tr[t] = False
                return True
            if t.op == 'isinst':
                v, cls = t.args
                f.tr[t] = val
                clss = list(cls.items) if type(cls) is Tup else [cls]
                if type(v) is Ref:
                    return True
                inc, exc = f.ty.get(v, (None, frozenset()))
                if val:
                    names = frozenset(c.name.split('.')[-1] if c.name.startswith('builtins.') else c.name
                                      for c in clss if type(c) is Ext)
                    if len(names) == len(clss):
                        if inc is not None:
                            keep = frozenset(n for n in inc if any(
                                self.subclass(st, Ext('builtins.' + n if '.' not in n else n), c) for c in clss))
                            inc = keep or names
                        else:
                            inc = names
                        f.ty[v] = (inc, exc)
                else:
                    exc = exc | frozenset(clss)
                    if inc is not None:
                        inc = frozenset(n for n in inc if not any(
                            self.subclass(st, Ext('builtins.' + n if '.' not in n else n), c) for c in clss))
                        if not inc:
                            return False
                    f.ty[v] = (inc, exc)
                return True
            if t.op == 'is' and val and t.args[1] == NONE:
                f.ty[t.args[0]] = (frozenset(['NoneType']), frozenset())
        f.tr[t] = val
        return True

    def _recheck(self, st):
        for t, v in st.facts.tr.items():
            if v is False and type(t) is Op and t.op == 'eq0':
                lo, hi = st.facts.interval(t.args[0])
                if lo == hi == 0:
                    return False
        return True

    def branch(self, st, c, label=None):
        """ Split the state on a condition: [(state, bool)]. """
        if c is True or c is False:
            return [(st, c)]
        c = self.decide(st, c)
        if c is True or c is False:
            return [(st, c)]
        inner = c.args[0] if c.op == 'not' and type(c.args[0]) is Op else c
        if inner.op in ('lt0', 'eq0'):
            # conditions used as numbers
            for a in lin_parts(inner.args[0])[1]:
                if type(a) is Op and a.ty == 'bool' and st.facts.truth(a) is None:
                    return [x for s, v in self.branch(st, a) for x in self.branch(s, c)]
        out = []
        other = st.clone()
        for s, v in ((st, True), (other, False)):
            if self.assume(s, c, v) and not s.facts.dead:
                s.path = (s.path, (self.where(), c if v else Op('not', (c,), 'bool')))
                out.append((s, v))
        return out

    def branch_val(self, st, v):
        """ Split on the truth of a value, calling __bool__/__len__ if needed. """
        if type(v) is Ref and st.get(v).kind == 'inst':
            for name in ('__bool__', '__len__'):
                f, c = self.lookup(st, st.get(v).cls, name)
                if type(f) is Fn:
                    res = []
                    for s, sig, r in self.call(st, Bound(f, v), Call()):
                        if sig != 'v':
                            res.append((s, sig, r))
                        else:
                            res.extend((s2, 'v', b) for s2, b in self.branch(s, self.cond(s, r)))
                    return res
        return [(s, 'v', b) for s, b in self.branch(st, self.cond(st, v))]

    # -------------------------------------------------------------- equality
    def eq_cond(self, st, a, b):
        """ a == b as True/False/term (values without user __eq__). """
        f = st.facts
        if type(a) is Ref and type(b) is Ref:
            oa, ob = st.get(a), st.get(b)
            if a == b:
                return True
            if oa.kind == ob.kind == 'bytearray':
                return self.eq_cond(st, oa.data, ob.data)
            if oa.kind == ob.kind and oa.kind in ('list',) and \
                    self.m.plain_list(oa) and self.m.plain_list(ob):
                if len(oa.data) != len(ob.data):
                    return False
                return self.and_conds(st, [self.eq_cond(st, x, y) for x, y in zip(oa.data, ob.data)])
            if oa.kind == ob.kind == 'dict':
                return self.m.dict_eq(self, st, oa, ob)
            if oa.kind in ('list', 'dict', 'set', 'opaque') and oa.kind == ob.kind:
                return Op('eq', (a, b), 'bool')
            if 'opaque' in (oa.kind, ob.kind):
                return Op('eq', (a, b), 'bool')
            return False
        if type(a) is Ref and st.get(a).kind == 'bytearray':
            a = st.get(a).data
        if type(b) is Ref and st.get(b).kind == 'bytearray':
            b = st.get(b).data
        if a == b:
            return True
        a, b = f.simp(a), f.simp(b)
        ta, tb = f.typeof(a), f.typeof(b)
        num = ('int', 'bool')
        for x, y, ty in ((a, b, tb), (b, a, ta)):
            if type(x) is Desc and (type(y) is Desc or ty in num + ('float', 'str', 'bytes', 'NoneType')):
                return False        # descriptors are compared by identity
        if ta in num and tb in num:
            return self.decide(st, Op('eq0', (sub(a, b),), 'bool'))
        if type(a) is K and type(b) is K:
            try:
                return bool(a.v == b.v)
            except Exception:
                return False
        strl = ('bytes', 'bytearray', 'str')
        if ta in strl and tb in strl:
            if (ta == 'str') != (tb == 'str'):
                return False
            la, lb = bytes_len(a), bytes_len(b)
            c = self.decide(st, Op('eq0', (sub(la, lb),), 'bool'))
            if c is False:
                return False
            if is_int_const(f.simp(la)) and f.simp(la).v == 0 and c is True:
                return True
            if f.simp(la) == ZERO:
                return c
            if f.simp(lb) == ZERO:
                return c
            if ta != 'str' and c is True:
                va, vb = ube_value(segs_of(a)), ube_value(segs_of(b))
                if va is not None and vb is not None:
                    return self.decide(st, Op('eq0', (sub(va, vb),), 'bool'))
            r = compare_segs(f, segs_of(a), segs_of(b))
            if r == 'eq':
                return True
            return self.decide(st, Op('eq', (a, b), 'bool'))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return self.and_conds(st, [self.eq_cond(st, x, y) for x, y in zip(a.items, b.items)])
        if ta and tb and ta != tb and not ({ta, tb} <= {'int', 'bool', 'float'}):
            return False
        if type(a) in (Fn, Ext, Bound) and type(b) in (Fn, Ext, Bound, Ref, K):
            return False
        if (type(a) is Ref) != (type(b) is Ref):
            t1 = self.type_of(st, a)
            t2 = self.type_of(st, b)
            if t1 and t2:
                return False
        inc = f.ty.get(a, (None,))[0] or f.ty.get(b, (None,))[0]
        other = tb if f.ty.get(a, (None,))[0] else ta
        if inc and other and other not in inc and not ({other} | set(inc)) & {'int', 'float', 'bool'}:
            return False
        return self.decide(st, Op('eq', (a, b), 'bool'))

    def and_conds(self, st, cs):
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs):
            return False
        if not cs:
            return True
        if len(cs) == 1:
            return cs[0]
        return Op('all', tuple(cs), 'bool')

    def is_cond(self, st, a, b):
        if type(b) is not K and type(a) is K:
            a, b = b, a
        if a == b and type(a) not in (Bs, Tup, Lin):
            return True
        if type(b) is K and (b.v is None or isinstance(b.v, bool)):
            if type(a) is K:
                return a.v is b.v
            t = self.type_of(st, a)
            want = 'NoneType' if b.v is None else 'bool'
            if t is not None:
                if t.name.split('.')[-1] != want if type(t) is Ext else True:
                    return False
                if want == 'NoneType':
                    return True
                c = self.cond(st, a)
                if c is True or c is False:
                    return c == b.v
                return c if b.v else Op('not', (c,), 'bool')
            inc = st.facts.ty.get(a, (None, ()))[0]
            if inc is not None and want not in inc:
                return False
            return self.decide(st, Op('is', (a, b), 'bool'))
        if type(a) is Ref and type(b) is Ref:
            return a == b
        if type(a) in (Ref, Fn, Ext) and type(b) in (Ref, Fn, Ext):
            return a == b
        if type(a) is Ref or type(b) is Ref:
            x = b if type(a) is Ref else a
            if self.type_of(st, x) is not None:
                return False
        return self.decide(st, Op('is', (a, b), 'bool'))

    # ---------------------------------------------------------------- modules
    def find_module(self, name):
        base = os.path.join(self.root, *name.split('.'))
        for p in (os.path.join(base, '__init__.py'), base + '.py'):
            if os.path.isfile(p):
                return p
        return None

    def import_module(self, st, name):
        if name in self.modrefs:
            return self.modrefs[name]
        if name.split('.')[0] != self.package:
            return Ext(name)
        path = self.find_module(name)
        if path is None:
            raise AnalysisError('module %s not found in %s' % (name, self.root))
        if '.' in name:
            self.import_module(st, name.rsplit('.', 1)[0])
            if name in self.modrefs:
                return self.modrefs[name]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        self.sources[path] = src
        tree = desugar(ast.parse(src, path))
        self.trees[name] = tree
        ref = self.alloc(st, Obj('module', Ext('types.ModuleType'),
                                 {'__name__': K(name), '__file__': K(path), '__doc__': K(ast.get_docstring(tree))},
                                 info={'name': name, 'path': path}), 'module:' + name)
        self.modrefs[name] = ref
        fr = Frame(ref, None, 'module', qual=name)
        outs = self.block(tree.body, st, fr)
        good = [o for o in outs if o[1] == 'v']
        if len(good) != 1 or len(outs) != 1:
            raise AnalysisError('module %s: body has %d outcomes %s' % (
                name, len(outs), [(o[1], o[0].get(o[2]).attrs if o[1] == 'raise' else '', ) for o in outs if o[1] != 'v'][:3]))
        if good[0][0] is not st:
            # adopt the surviving state in place
            s = good[0][0]
            st.heap, st.frames, st.facts, st.events = s.heap, s.frames, s.facts, s.events
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            self.mut(st, self.modrefs[parent]).attrs[leaf] = ref
        return ref

    def load(self, *names):
        for n in names:
            self.import_module(self.st0, n)
        self.st0.events = None
        self.st0.path = None
        return self.st0

    def resolve(self, st, dotted):
        """ A value of the analysed package by dotted name, e.g.
            'ebmlite.core.Element'. Raises AnalysisError if it is gone. """
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = '.'.join(parts[:i])
            if m in self.modrefs or self.find_module(m):
                v = self.import_module(st, m)
                for p in parts[i:]:
                    outs = self.getattr_(st, v, p)
                    if len(outs) != 1 or outs[0][1] != 'v':
                        raise AnalysisError('anchor %s not found' % dotted)
                    v = outs[0][2]
                return v
        raise AnalysisError('anchor %s not found' % dotted)

    # -------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        outs = [(st, 'v', None)]
        for s in stmts:
            nxt = []
            for o in outs:
                if o[1] == 'v':
                    nxt.extend(self.stmt(s, o[0], fr))
                else:
                    nxt.append(o)
            outs = nxt
            if not any(o[1] == 'v' for o in outs):
                break
        return outs

    def stmt(self, n, st, fr):
        self.tick()
        self.cur = n
        self.curfn = fr.qual
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s' % (type(n).__name__, self.where()))
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        return [(s, sig, None if sig == 'v' else v) for s, sig, v in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [(st, 'v', None)]

    def s_Break(self, n, st, fr):
        return [(st, 'break', None)]

    def s_Continue(self, n, st, fr):
        return [(st, 'continue', None)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, 'return', NONE)]
        return [(s, 'return' if sig == 'v' else sig, v) for s, sig, v in self.ev(n.value, st, fr)]

    def s_Global(self, n, st, fr):
        if fr.kind != 'module':
            fr.globals_ = fr.globals_ | frozenset(n.names)
        return [(st, 'v', None)]

    def s_Nonlocal(self, n, st, fr):
        return [(st, 'v', None)]

    def s_Assign(self, n, st, fr):
        def go(s, v):
            outs = [(s, 'v', None)]
            for t in n.targets:
                outs = self.bind(outs, lambda s2, _: self.assign(t, v, s2, fr))
            return outs
        return self.bind(self.ev(n.value, st, fr), go)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, 'v', None)]
        return self.bind(self.ev(n.value, st, fr), lambda s, v: self.assign(n.target, v, s, fr))

    def s_AugAssign(self, n, st, fr):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            return self.bind(self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, fr),
                             lambda s, a: self.bind(self.ev(n.value, s, fr),
                                                    lambda s2, b: self.bind(self.binop(s2, op, a, b, inplace=True),
                                                                            lambda s3, r: self.assign(t, r, s3, fr))))
        if isinstance(t, ast.Attribute):
            def go(s, o):
                return self.bind(self.getattr_(s, o, t.attr), lambda s1, a: self.bind(
                    self.ev(n.value, s1, fr), lambda s2, b: self.bind(
                        self.binop(s2, op, a, b, inplace=True), lambda s3, r: self.setattr_(s3, o, t.attr, r))))
            return self.bind(self.ev(t.value, st, fr), go)
        if isinstance(t, ast.Subscript):
            def go(s, o):
                return self.bind(self.ev(t.slice, s, fr), lambda s0, i: self.bind(
                    self.getitem(s0, o, i), lambda s1, a: self.bind(
                        self.ev(n.value, s1, fr), lambda s2, b: self.bind(
                            self.binop(s2, op, a, b, inplace=True), lambda s3, r: self.setitem(s3, o, i, r)))))
            return self.bind(self.ev(t.value, st, fr), go)
        raise AnalysisError('augmented assignment target')

    def s_Delete(self, n, st, fr):
        outs = [(st, 'v', None)]
        for t in n.targets:
            outs = self.bind(outs, lambda s, _, t=t: self.delete(t, s, fr))
        return outs

    def delete(self, t, st, fr):
        if isinstance(t, ast.Name):
            st.frames.get(fr.fid, {}).pop(t.id, None)
            return [(st, 'v', None)]
        if isinstance(t, ast.Subscript):
            return self.bind(self.ev(t.value, st, fr), lambda s, o: self.bind(
                self.ev(t.slice, s, fr), lambda s2, i: self.m.delitem(self, s2, o, i)))
        if isinstance(t, ast.Attribute):
            def go(s, o):
                if type(o) is Ref and s.get(o).kind in ('inst', 'class'):
                    if t.attr in s.get(o).attrs:
                        self.mut(s, o, 'delattr', t.attr).attrs.pop(t.attr)
                        return ok(s, None)
                    return self.raise_(s, 'AttributeError', t.attr)
                s.ev('omut', o, 'delattr', self.where(), t.attr)
                return ok(s, None)
            return self.bind(self.ev(t.value, st, fr), go)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [(st, 'v', None)]
            for e in t.elts:
                outs = self.bind(outs, lambda s, _, e=e: self.delete(e, s, fr))
            return outs
        raise AnalysisError('del target')

    def s_If(self, n, st, fr):
        res = []
        for s, sig, v in self.test(n.test, st, fr):
            if sig != 'v':
                res.append((s, sig, v))
            else:
                res.extend(self.block(n.body if v else n.orelse, s, fr))
        return res

    def s_Assert(self, n, st, fr):
        res = []
        for s, sig, v in self.test(n.test, st, fr):
            if sig != 'v':
                res.append((s, sig, v))
            elif v:
                res.append((s, 'v', None))
            else:
                res.extend(self.raise_(s, 'AssertionError'))
        return res

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            if st.exc:
                return [(st, 'raise', st.exc[-1])]
            return self.raise_(st, 'RuntimeError', 'No active exception to reraise')

        def go(s, v):
            if type(v) is Ext or (type(v) is Ref and s.get(v).kind == 'class'):
                return [(s2, 'raise' if sig == 'v' else sig, self._at(s2, e, sig))
                        for s2, sig, e in self.call(s, v, Call())]
            return [(s, 'raise', self._at(s, v, 'v'))]
        outs = self.ev(n.exc, st, fr)
        if n.cause is not None:
            outs = self.bind(outs, lambda s, v: [(s2, sig, v if sig == 'v' else x)
                                                 for s2, sig, x in self.ev(n.cause, s, fr)])
        return self.bind(outs, go)

    def _at(self, s, v, sig):
        if sig == 'v' and type(v) is Ref and s.get(v).kind == 'inst':
            s.get(v).info.setdefault('at', self.where())
        return v

    def exc_match(self, st, e, cls):
        """ Does exception e match a handler's class: True/False/term """
        if type(cls) is Tup:
            rs = [self.exc_match(st, e, c) for c in cls.items]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            if not rs:
                return False
            return rs[0] if len(rs) == 1 else Op('isinst', (e, Tup([c for c in cls.items if self.exc_match(st, e, c) is not False])), 'bool')
        ec = self.type_of(st, e)
        if ec is None or type(cls) not in (Ref, Ext):
            return Op('isinst', (e, cls), 'bool')
        if type(cls) is Ext:
            cls = Ext(canon_ext(cls.name))
        r = self.subclass(st, ec, cls)
        if r is None:
            t = Op('isinst', (e, cls), 'bool')
            return st.facts.tr.get(t, t)
        return r

    def s_Try(self, n, st, fr, run=None):
        body = self.block(n.body, st, fr) if run is None else run(n.body, st)
        res = []
        for s, sig, v in body:
            if sig == 'v':
                res.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, sig, v)])
            elif sig == 'raise':
                res.extend(self.handlers(n, s, v, fr))
            else:
                res.append((s, sig, v))
        if not n.finalbody:
            return res
        out = []
        for s, sig, v in res:
            for s2, sig2, v2 in self.block(n.finalbody, s, fr):
                if sig2 == 'v':
                    out.append((s2, sig, v))
                else:
                    out.append((s2, sig2, v2))
        return out

    s_TryStar = s_Try

    def handlers(self, n, st, e, fr):
        res = []
        pend = [st]
        for h in n.handlers:
            if not pend:
                break
            nxt = []
            for s in pend:
                if h.type is None:
                    clss = [(s, 'v', Ext('builtins.BaseException'))]
                else:
                    clss = self.ev(h.type, s, fr)
                for s1, sig, cls in clss:
                    if sig != 'v':
                        res.append((s1, sig, cls))
                        continue
                    self.cur = h
                    for s2, b in self.branch(s1, self.exc_match(s1, e, cls)):
                        if b:
                            res.extend(self.run_handler(h, s2, e, fr))
                        else:
                            nxt.append(s2)
            pend = nxt
        res.extend((s, 'raise', e) for s in pend)
        return res

    def run_handler(self, h, st, e, fr):
        st.exc = st.exc + (e,)
        st.ev('caught', e, self.where())
        if h.name:
            self.setname(st, fr, h.name, e)
        out = []
        for s, sig, v in self.block(h.body, st, fr):
            s.exc = s.exc[:-1]
            if h.name:
                s.frames.get(fr.fid, {}).pop(h.name, None)
            if sig == 'raise' and type(v) is Ref and v != e and s.get(v).kind == 'inst':
                self.mut(s, v).info.setdefault('context', e)
            out.append((s, sig, v))
        return out

    def s_FunctionDef(self, n, st, fr):
        return self.bind(self.make_fn(n, st, fr), lambda s, f: self.decorate(n, s, fr, f))

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, n, st, fr):
        a = n.args
        name = getattr(n, 'name', '<lambda>')
        qual = ('%s.%s' % (fr.qual, name))
        nodes = [d for d in a.defaults] + [d for d in a.kw_defaults if d is not None]

        def go(s, vals):
            d = vals[:len(a.defaults)]
            kd = {}
            it = iter(vals[len(a.defaults):])
            for arg, dn in zip(a.kwonlyargs, a.kw_defaults):
                if dn is not None:
                    kd[arg.arg] = next(it)
            isgen = scope_info(n)[3]
            f = Fn(n, fr.mod, fr, tuple(d), kd, name, qual, isgen)
            return [(s, 'v', f)]
        return self.fold(st, nodes, go, lambda x, s: self.ev(x, s, fr))

    def decorate(self, n, st, fr, f):
        outs = [(st, 'v', f)]
        for d in reversed(n.decorator_list):
            def app(s, v, d=d):
                # name.setter / name.deleter / name.getter
                if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter') and isinstance(d.value, ast.Name):
                    for s1, sig, p in self.ev(d.value, s, fr):
                        if type(p) is Desc and p.kind == 'property':
                            parts = list(p.parts)
                            parts[{'getter': 0, 'setter': 1, 'deleter': 2}[d.attr]] = v
                            return [(s1, 'v', Desc('property', *parts))]
                return self.bind(self.ev(d, s, fr), lambda s1, dec: self.call(s1, dec, Call([v])))
            outs = self.bind(outs, app)
        return self.bind(outs, lambda s, v: self.setname(s, fr, n.name, v))

    def s_ClassDef(self, n, st, fr):
        def go(s, bases):
            cf = Frame(fr.mod, fr, 'class', qual='%s.%s' % (fr.qual, n.name))
            s.frames[cf.fid] = {'__qualname__': K(n.name), '__module__': s.get(fr.mod).attrs['__name__'],
                                '__doc__': K(ast.get_docstring(n))}

            def fin(s2, _):
                env = s2.frames.pop(cf.fid)
                ref = self.make_class(s2, n.name, bases, env, fr.mod, '%s.%s' % (fr.qual, n.name))
                for v in env.values():
                    for f in self.fns_in(v):
                        if f.owner is None:
                            f.owner = ref
                outs = [(s2, 'v', ref)]
                for d in reversed(n.decorator_list):
                    outs = self.bind(outs, lambda s3, v, d=d: self.bind(
                        self.ev(d, s3, fr), lambda s4, dec: self.call(s4, dec, Call([v]))))
                return self.bind(outs, lambda s3, v: self.setname(s3, fr, n.name, v))
            return self.bind(self.block(n.body, s, cf), fin)
        return self.fold(st, n.bases, go, lambda x, s: self.ev(x, s, fr))

    def fns_in(self, v):
        if type(v) is Fn:
            return [v]
        if type(v) is Desc:
            return [f for p in v.parts if isinstance(p, Term) for f in self.fns_in(p)]
        return []

    def s_Import(self, n, st, fr):
        for a in n.names:
            if a.asname:
                self.setname(st, fr, a.asname, self.import_module(st, a.name))
            else:
                self.import_module(st, a.name)
                top = a.name.split('.')[0]
                self.setname(st, fr, top, self.import_module(st, top))
        return [(st, 'v', None)]

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            pkg = st.get(fr.mod).info['name']
            if not st.get(fr.mod).info['path'].endswith('__init__.py'):
                pkg = pkg.rsplit('.', 1)[0]
            for _ in range(n.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = pkg + ('.' + base if base else '')
        m = self.import_module(st, base)
        for a in n.names:
            if a.name == '*':
                if type(m) is Ref:
                    attrs = st.get(m).attrs
                    names = [k for k in attrs if not k.startswith('_')]
                    al = attrs.get('__all__')
                    if type(al) is Ref:
                        names = [x.v for x in st.get(al).data if type(x) is K]
                    for k in names:
                        if k in attrs:
                            self.setname(st, fr, k, attrs[k])
                continue
            if type(m) is Ext:
                v = Ext(canon_ext('%s.%s' % (m.name, a.name)))
                am = self.attrmodels.get(v.name)
                if am is not None:
                    v = am(self, st)
                else:
                    o = pyobj(v.name)
                    if isinstance(o, (int, float, str, bytes)) and not isinstance(o, type):
                        v = K(o)
            else:
                attrs = st.get(m).attrs
                if a.name in attrs:
                    v = attrs[a.name]
                else:
                    sub_ = '%s.%s' % (base, a.name)
                    if self.find_module(sub_):
                        v = self.import_module(st, sub_)
                    else:
                        raise AnalysisError('cannot import %s from %s' % (a.name, base))
            self.setname(st, fr, a.asname or a.name, v)
        return [(st, 'v', None)]

    def s_With(self, n, st, fr):
        return self.with_items(n.items, n.body, st, fr, n)

    def with_items(self, items, body, st, fr, n):
        if not items:
            return self.block(body, st, fr)
        it = items[0]

        def enter(s, cm):
            def inner(s2, val):
                outs = [(s2, 'v', None)]
                if it.optional_vars is not None:
                    outs = self.assign(it.optional_vars, val, s2, fr)
                return self.bind(outs, lambda s3, _: self.with_items(items[1:], body, s3, fr, n))
            return self.with_cm(s, cm, inner)
        return self.bind(self.ev(it.context_expr, st, fr), enter)

    def with_cm(self, st, cm, inner):
        """ Run `inner(state, value)` under a context manager. """
        if type(cm) is Gen and cm.kind == 'ctxmgr':
            g = cm.parts[0]
            seen = []

            def handler(s, v):
                res = []
                for s2, sig, x in inner(s, v):
                    if sig == 'v':
                        res.append((s2, 'v', NONE))
                    elif sig == 'raise':
                        res.append((s2, 'raise', x))
                    else:
                        # leaves the block: generator resumes, then we leave
                        s2.ctx['leave'] = s2.ctx.get('leave', ()) + ((sig, x),)
                        res.append((s2, 'v', NONE))
                return res
            out = []
            n0 = len(st.ctx.get('leave', ()))
            for s, sig, x in self.run_gen(st, g, handler):
                lv = s.ctx.get('leave', ())
                if len(lv) > n0:
                    s.ctx['leave'] = lv[:n0]
                    if sig in ('v', 'return'):
                        out.append((s, lv[n0][0], lv[n0][1]))
                        continue
                out.append((s, 'v' if sig in ('v', 'return') else sig, None if sig in ('v', 'return') else x))
            return out
        if type(cm) is Gen and cm.kind == 'closing':
            def fin(s, sig, x):
                return [(s2, sig if g2 == 'v' else g2, x if g2 == 'v' else y)
                        for s2, g2, y in self.bind(self.getattr_(s, cm.parts[0], 'close'),
                                                   lambda s1, f: self.call(s1, f, Call()))]
            return [o for s, sig, x in inner(st, cm.parts[0]) for o in fin(s, sig, x)]
        if type(cm) is Gen and cm.kind == 'suppress':
            res = []
            for s, sig, x in inner(st, NONE):
                if sig == 'raise':
                    for s2, b in self.branch(s, self.exc_match(s, x, Tup(cm.parts))):
                        res.append((s2, 'v', None) if b else (s2, 'raise', x))
                else:
                    res.append((s, sig, x))
            return res
        if type(cm) is Gen and cm.kind == 'nullcontext':
            return inner(st, cm.parts[0])

        def go(s, v):
            res = []
            for s2, sig, x in inner(s, v):
                if sig == 'raise':
                    args = [self.type_of(s2, x) or NONE, x, NONE]
                else:
                    args = [NONE, NONE, NONE]
                for s3, sig3, r in self.bind(self.getattr_(s2, cm, '__exit__'),
                                             lambda s4, f: self.call(s4, f, Call(args))):
                    if sig3 != 'v':
                        res.append((s3, sig3, r))
                    elif sig == 'raise':
                        for s4, b in self.branch(s3, self.cond(s3, r)):
                            res.append((s4, 'v', None) if b else (s4, sig, x))
                    else:
                        res.append((s3, sig, x))
            return res
        return self.bind(self.bind(self.getattr_(st, cm, '__enter__'),
                                   lambda s, f: self.call(s, f, Call())), go)

    # ------------------------------------------------------------------- loops
    def s_While(self, n, st, fr):
        def step(s, i):
            res = []
            for s1, sig, v in self.test(n.test, s, fr):
                if sig != 'v':
                    res.append((s1, sig, v))
                elif not v:
                    res.append((s1, 'exit', None))
                else:
                    for s2, sig2, v2 in self.block(n.body, s1, fr):
                        res.append((s2, 'v' if sig2 == 'continue' else sig2, v2))
            return res
        return self.finish_loop(n, self.run_loop(st, step, n), fr)

    def s_For(self, n, st, fr):
        def go(s, it):
            if fr.gen is not None and type(it) is Ref and s.get(it).kind == 'inst' and has_yield(n):
                return self.bind(self.m.MODELS['builtins.iter'](self, s, Call([it])),
                                 lambda s1, it1: self.for_over(n, s1, it1, fr))
            return self.for_over(n, s, it, fr)
        return self.bind(self.ev(n.iter, st, fr), go)

    def for_over(self, n, s, it, fr, start=0):
        key = ('foriter', fr.fid, n) if fr.gen is not None and has_yield(n) else None
        if key:
            s.ctx[key] = (it, start)

        def handler(s1, v):
            if key:
                a, b = s1.ctx[key]
                s1.ctx[key] = (a, b + 1)
            outs = self.bind(self.assign(n.target, v, s1, fr), lambda s2, _: self.block(n.body, s2, fr))
            return [(s2, 'v' if sig == 'continue' else sig, x if sig != 'v' else NONE) for s2, sig, x in outs]
        res = []
        for s2, sig, v in self.iterate(s, it, handler, n):
            if key and sig != 'consumer':
                s2.ctx.pop(key, None)
            if sig == 'v':
                res.append((s2, 'exit', None))
            else:
                res.append((s2, sig, v))
        return self.finish_loop(n, res, fr)

    s_AsyncFor = s_For

    def finish_loop(self, n, outs, fr):
        res = []
        for s, sig, v in outs:
            if sig in ('exit', 'v'):
                res.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, 'v', None)])
            elif sig == 'break':
                res.append((s, 'v', None))
            else:
                res.append((s, sig, v))
        return res

    def run_loop(self, st, step, node, peel=None):
        """ step(state, index) -> outcomes; 'v' continues, 'exit' ends the loop. """
        peel = self.cfg.get('peel', self.PEEL) if peel is None else peel
        results = []
        frontier = [st]
        i = 0
        symbolic = 0
        cap = self.cfg.get('frontier', 48)
        while frontier:
            if symbolic > peel or i > self.MAX_UNROLL or len(frontier) > cap:
                for s in frontier:
                    results.extend(self.widen(s, step, node, i))
                return results
            nxt = []
            forked = False
            for s in frontier:
                outs = step(s, K(i))
                cont = [o for o in outs if o[1] == 'v']
                leave = [o for o in outs if o[1] != 'v']
                if cont and leave:
                    forked = True
                results.extend(leave)
                nxt.extend(o[0] for o in cont)
            if forked:
                symbolic += 1
            frontier = nxt
            i += 1
        return results

    def _snapshot(self, s):
        return {k: dict(v) for k, v in s.frames.items()}, dict(s.heap)

    def _diff(self, base_frames, base_heap, s):
        """ Keys modified in s relative to the snapshot. """
        mods = set()
        for fid, env in s.frames.items():
            b = base_frames.get(fid)
            if b is None:
                continue
            for k, v in env.items():
                if k not in b or b[k] != v:
                    mods.add(('var', fid, k))
        for oid, o in s.heap.items():
            b = base_heap.get(oid)
            if b is None or b is o:
                continue
            if not self._same(b.data, o.data):
                mods.add(('data', oid, None))
            for k, v in o.attrs.items():
                if k not in b.attrs or b.attrs[k] != v:
                    mods.add(('attr', oid, k))
            for k, v in o.info.items():
                if k in ('pos', 'closed', 'pending') and b.info.get(k) != v:
                    mods.add(('info', oid, k))
        return mods

    @staticmethod
    def _same(a, b):
        try:
            return a is b or a == b
        except Exception:
            return False

    def _read(self, s, key):
        kind, a, k = key
        if kind == 'var':
            return s.frames.get(a, {}).get(k)
        o = s.heap[a]
        if kind == 'data':
            return o.data
        if kind == 'attr':
            return o.attrs.get(k)
        return o.info.get(k)

    def _write(self, s, key, val):
        kind, a, k = key
        if kind == 'var':
            if val is None:
                s.frames[a].pop(k, None)
            else:
                s.frames[a][k] = val
            return
        o = s.heap[a] = s.heap[a].copy()
        if kind == 'data':
            o.data = val
        elif kind == 'attr':
            if val is None:
                o.attrs.pop(k, None)
            else:
                o.attrs[k] = val
        else:
            o.info[k] = val

    def widen(self, st, step, node, i):
        """ Analyse an arbitrary later iteration from a widened state. """
        self._loop_n += 1
        lid = 'L%d' % self._loop_n
        base = st
        bf, bh = self._snapshot(base)
        mods = {}
        idx = Sym('%s.i' % lid, 'int', free=False)
        probe = base.clone()
        outs = step(probe, K(i))
        backs = [o[0] for o in outs if o[1] == 'v']
        for rnd in range(5):
            new = set()
            for b in backs:
                new |= self._diff(bf, bh, b)
            fresh = new - set(mods)
            if not fresh and rnd:
                break
            for k in fresh:
                mods[k] = None
            if not mods:
                break
            # (re)choose placeholders, typed by entry and back-edge values
            for k in mods:
                entry = self._read(base, k)
                nexts = [self._read(b, k) for b in backs if k[0] == 'var' or k[1] in b.heap]
                mods[k] = self.placeholder(base, lid, k, entry, nexts, mods[k])
            h = base.clone()
            h.facts.restrict(idx, lo=i)
            for k, p in mods.items():
                self._write(h, k, p)
                e = self._read(base, k)
                if type(p) is Sym and p.ty == 'int' and e is not None:
                    self._mono(h, p, e, k, backs)
            outs = step(h.clone(), idx)
            backs = [o[0] for o in outs if o[1] == 'v']
        h = base.clone()
        h.facts.restrict(idx, lo=i)
        h.ctx['genwide'] = True
        for k, p in mods.items():
            self._write(h, k, p)
            e = self._read(base, k)
            if type(p) is Sym and p.ty == 'int' and e is not None:
                self._mono(h, p, e, k, backs)
        mark = h.events
        outs = step(h, idx)
        back = [o for o in outs if o[1] == 'v']
        leave = [o for o in outs if o[1] != 'v']
        meta = {'id': lid, 'node': node, 'where': self.where(), 'entry': {}, 'ph': dict(mods), 'next': {}, 'idx': idx,
                'events': [b[0].event_list(mark) for b in back], 'paths': [b[0].path_list() for b in back]}
        for k in mods:
            meta['entry'][k] = self._read(base, k)
            meta['next'][k] = [self._read(b[0], k) for b in back if k[0] == 'var' or k[1] in b[0].heap]
        self.loopmeta[lid] = meta
        for s, sig, v in leave:
            s.ev('loop', lid)
        return leave

    def _mono(self, h, p, entry, key, backs):
        """ A counter that only grows stays at or above its entry value. """
        if static_type(entry) != 'int' and h.facts.typeof(entry) != 'int':
            return
        up = True
        for b in backs:
            v = self._read(b, key)
            if v is None or b.facts.typeof(v) != 'int':
                return
            prev = p if p in atoms(v) else entry
            lo, hi = b.facts.interval(sub(v, prev))
            if lo < 0:
                up = False
        if up:
            h.facts.restrict(sub(p, entry), lo=0)
            elo, _ = h.facts.interval(entry)
            if elo != -INF:
                h.facts.restrict(p, lo=elo)

    def placeholder(self, st, lid, key, entry, nexts, old):
        name = '%s.%s' % (lid, key[2] if key[2] is not None else 'obj%s' % key[1])
        if key[0] == 'data':
            o = st.heap[key[1]]
            if o.kind in ('bytearray', 'stream') or isinstance(entry, (Bs, K)):
                text = static_type(entry) == 'str' if isinstance(entry, Term) else False
                t = Sym(name + '.content', 'str' if text else 'bytes', free=False)
                return mkbs([Seg('t', t, mklen(t))], text)
            if o.kind == 'list':
                return (Desc('rep', K(lid), K(key[1])),)
            if o.kind in ('dict', 'set'):
                return (entry or ()) + ((Desc('rep', K(lid), K(key[1])), NONE),) if entry is None or not any(
                    type(e[0]) is Desc and e[0].kind == 'rep' and e[0].parts[0] == K(lid) for e in entry) else entry
            return Desc('rep', K(lid), K(key[1]))
        vals = [v for v in [entry] + nexts if v is not None]
        tys = set()
        for v in vals:
            tys.add(st.facts.typeof(v) if isinstance(v, Term) else None)
        if entry is None and key[0] == 'var':
            # assigned only inside the loop
            if all(isinstance(v, Term) for v in nexts) and len(tys) == 1 and None not in tys:
                return Sym(name, tys.pop(), free=False)
            return Sym(name, None, free=False)
        ty = tys.pop() if len(tys) == 1 else None
        if tys and {ty} | tys <= {'int', 'bool'} and ty:
            ty = 'int'
        if ty == 'NoneType':
            return entry
        if isinstance(entry, bool) or entry is None and key[0] != 'var':
            return entry if entry is not None else Sym(name, ty, free=False)
        return Sym(name, ty, free=False)

    # ----------------------------------------------------------- iteration
    def iterate(self, st, it, handler, node=None):
        """ Run handler(state, item) for each item of an iterable. Outcomes of
            the handler other than 'v' end the iteration with that outcome.
            'v' outcomes of iterate mean exhaustion. """
        return self.m.iterate(self, st, it, handler, node)

    def run_gen(self, st, g, handler):
        """ Run a generator's body, calling handler at each yield. """
        if g.kind == 'fn':
            fn, env, qual = g.parts
            key = ('gen', g.uid)
            was = st.ctx.get(key)
            if was == 'done':
                if st.ctx.get('genwide'):
                    st.doubt('generator used again after a summarised loop')
                return [(st, 'v', NONE)]
            if self.depth(st, fn) > self.RECURSION + 3:
                st.doubt('recursive generator %s' % fn.qual)
                return [(st, 'v', NONE)]
            save = self.cur, self.curfn
            if was is not None:
                if st.ctx.get('genwide'):
                    st.doubt('generator resumed after a summarised loop')
                fr = copy.copy(was[0])
                fr.handler = handler
                path = yield_path(fn.node.body, was[1])
                if path is None:
                    raise AnalysisError('generator %s resumed in the middle of a statement' % fn.qual)
                st.stack = st.stack + ((fn.node, fr.fid),)
                outs = self.resume_block(fn.node.body, path, st, fr, was)
            else:
                fr = Frame(fn.mod, fn.fid, 'function', fn, fn.qual)
                loc, glo, nl, _ = scope_info(fn.node)
                fr.locals_, fr.globals_, fr.nonlocals_ = loc, glo, nl
                fr.handler = handler
                fr.gen = g.uid
                st.frames[fr.fid] = dict(env)
                st.stack = st.stack + ((fn.node, fr.fid),)
                outs = self.block(fn.node.body, st, fr)
            self.analysed.add(fn.qual)
            out = []
            for s, sig, v in outs:
                s.stack = s.stack[:-1]
                if sig != 'consumer':
                    s.ctx[key] = 'done'
                if sig == 'return':
                    out.append((s, 'v', v))
                elif sig == 'v':
                    out.append((s, 'v', NONE))
                else:
                    out.append((s, sig, v))
            self.cur, self.curfn = save
            return out
        raise AnalysisError('generator kind ' + g.kind)

    # A generator left by its consumer and used again goes on behind the
    # `yield` it was left at.
    def resume_block(self, stmts, path, st, fr, was):
        n = path[0]
        outs = self.resume_stmt(n, path[1:], st, fr, was)
        rest = stmts[stmts.index(n) + 1:]
        return self.bind(outs, lambda s, _: self.block(rest, s, fr))

    def resume_stmt(self, n, path, st, fr, was):
        self.tick()
        self.cur = n
        self.curfn = fr.qual
        if not path:
            if len(was) > 2:
                outs = self.iterate(st, was[2], lambda s, v: self.yielded(s, v, fr, was[1], was[2]), n)
            else:
                outs = ok(st, NONE)
            if type(n) is ast.Assign:
                for t in n.targets:
                    outs = self.bind(outs, lambda s, v, t=t: self.bind(
                        self.assign(t, NONE, s, fr), lambda s1, _: ok(s1, NONE)))
            return outs
        t = type(n)

        def inner(stmts, s):
            return self.resume_block(stmts, path, s, fr, was)
        if t is ast.If:
            return inner(n.body if path[0] in n.body else n.orelse, st)
        if t is ast.While:
            if path[0] in n.orelse:
                return inner(n.orelse, st)
            res = []
            for s, sig, v in inner(n.body, st):
                if sig in ('v', 'continue'):
                    res.extend(self.s_While(n, s, fr))
                else:
                    res.append((s, 'v' if sig == 'break' else sig, v))
            return res
        if t is ast.For:
            if path[0] in n.orelse:
                return inner(n.orelse, st)
            it = st.ctx.get(('foriter', fr.fid, n))
            if it is None:
                raise AnalysisError('generator resumed inside a loop')
            res = []
            for s, sig, v in inner(n.body, st):
                if sig in ('v', 'continue'):
                    it, cnt = s.ctx[('foriter', fr.fid, n)]
                    if type(it) is not Gen:
                        its = self.m.known_items(self, s, it)
                        if its is None:
                            raise AnalysisError('generator resumed inside a loop over unknown items')
                        it = Tup(its[cnt:])
                    res.extend(self.for_over(n, s, it, fr, cnt))
                else:
                    res.append((s, 'v' if sig == 'break' else sig, v))
            return res
        if t is ast.Try and not n.finalbody:
            if path[0] in n.body:
                return self.s_Try(n, st, fr, inner)
            if path[0] in n.orelse:
                return inner(n.orelse, st)
        raise AnalysisError('generator resumed inside %s' % t.__name__)

    def depth(self, st, fn):
        return sum(1 for n, _ in st.stack if n is fn.node)

    # ------------------------------------------------------------ assignment
    def setname(self, st, fr, name, v):
        if fr.kind == 'module' or name in fr.globals_:
            o = self.mut(st, fr.mod)
            if fr.kind != 'module':
                st.ev('mut', fr.mod, 'global', self.where(), name, o.attrs.get(name), v)
            o.attrs[name] = v
        elif name in fr.nonlocals_:
            p = fr.parent
            while p is not None and not (p.kind != 'class' and name in st.frames.get(p.fid, {})):
                p = p.parent
            if p is not None:
                st.frames[p.fid][name] = v
        elif fr.kind == 'comp' and name not in fr.locals_:
            p = fr.parent
            while p.kind == 'comp':
                p = p.parent
            return self.setname(st, p, name, v)
        else:
            st.frames.setdefault(fr.fid, {})[name] = v
        return [(st, 'v', None)]

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            return self.setname(st, fr, t.id, v)
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st, fr), lambda s, o: self.setattr_(s, o, t.attr, v))
        if isinstance(t, ast.Subscript):
            return self.bind(self.ev(t.value, st, fr), lambda s, o: self.bind(
                self.ev(t.slice, s, fr), lambda s2, i: self.setitem(s2, o, i, v)))
        if isinstance(t, (ast.Tuple, ast.List)):
            def spread(s, items):
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                outs = [(s, 'v', None)]
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    if len(items) < i + after:
                        return self.raise_(s, 'ValueError', 'not enough values to unpack')
                    mid = self.alloc(s, Obj('list', data=tuple(items[i:len(items) - after])))
                    vals = list(items[:i]) + [mid] + list(items[len(items) - after:])
                    tg = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
                else:
                    if len(items) != len(t.elts):
                        return self.raise_(s, 'ValueError', 'wrong number of values to unpack')
                    vals, tg = items, t.elts
                for e, x in zip(tg, vals):
                    outs = self.bind(outs, lambda s2, _, e=e, x=x: self.assign(e, x, s2, fr))
                return outs
            return self.bind(self.m.to_items(self, st, v, len(t.elts)), spread)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise AnalysisError('assignment target %s' % type(t).__name__)

    # ------------------------------------------------------------- expressions
    def test(self, n, st, fr):
        """ Evaluate a condition: outcomes with Python bools. """
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            outs = [(st, 'v', isand)]
            for x in n.values:
                nxt = []
                for s, sig, v in outs:
                    if sig == 'v' and v == isand:
                        nxt.extend(self.test(x, s, fr))
                    else:
                        nxt.append((s, sig, v))
                outs = nxt
            return outs
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, sig, (not v) if sig == 'v' else v) for s, sig, v in self.test(n.operand, st, fr)]
        return self.bind(self.ev(n, st, fr), lambda s, v: self.branch_val(s, v))

    def ev(self, n, st, fr):
        self.tick()
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s' % (type(n).__name__, self.where()))
        if hasattr(n, 'lineno'):
            self.cur = n
        self.curfn = fr.qual
        return m(n, st, fr)

    def x_Constant(self, n, st, fr):
        return [(st, 'v', K(n.value) if n.value is not Ellipsis else Ext('builtins.Ellipsis'))]

    def x_Name(self, n, st, fr):
        name = n.id
        f = fr
        first = True
        while f is not None and f.kind != 'module':
            if (first or f.kind != 'class') and name not in f.globals_:
                env = st.frames.get(f.fid)
                if env is not None and name in env:
                    return [(st, 'v', env[name])]
                if first and f.kind == 'function' and name in f.locals_:
                    return self.raise_(st, 'UnboundLocalError', name)
            if f.kind != 'comp':
                first = False
            f = f.parent
        g = st.get(fr.mod).attrs
        if name in g:
            return [(st, 'v', g[name])]
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if isinstance(o, (bool, int)) or o is None:
                return [(st, 'v', K(o))]
            return [(st, 'v', Ext(canon_ext('builtins.' + name)))]
        return self.raise_(st, 'NameError', name)

    def x_Tuple(self, n, st, fr):
        return self.elements(n.elts, st, fr, lambda s, vs: ok(s, Tup(vs)))

    def x_List(self, n, st, fr):
        return self.elements(n.elts, st, fr, lambda s, vs: ok(s, self.alloc(s, Obj('list', data=tuple(vs)))))

    def x_Set(self, n, st, fr):
        return self.elements(n.elts, st, fr, lambda s, vs: self.m.make_set(self, s, vs))

    def elements(self, elts, st, fr, f):
        def ev(x, s):
            if isinstance(x, ast.Starred):
                return self.bind(self.ev(x.value, s, fr), lambda s1, v: self.bind(
                    self.m.to_items(self, s1, v), lambda s2, its: ok(s2, ('star', its))))
            return self.ev(x, s, fr)

        def go(s, vals):
            out = []
            for v in vals:
                if isinstance(v, tuple) and v and v[0] == 'star':
                    out.extend(v[1])
                else:
                    out.append(v)
            return f(s, out)
        return self.fold(st, elts, go, ev)

    def x_Dict(self, n, st, fr):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)

        def go(s, vals):
            ref = self.alloc(s, Obj('dict', data=()))
            it = iter(vals)
            outs = [(s, 'v', None)]
            for k in n.keys:
                if k is None:
                    other = next(it)
                    outs = self.bind(outs, lambda s1, _, o=other: self.m.dict_update(self, s1, ref, o))
                else:
                    kk, vv = next(it), next(it)
                    outs = self.bind(outs, lambda s1, _, a=kk, b=vv: self.m.dict_set(self, s1, ref, a, b, quiet=True))
            return self.bind(outs, lambda s1, _: ok(s1, ref))
        return self.fold(st, nodes, go, lambda x, s: self.ev(x, s, fr))

    def x_Attribute(self, n, st, fr):
        def go(s, o):
            self.cur = n
            return self.getattr_(s, o, n.attr)
        return self.bind(self.ev(n.value, st, fr), go)

    def x_Subscript(self, n, st, fr):
        def go(s, o):
            return self.bind(self.ev(n.slice, s, fr), lambda s2, i: self._pos(n) or self.getitem(s2, o, i))
        return self.bind(self.ev(n.value, st, fr), go)

    def _pos(self, n):
        self.cur = n
        return None

    def x_Slice(self, n, st, fr):
        nodes = [x for x in (n.lower, n.upper, n.step) if x is not None]

        def go(s, vals):
            it = iter(vals)
            return ok(s, Desc('slice', *[next(it) if x is not None else NONE for x in (n.lower, n.upper, n.step)]))
        return self.fold(st, nodes, go, lambda x, s: self.ev(x, s, fr))

    def x_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def x_Lambda(self, n, st, fr):
        return self.make_fn(n, st, fr)

    def x_IfExp(self, n, st, fr):
        res = []
        for s, sig, v in self.test(n.test, st, fr):
            if sig != 'v':
                res.append((s, sig, v))
            else:
                res.extend(self.ev(n.body if v else n.orelse, s, fr))
        return res

    def x_NamedExpr(self, n, st, fr):
        return self.bind(self.ev(n.value, st, fr), lambda s, v: self.bind(
            self.assign(n.target, v, s, fr), lambda s2, _: ok(s2, v)))

    def x_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)

        def rec(nodes, s):
            if len(nodes) == 1:
                return self.ev(nodes[0], s, fr)

            def go(s1, v):
                res = []
                for s2, sig, b in self.branch_val(s1, v):
                    if sig != 'v':
                        res.append((s2, sig, b))
                    elif b == isand:
                        res.extend(rec(nodes[1:], s2))
                    else:
                        # a bool-typed value whose truth is now known
                        if s2.facts.typeof(v) == 'bool':
                            v2 = K(b)
                        elif not b and s2.facts.typeof(v) == 'int':
                            v2 = ZERO
                        else:
                            v2 = v
                        res.append((s2, 'v', v2))
                return res
            return self.bind(self.ev(nodes[0], s, fr), go)
        return rec(n.values, st)

    def x_UnaryOp(self, n, st, fr):
        op = type(n.op).__name__
        if op == 'Not':
            return [(s, sig, K(not v) if sig == 'v' else v) for s, sig, v in self.test(n.operand, st, fr)]

        def go(s, v):
            v = s.facts.simp(v)
            if type(v) is K and isinstance(v.v, (int, float)):
                return ok(s, K({'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[op](v.v)))
            t = s.facts.typeof(v)
            if t in ('int', 'bool'):
                if op == 'USub':
                    return ok(s, scale(v, -1))
                if op == 'UAdd':
                    return ok(s, v)
                return ok(s, sub(K(-1), v))
            if t in ('str', 'bytes', 'list', 'tuple', 'NoneType', 'dict'):
                return self.raise_(s, 'TypeError', 'bad operand type for unary')
            return ok(s, Op('unary' + op, (v,), t))
        return self.bind(self.ev(n.operand, st, fr), go)

    def x_BinOp(self, n, st, fr):
        op = type(n.op).__name__
        return self.bind(self.ev(n.left, st, fr), lambda s, a: self.bind(
            self.ev(n.right, s, fr), lambda s2, b: self._pos(n) or self.binop(s2, op, a, b)))

    def binop(self, st, op, a, b, inplace=False):
        return self.m.binop(self, st, op, a, b, inplace)

    def x_Compare(self, n, st, fr):
        def rec(s, left, ops, comps):
            def go(s1, right):
                outs = self.compare_op(s1, type(ops[0]).__name__, left, right)
                if len(ops) == 1:
                    return outs

                def cont(s2, v):
                    res = []
                    for s3, sig, b in self.branch_val(s2, v):
                        if sig != 'v':
                            res.append((s3, sig, b))
                        elif b:
                            res.extend(rec(s3, right, ops[1:], comps[1:]))
                        else:
                            res.append((s3, 'v', FALSE))
                    return res
                return self.bind(outs, cont)
            return self.bind(self.ev(comps[0], s, fr), go)
        return self.bind(self.ev(n.left, st, fr), lambda s, l: rec(s, l, n.ops, n.comparators))

    def condval(self, st, c):
        if c is True or c is False:
            return ok(st, K(c))
        return ok(st, c)

    def compare_op(self, st, op, a, b):
        f = st.facts
        if op in ('Is', 'IsNot'):
            c = self.is_cond(st, a, b)
            if op == 'IsNot':
                c = (not c) if c in (True, False) else self.decide(st, Op('not', (c,), 'bool'))
            return self.condval(st, c)
        if op in ('In', 'NotIn'):
            outs = self.m.contains(self, st, a, b)
            if op == 'In':
                return outs

            def neg(s, v):
                c = self.cond(s, v)
                return self.condval(s, (not c) if c in (True, False) else self.decide(s, Op('not', (c,), 'bool')))
            return self.bind(outs, neg)
        if op in ('Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                if type(x) is Ref and st.get(x).kind == 'inst':
                    fn, c = self.lookup(st, st.get(x).cls, '__eq__')
                    if type(fn) is Fn:
                        outs = self.call(st, Bound(fn, x), Call([y]))
                        if op == 'Eq':
                            return outs
                        return self.bind(outs, lambda s, v: self.condval(
                            s, (not self.cond(s, v)) if self.cond(s, v) in (True, False)
                            else Op('not', (self.cond(s, v),), 'bool')))
            c = self.eq_cond(st, a, b)
            if type(c) is Op and c.op == 'all':
                # split the conjunction
                res = []
                outs = [(st, True)]
                for x in c.args:
                    nxt = []
                    for s, v in outs:
                        if v:
                            nxt.extend(self.branch(s, x))
                        else:
                            nxt.append((s, v))
                    outs = nxt
                return [(s, 'v', K(v == (op == 'Eq'))) for s, v in outs]
            if op == 'NotEq':
                c = (not c) if c in (True, False) else self.decide(st, Op('not', (c,), 'bool'))
            return self.condval(st, c)
        # ordering
        a, b = f.simp(a), f.simp(b)
        if type(a) is K and type(b) is K:
            try:
                v = {'Lt': lambda: a.v < b.v, 'LtE': lambda: a.v <= b.v,
                     'Gt': lambda: a.v > b.v, 'GtE': lambda: a.v >= b.v}[op]()
                return ok(st, K(v))
            except TypeError as e:
                return self.raise_(st, 'TypeError', str(e))
        ta, tb = f.typeof(a), f.typeof(b)
        num = ('int', 'bool')
        if ta in num and tb in num:
            d = {'Lt': sub(a, b), 'Gt': sub(b, a), 'LtE': add(sub(a, b), K(-1)), 'GtE': add(sub(b, a), K(-1))}[op]
            return self.condval(st, self.decide(st, Op('lt0', (d,), 'bool')))
        if ta and tb and (ta in ('NoneType',) or tb in ('NoneType',) or
                          (ta in num + ('float',)) != (tb in num + ('float',))) and \
                not (ta.startswith('opaque') or tb.startswith('opaque')):
            return self.raise_(st, 'TypeError', 'ordering not supported')
        setl = [type(x) is Ref and st.get(x).kind in ('set', 'frozenset') for x in (a, b)]
        if all(setl):
            return self.m.set_compare(self, st, op, a, b)
        names = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__')}[op]
        for x, y, name in ((a, b, names[0]), (b, a, names[1])):
            if type(x) is Ref and st.get(x).kind == 'inst':
                fn, c = self.lookup(st, st.get(x).cls, name)
                if type(fn) is Fn:
                    return self.call(st, Bound(fn, x), Call([y]))
        plain = ('dict', 'list', 'set', 'frozenset', 'bytearray')
        ka, kb = (st.get(x).kind if type(x) is Ref else 'tuple' if type(x) is Tup else None for x in (a, b))
        prim = num + ('float', 'str', 'bytes')
        if ka == 'dict' and (kb in plain + ('tuple',) or tb in prim) or kb == 'dict' and (ka in plain + ('tuple',) or ta in prim) or \
                ka in plain + ('tuple',) and tb in num + ('float', 'str') or kb in plain + ('tuple',) and ta in num + ('float', 'str'):
            return self.raise_(st, 'TypeError', 'ordering not supported')
        flip = {'Gt': 'Lt', 'LtE': 'GtE'}
        if op == 'Gt':
            return self.condval(st, self.decide(st, Op('cmp', ('lt', b, a), 'bool')))
        if op == 'LtE':
            return self.condval(st, self.decide(st, Op('not', (Op('cmp', ('lt', b, a), 'bool'),), 'bool')))
        if op == 'Lt':
            return self.condval(st, self.decide(st, Op('cmp', ('lt', a, b), 'bool')))
        return self.condval(st, self.decide(st, Op('not', (Op('cmp', ('lt', a, b), 'bool'),), 'bool')))

    def x_JoinedStr(self, n, st, fr):
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]

        def go(s, vals):
            outs = [(s, 'v', ())]
            for v, node in zip(vals, n.values):
                if isinstance(node, ast.FormattedValue):
                    spec = ''
                    if node.format_spec is not None:
                        parts = node.format_spec.values
                        spec = ''.join(p.value for p in parts if isinstance(p, ast.Constant)) \
                            if all(isinstance(p, ast.Constant) for p in parts) else None
                    conv = chr(node.conversion) if node.conversion != -1 else ''
                    outs = self.bind(outs, lambda s1, acc, v=v, spec=spec, conv=conv: self.bind(
                        self.m.format_value(self, s1, v, spec, conv), lambda s2, t: ok(s2, acc + (t,))))
                else:
                    outs = self.bind(outs, lambda s1, acc, v=v: ok(s1, acc + (v,)))
            return self.bind(outs, lambda s1, acc: ok(s1, self.m.concat_text(acc)))
        return self.fold(st, nodes, go, lambda x, s: self.ev(x, s, fr))

    def x_FormattedValue(self, n, st, fr):
        return self.bind(self.ev(n.value, st, fr), lambda s, v: self.m.format_value(self, s, v, '', ''))

    # comprehensions ---------------------------------------------------------
    def comp(self, n, st, fr, emit):
        """ Run a comprehension's clauses; emit(state, frame) per element. """
        cf = Frame(fr.mod, fr, 'comp', fr.fn, fr.qual)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        cf.locals_ = frozenset(names)
        cf.handler = fr.handler
        st.frames[cf.fid] = {}

        def rec(s, gens):
            if not gens:
                return emit(s, cf)
            g = gens[0]

            def go(s1, it):
                def handler(s2, v):
                    outs = self.assign(g.target, v, s2, cf)

                    def filt(s3, _):
                        outs3 = [(s3, 'v', True)]
                        for c in g.ifs:
                            nxt = []
                            for s4, sig, b in outs3:
                                if sig == 'v' and b:
                                    nxt.extend(self.test(c, s4, cf))
                                else:
                                    nxt.append((s4, sig, b))
                            outs3 = nxt
                        res = []
                        for s4, sig, b in outs3:
                            if sig != 'v':
                                res.append((s4, sig, b))
                            elif b:
                                res.extend(rec(s4, gens[1:]))
                            else:
                                res.append((s4, 'v', NONE))
                        return res
                    return self.bind(outs, filt)
                return self.iterate(s1, it, handler, n)
            return self.bind(self.ev(g.iter, s, cf if gens is not n.generators else fr), go)
        return rec(st, n.generators)

    def x_ListComp(self, n, st, fr):
        ref = self.alloc(st, Obj('list', data=()))

        def emit(s, cf):
            return self.bind(self.ev(n.elt, s, cf), lambda s1, v: self.m.list_append(self, s1, ref, v, quiet=True))
        return self.bind(self.comp(n, st, fr, emit), lambda s, _: ok(s, ref))

    def x_SetComp(self, n, st, fr):
        ref = self.alloc(st, Obj('set', data=()))

        def emit(s, cf):
            return self.bind(self.ev(n.elt, s, cf), lambda s1, v: self.m.dict_set(self, s1, ref, v, NONE, quiet=True))
        return self.bind(self.comp(n, st, fr, emit), lambda s, _: ok(s, ref))

    def x_DictComp(self, n, st, fr):
        ref = self.alloc(st, Obj('dict', data=()))

        def emit(s, cf):
            return self.bind(self.ev(n.key, s, cf), lambda s1, k: self.bind(
                self.ev(n.value, s1, cf), lambda s2, v: self.m.dict_set(self, s2, ref, k, v, quiet=True)))
        return self.bind(self.comp(n, st, fr, emit), lambda s, _: ok(s, ref))

    def x_GeneratorExp(self, n, st, fr):
        # The first iterable is evaluated eagerly.
        return self.bind(self.ev(n.generators[0].iter, st, fr),
                         lambda s, it: ok(s, Gen('genexp', n, fr, it)))

    def run_genexp(self, st, g, handler):
        n, fr, it0 = g.parts
        cf = Frame(fr.mod, fr, 'comp', fr.fn, fr.qual)
        names = {x.id for gg in n.generators for x in ast.walk(gg.target) if isinstance(x, ast.Name)}
        cf.locals_ = frozenset(names)
        st.frames[cf.fid] = {}
        if fr.fid not in st.frames and fr.kind != 'module':
            st.doubt('generator expression outlives its frame')

        def rec(s, i):
            if i == len(n.generators):
                return self.bind(self.ev(n.elt, s, cf), handler)
            g_ = n.generators[i]

            def go(s1, it):
                def h(s2, v):
                    def filt(s3, _):
                        outs3 = [(s3, 'v', True)]
                        for c in g_.ifs:
                            nxt = []
                            for s4, sig, b in outs3:
                                if sig == 'v' and b:
                                    nxt.extend(self.test(c, s4, cf))
                                else:
                                    nxt.append((s4, sig, b))
                            outs3 = nxt
                        res = []
                        for s4, sig, b in outs3:
                            if sig != 'v':
                                res.append((s4, sig, b))
                            elif b:
                                res.extend(rec(s4, i + 1))
                            else:
                                res.append((s4, 'v', NONE))
                        return res
                    return self.bind(self.assign(g_.target, v, s2, cf), filt)
                return self.iterate(s1, it, h, n)
            if i == 0:
                return go(s, it0)
            return self.bind(self.ev(g_.iter, s, cf), go)
        return rec(st, 0)

    def x_Yield(self, n, st, fr):
        f = fr
        while f.kind == 'comp':
            f = f.parent
        outs = self.ev(n.value, st, fr) if n.value is not None else ok(st)
        if f.handler is None:
            raise AnalysisError('yield without a consumer at %s' % self.where())
        return self.bind(outs, lambda s, v: self.yielded(s, v, f, n))

    def yielded(self, s, v, f, n, src=None):
        save = self.cur, self.curfn
        res = []
        for s2, sig, x in f.handler(s, v):
            if sig == 'consumer' and f.gen is not None:
                s2.ctx[('gen', f.gen)] = (f, n) if src is None else (f, n, src)
            res.append((s2, sig, NONE if sig == 'v' else x))
        self.cur, self.curfn = save
        return res

    def x_YieldFrom(self, n, st, fr):
        f = fr
        while f.kind == 'comp':
            f = f.parent
        if f.handler is None:
            raise AnalysisError('yield without a consumer at %s' % self.where())

        def go(s, it):
            if type(it) is not Gen and f.gen is not None:
                return self.bind(self.m.MODELS['builtins.iter'](self, s, Call([it])), over)
            return over(s, it)

        def over(s, it):
            return self.iterate(s, it, lambda s1, v: self.yielded(s1, v, f, n, it), n)
        return self.bind(self.ev(n.value, st, fr), go)

    def x_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    # --------------------------------------------------------------- attributes
    def getattr_(self, st, o, name, default=None):
        c = type(o)
        if c is Ref:
            ob = st.get(o)
            if ob.kind == 'module':
                if name in ob.attrs:
                    return ok(st, ob.attrs[name])
                if name == '__dict__':
                    return ok(st, Op('dict', (o,), None))
                subm = '%s.%s' % (ob.info['name'], name)
                if self.find_module(subm):
                    return ok(st, self.import_module(st, subm))
                return self.raise_(st, 'AttributeError', name)
            if ob.kind == 'class':
                return self.class_getattr(st, o, name)
            if ob.kind == 'inst':
                return self.inst_getattr(st, o, name)
            return self.m.obj_getattr(self, st, o, ob, name)
        if c is Ext:
            return self.ext_getattr(st, o, name)
        if c is Desc:
            if o.kind == 'super':
                return self.super_getattr(st, o, name)
            if o.kind == 'property' and name in ('fget', 'fset', 'fdel'):
                return ok(st, o.parts[{'fget': 0, 'fset': 1, 'fdel': 2}[name]])
            if o.kind == 'property' and name in ('setter', 'getter', 'deleter'):
                return ok(st, Bound(Ext('builtins.property.' + name), o))
            if o.kind in ('staticmethod', 'classmethod') and name == '__func__':
                return ok(st, o.parts[0])
            return self.m.desc_getattr(self, st, o, name)
        if c is Fn:
            if name == '__name__':
                return ok(st, K(o.name))
            if name == '__doc__':
                return ok(st, K(ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None))
            if name == '__qualname__':
                return ok(st, K(o.qual))
            key = ('fnattr', o.uid, name)
            if key in st.ctx:
                return ok(st, st.ctx[key])
            return self.raise_(st, 'AttributeError', name)
        if c is Bound and name in ('__self__', '__func__'):
            return ok(st, o.self if name == '__self__' else o.fn)
        return self.m.value_getattr(self, st, o, name)

    def bind_desc(self, st, v, obj, cls):
        """ Descriptor protocol for a value found on a class. """
        if type(v) is Fn:
            return ok(st, v if obj is None else Bound(v, obj))
        if type(v) is Desc:
            if v.kind == 'staticmethod':
                return ok(st, v.parts[0])
            if v.kind == 'classmethod':
                return ok(st, Bound(v.parts[0], cls))
            if v.kind in ('ctxfactory', 'memo') and obj is not None:
                return ok(st, Bound(v, obj))
            if v.kind == 'property':
                if obj is None:
                    return ok(st, v)
                if v.parts[0] == NONE:
                    return self.raise_(st, 'AttributeError', 'unreadable attribute')
                return self.call(st, v.parts[0], Call([obj]))
            if v.kind == 'cached_property':
                if obj is None:
                    return ok(st, v)
                nm = v.parts[0].name
                return self.bind(self.call(st, v.parts[0], Call([obj])), lambda s, r: (
                    self.mut(s, obj, 'setattr', nm, r).attrs.__setitem__(nm, r) or ok(s, r)))
        if type(v) is Ref and obj is not None and st.get(v).kind == 'inst':
            g, _ = self.lookup(st, st.get(v).cls, '__get__')
            if type(g) is Fn:
                return self.call(st, Bound(g, v), Call([obj, cls]))
        if type(v) is Ext and obj is not None and not isinstance(pyobj(v.name), type):
            return ok(st, Bound(v, obj))
        return ok(st, v)

    def inst_getattr(self, st, o, name):
        ob = st.get(o)
        v, c = self.lookup(st, ob.cls, name)
        if type(v) is Desc and v.kind == 'slot':
            if name in ob.attrs:
                return ok(st, ob.attrs[name])
            return self.raise_(st, 'AttributeError', name)
        if type(v) is Desc and v.kind == 'property':
            return self.bind_desc(st, v, o, ob.cls)
        if name in ob.attrs:
            return ok(st, ob.attrs[name])
        if name == '__class__':
            return ok(st, ob.cls)
        if name == '__dict__':
            return ok(st, Op('instdict', (o,), None))
        if v is not None:
            if type(v) is Ext and (type(c) is Ext):
                r = self.m.ext_inst_attr(self, st, o, ob, name, v)
                if r is not None:
                    return r
            return self.bind_desc(st, v, o, ob.cls)
        if ob.info.get('opaque'):
            return ok(st, Op('attr', (o, name), None))
        g, _ = self.lookup(st, ob.cls, '__getattr__')
        if type(g) is Fn:
            return self.call(st, Bound(g, o), Call([K(name)]))
        return self.raise_(st, 'AttributeError', name)

    def class_getattr(self, st, o, name):
        ob = st.get(o)
        if name == '__name__' or name == '__qualname__':
            return ok(st, K(ob.info['name']))
        if name == '__mro__':
            return ok(st, Tup(ob.info['mro']))
        if name == '__bases__':
            return ok(st, Tup(ob.info['bases']))
        if name == '__class__':
            return ok(st, Ext('builtins.type'))
        if name == '__dict__':
            return ok(st, Op('classdict', (o,), None))
        if name == 'mro' or name == '__subclasses__':
            return ok(st, Bound(Ext('builtins.type.' + name), o))
        v, c = self.lookup(st, o, name)
        if v is None:
            return self.raise_(st, 'AttributeError', name)
        return self.bind_desc(st, v, None, o)

    def super_getattr(self, st, o, name):
        cls, obj = o.parts
        start = obj
        if type(obj) is Ref and st.get(obj).kind == 'class':
            v, c = self.lookup(st, obj, name, after=cls)
            if v is None:
                return self.raise_(st, 'AttributeError', name)
            if type(v) is Desc and v.kind == 'classmethod':
                return ok(st, Bound(v.parts[0], obj))
            return self.bind_desc(st, v, None, obj)
        ocls = self.type_of(st, obj)
        v, c = self.lookup(st, ocls, name, after=cls)
        if v is None:
            return self.raise_(st, 'AttributeError', name)
        if type(v) is Desc and v.kind == 'slot':
            a = st.get(obj).attrs
            return ok(st, a[name]) if name in a else self.raise_(st, 'AttributeError', name)
        return self.bind_desc(st, v, obj, ocls)

    def ext_getattr(self, st, o, name):
        q = canon_ext('%s.%s' % (o.name, name))
        am = self.attrmodels.get(q)
        if am is not None:
            return ok(st, am(self, st))
        v = pyobj(q)
        if v is None:
            po = pyobj(o.name)
            if po is not None and not hasattr(po, name):
                if name in ('__name__',):
                    return ok(st, K(o.name.split('.')[-1]))
                return self.raise_(st, 'AttributeError', name)
            return ok(st, Ext(q))
        if isinstance(v, (int, float, str, bytes)) and not isinstance(v, type):
            return ok(st, K(v))
        if q.endswith('.__name__'):
            return ok(st, K(getattr(v, '__name__', v)))
        return ok(st, Ext(q))

    def setattr_(self, st, o, name, v):
        if type(o) is Ref:
            ob = st.get(o)
            if ob.kind == 'inst':
                d, c = self.lookup(st, ob.cls, name)
                if type(d) is Desc and d.kind == 'property':
                    if len(d.parts) < 2 or d.parts[1] == NONE:
                        return self.raise_(st, 'AttributeError', "can't set attribute %s" % name)
                    return [(s, sig, None if sig == 'v' else x)
                            for s, sig, x in self.call(st, d.parts[1], Call([o, v]))]
                sa, _ = self.lookup(st, ob.cls, '__setattr__')
                if type(sa) is Fn:
                    return [(s, sig, None if sig == 'v' else x)
                            for s, sig, x in self.call(st, Bound(sa, o), Call([K(name), v]))]
                if not (type(d) is Desc and d.kind == 'slot') and not self.has_dict(st, ob.cls):
                    return self.raise_(st, 'AttributeError', 'attribute %r is read-only or missing' % name)
                self.mut(st, o, 'setattr', name, v).attrs[name] = v
                return ok(st, None)
            if ob.kind in ('class', 'module'):
                old = ob.attrs.get(name)
                self.mut(st, o, 'setattr', name, v, old).attrs[name] = v
                return ok(st, None)
            return self.m.obj_setattr(self, st, o, ob, name, v)
        if type(o) is Fn:
            st.ev('mutfn', o, 'setattr', self.where(), name)
            st.ctx[('fnattr', o.uid, name)] = v
            return ok(st, None)
        st.ev('omut', o, 'setattr', self.where(), name, v)
        if type(o) is Ext:
            st.doubt('attribute %s of %s set' % (name, o.name))
        return ok(st, None)

    # ------------------------------------------------------------------- items
    def getitem(self, st, o, i):
        if type(o) is Ref and st.get(o).kind == 'inst':
            f, c = self.lookup(st, st.get(o).cls, '__getitem__')
            if f is not None:
                return self.call(st, Bound(f, o) if type(f) is Fn else Bound(f, o), Call([i]))
        return self.m.getitem(self, st, o, i)

    def setitem(self, st, o, i, v):
        if type(o) is Ref and st.get(o).kind == 'inst':
            f, c = self.lookup(st, st.get(o).cls, '__setitem__')
            if type(f) is Fn:
                return [(s, sig, None if sig == 'v' else x)
                        for s, sig, x in self.call(st, Bound(f, o), Call([i, v]))]
        return self.m.setitem(self, st, o, i, v)

    # ------------------------------------------------------------------- calls
    def x_Call(self, n, st, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and (f.kind == 'comp' or f.fn is None or f.fn.owner is None) and f.parent:
                f = f.parent
            if f is not None and f.fn is not None and f.fn.owner is not None:
                first = f.fn.node.args.args[0].arg if f.fn.node.args.args else None
                obj = st.frames.get(f.fid, {}).get(first)
                return ok(st, Desc('super', f.fn.owner, obj))

        def after_fn(s, f):
            def ev(x, s1):
                if isinstance(x, ast.Starred):
                    return [(s2, sig, ('star', v) if sig == 'v' else v) for s2, sig, v in self.ev(x.value, s1, fr)]
                if isinstance(x, ast.keyword):
                    return [(s2, sig, ('kw', x.arg, v) if sig == 'v' else v) for s2, sig, v in self.ev(x.value, s1, fr)]
                return self.ev(x, s1, fr)

            def go(s1, vals):
                outs = [(s1, 'v', Call())]
                for v in vals:
                    if isinstance(v, tuple) and v[0] == 'star':
                        outs = self.bind(outs, lambda s2, c, v=v: self._add_star(s2, c, v[1]))
                    elif isinstance(v, tuple) and v[0] == 'kw':
                        if v[1] is None:
                            outs = self.bind(outs, lambda s2, c, v=v: self._add_dstar(s2, c, v[2]))
                        else:
                            outs = self.bind(outs, lambda s2, c, v=v: ok(s2, Call(c.args, dict(c.kw, **{v[1]: v[2]}), c.star, c.dstar)))
                    else:
                        outs = self.bind(outs, lambda s2, c, v=v: ok(s2, Call(c.args + [v], c.kw, c.star, c.dstar)))

                def final(s2, c):
                    self.cur = n
                    self.curfn = fr.qual
                    return self.call(s2, f, c, fr)
                return self.bind(outs, final)
            return self.fold(s, list(n.args) + list(n.keywords), go, ev)
        return self.bind(self.ev(n.func, st, fr), after_fn)

    def _add_star(self, st, c, v):
        items = self.m.known_items(self, st, v)
        if items is not None:
            return ok(st, Call(c.args + list(items), c.kw, c.star, c.dstar))
        if type(v) is Gen or (type(v) is Ref and st.get(v).kind in ('list', 'set', 'dict', 'inst')):
            return self.bind(self.m.to_items(self, st, v), lambda s, its: ok(
                s, Call(c.args + list(its), c.kw, c.star, c.dstar)))
        return ok(st, Call(c.args, c.kw, v, c.dstar))

    def _add_dstar(self, st, c, v):
        if type(v) is Ref and st.get(v).kind == 'dict':
            kw = dict(c.kw)
            for k, x in st.get(v).data:
                if type(k) is K:
                    kw[k.v] = x
                else:
                    return ok(st, Call(c.args, c.kw, c.star, v))
            return ok(st, Call(c.args, kw, c.star, c.dstar))
        return ok(st, Call(c.args, c.kw, c.star, v))

    def call(self, st, f, c, fr=None):
        self.tick()
        t = type(f)
        if t is Fn:
            return self.call_fn(st, f, c)
        if t is Bound:
            return self.call(st, f.fn, Call([f.self] + c.args, c.kw, c.star, c.dstar), fr)
        if t is Ext:
            return self.call_ext(st, f, c)
        if t is Desc:
            if f.kind == 'partial':
                return self.call(st, f.parts[0], Call(list(f.parts[1]) + c.args, dict(f.parts[2], **c.kw), c.star, c.dstar), fr)
            if f.kind in ('staticmethod',):
                return self.call(st, f.parts[0], c, fr)
            return self.m.call_desc(self, st, f, c)
        if t is Ref:
            ob = st.get(f)
            if ob.kind == 'class':
                return self.instantiate(st, f, c)
            if ob.kind == 'inst':
                g, _ = self.lookup(st, ob.cls, '__call__')
                if g is not None:
                    return self.call(st, Bound(g, f), c, fr)
            if ob.kind in ('opaque', 'ext'):
                return self.m.call_opaque(self, st, f, c)
        return self.m.call_opaque(self, st, f, c)

    def instantiate(self, st, cls, c):
        new, nc = self.lookup(st, cls, '__new__')
        exts = [x for x in self.mro(st, cls) if type(x) is Ext]
        o = Obj('inst', cls)
        ref = self.alloc(st, o, self.class_name(st, cls))
        if type(new) is Desc and new.kind == 'staticmethod':
            new = new.parts[0]
        if type(new) is Fn:
            st.doubt('user-defined __new__')
        if any(x.name == 'builtins.BaseException' for x in exts):
            o.attrs['args'] = Tup(c.args)
        meta = self.m.special_base(self, st, ref, cls, exts, c)
        if meta is not None:
            return meta
        init, ic = self.lookup(st, cls, '__init__')
        if type(init) is Fn:
            res = []
            for s, sig, v in self.call(st, Bound(init, ref), c):
                res.append((s, sig, ref if sig == 'v' else v))
            return res
        if type(init) is Ext and init.name != 'builtins.object.__init__':
            res = []
            for s, sig, v in self.call(st, Bound(init, ref), c):
                res.append((s, sig, ref if sig == 'v' else v))
            return res
        if (c.args or c.kw) and not any(x.name == 'builtins.BaseException' for x in exts):
            return self.raise_(st, 'TypeError', 'takes no arguments')
        return ok(st, ref)

    def bind_args(self, st, f, c):
        """ Bind call arguments to parameter names: dict or an error string. """
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(c.args)
        for name, v in zip(pos, args):
            env[name] = v
        extra = args[len(pos):]
        if a.vararg:
            if c.star is not None and not extra:
                env[a.vararg.arg] = c.star
            else:
                env[a.vararg.arg] = Tup(extra)
        elif extra:
            return 'too many positional arguments'
        elif c.star is not None:
            for i, name in enumerate(pos[len(args):]):
                if name not in c.kw:
                    env[name] = Op('item', (c.star, K(i)), None)
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        kws = {}
        for k, v in c.kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in env and not (c.star is not None):
                    return 'multiple values for argument %s' % k
                env[k] = v
            elif a.kwarg:
                kws[k] = v
            else:
                return 'unexpected keyword argument %s' % k
        if c.dstar is not None and not a.kwarg:
            for name in pos + kwonly:
                if name not in env:
                    env[name] = Op('kwget', (c.dstar, name), None)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env:
                j = i - (len(pos) - nd)
                if j < 0:
                    return 'missing argument %s' % name
                env[name] = f.defaults[j]
        for name in kwonly:
            if name not in env:
                if name not in f.kwdefaults:
                    return 'missing argument %s' % name
                env[name] = f.kwdefaults[name]
        if a.kwarg:
            if c.dstar is not None and not kws:
                env[a.kwarg.arg] = c.dstar
            else:
                env[a.kwarg.arg] = self.alloc(st, Obj('dict', data=tuple((K(k), v) for k, v in kws.items())))
        return env

    def call_fn(self, st, f, c):
        env = self.bind_args(st, f, c)
        if isinstance(env, str):
            return self.raise_(st, 'TypeError', '%s(): %s' % (f.name, env))
        site = self.where()
        hook = self.hooks.get(f.qual)
        if hook is not None:
            r = hook(self, st, f, env, site)
            if r is not None:
                return r
        d = self.depth(st, f)
        limit = self.cfg.get('recursion', self.RECURSION)
        if d > limit and not f.isgen:
            st.ev('rec', f.qual, dict(env), site)
            r = self.cfg.get('rec')
            if r is not None:
                out = r(self, st, f, env, site)
                if out is not None:
                    return out
            st.doubt('recursive call of %s summarised' % f.qual)
            return ok(st, Op('rec:' + f.qual, tuple(v for v in env.values()), None))
        st.ev('call', f.qual, dict(env), site)
        if f.isgen:
            return ok(st, Gen('fn', f, env, f.qual))
        return self.run_fn(st, f, env)

    def run_fn(self, st, f, env):
        self.analysed.add(f.qual)
        fr = Frame(f.mod, f.fid, 'function', f, f.qual)
        loc, glo, nl, _ = scope_info(f.node)
        fr.locals_, fr.globals_, fr.nonlocals_ = loc, glo, nl
        st.frames[fr.fid] = env
        st.stack = st.stack + ((f.node, fr.fid),)
        if len(st.stack) > 60:
            raise Budget('call depth')
        save = self.cur, self.curfn
        if isinstance(f.node, ast.Lambda):
            outs = [(s, 'return' if sig == 'v' else sig, v) for s, sig, v in self.ev(f.node.body, st, fr)]
        else:
            outs = self.block(f.node.body, st, fr)
        res = []
        keep = has_closure(f.node)
        for s, sig, v in outs:
            s.stack = s.stack[:-1]
            if not keep:
                s.frames.pop(fr.fid, None)
            if sig == 'v':
                res.append((s, 'v', NONE))
            elif sig == 'return':
                res.append((s, 'v', v))
            else:
                res.append((s, sig, v))
        self.cur, self.curfn = save
        return self.merge(res)

    def merge(self, outs):
        """ Join outcomes that differ only in facts (keeps partitions small). """
        if len(outs) < 2:
            return outs
        groups = {}
        res = []
        for s, sig, v in outs:
            try:
                key = (sig, v, s.events, id(s.events), tuple(sorted((k, id(o)) for k, o in s.heap.items())),
                       len(s.frames), s.stack, s.unsure, s.exc)
                key = (sig, v, id(s.events), hash(key[4]), len(s.frames), s.stack, s.unsure, s.exc)
                fkey = tuple(sorted((k, hash(tuple(env.items()))) for k, env in s.frames.items()))
            except TypeError:
                res.append((s, sig, v))
                continue
            g = groups.setdefault((key, fkey), [])
            g.append((s, sig, v))
        for g in groups.values():
            s, sig, v = g[0]
            for s2, _, _ in g[1:]:
                f, f2 = s.facts, s2.facts
                iv = {}
                for k in f.iv:
                    if k in f2.iv:
                        a, b = f.iv[k], f2.iv[k]
                        iv[k] = (min(a[0], b[0]), max(a[1], b[1]))
                f.iv = iv
                f.tr = {k: x for k, x in f.tr.items() if f2.tr.get(k) == x}
                f.ty = {k: x for k, x in f.ty.items() if f2.ty.get(k) == x}
            res.append((s, sig, v))
        return res

    def call_ext(self, st, f, c):
        name = canon_ext(f.name)
        m = self.models.get(name)
        if m is None:
            return self.m.call_unknown(self, st, name, c)
        fault = self.cfg.get('may_raise') and 'faulted' not in st.ctx and self.cfg['may_raise'](name, c, st)
        if fault:
            s2 = st.clone()
            s2.ctx['faulted'] = TRUE
            if isinstance(fault, str):
                r = self.raise_(s2, fault, 'raised by ' + name)
                e = r[0][2]
            else:
                e = self.opaque_exc(s2, 'any.Exception', 'raised by ' + name)
                r = [(s2, 'raise', e)]
            s2.ev('fault', name, e, self.where())
            s2.path = (s2.path, (self.where(), Op('raises', (name,), 'bool')))
            return m(self, st, c) + r
        return m(self, st, c)
