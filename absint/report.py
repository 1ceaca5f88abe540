""" Obligations, verdicts and evidence of a check. """

import ast
import json
import os
import time
import traceback

from .interp import AnalysisError, Budget, Call
from . import models as M
from .scen import World, attr
from .terms import (Term, atoms, K, Sym, Op, Lin, Tup, Ref, Ext, Bs, NONE, compare, sub, static_type, Fn, Bound)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# operators whose outcome is free even for partly known data
FREE = {'byte', 'tbyte', 'len', 'lt0', 'eq0', 'not', 'and', 'or'}


def guessed(st):
    """ A condition assumed on this path about the result of a library function
        on structured data (partly known text): either outcome may be
        impossible, so nothing on this path is a definite violation. """
    for _, c in st.path_list():
        if isinstance(c, Term):
            for a in atoms(c):
                if widened(a):
                    return c
                if type(a) is Op and a.op not in FREE and not (a.op in ('decodable', 'encodable') and loose(a.args[0])) and any(structured(x) for x in a.args):
                    return c
    return None


def widened(t):
    """ Text that several rounds of a loop built up, of which only the kind is known. """
    if type(t) is Sym:
        return static_type(t) in ('str', 'bytes') and t.name[:1] == 'L' and t.name[1:].split('.', 1)[0].isdigit()
    if type(t) is Op:
        return t.op != 'len' and any(widened(x) for x in t.args)
    if type(t) is Tup:
        return any(widened(x) for x in t.items)
    if type(t) is Bs:
        return any(s.kind == 't' and widened(s.a[0]) for s in t.segs)
    return False


def loose(x):
    """ Data some part of which is entirely unconstrained. """
    return type(x) is Bs and any(s.kind == 't' and type(s.a[0]) is Sym or s.kind == 'rd' and type(s.a[0]) is not Op
                                 for s in x.segs)


def structured(x):
    if type(x) is Bs:
        return any(s.kind == 'lit' for s in x.segs) and len(x.segs) > 1 or any(
            s.kind == 't' and structured(s.a[0]) for s in x.segs)
    if type(x) is Op:
        return x.op == 'b64lines' or any(structured(y) for y in x.args)
    if type(x) is Tup:
        return any(structured(y) for y in x.items)
    return False


class Stop(Exception):
    """ A scenario ends early (its remaining obligations are not generated). """


class Check:
    def __init__(self, pid, root='/repo', tier='quick', seed=1, verbose=False):
        self.pid, self.root, self.tier, self.seed, self.verbose = pid, root, tier, seed, verbose
        self.thorough = tier == 'thorough'
        self.obs = []           # (scenario, name, status, where, detail)
        self.violations = {}    # key -> record
        self.errors = []        # scenarios that could not be analysed
        self.scenarios = 0
        self.analysed = set()
        self.paths = 0
        self.t0 = time.time()
        self._worlds = {}
        self.steps = 0
        self.rules = {}
        self.budget = 240000 if tier != 'thorough' else 1000000

    def world(self, tools=False):
        if tools not in self._worlds:
            self._worlds[tools] = World(self.root, tools)
        return self._worlds[tools]

    def probe(self, tools=False):
        """ A scenario for looking at the program before deciding what to run. """
        return Scenario(self, 'probe', self.world(tools))

    def scenario(self, name, fn, *args, tools=False, **kw):
        """ Run one scenario; errors of the analysis leave it undecided. """
        w = self.world(tools)
        self.scenarios += 1
        t = time.time() - self.t0
        if t > (300 if self.violations else 600) and not self.thorough:
            self.note(name, 'scenario', 'undecided', '', 'time limit')
            return
        for concrete in (False, True):
            script, runs, err, refinable = [], 0, None, False
            while err is None and runs < 64:
                w.ip.hooks.clear()
                s = Scenario(self, name, w)
                s.concrete, s.script = concrete, script
                w.ip.max_steps = w.ip.MAX_STEPS if concrete else self.budget
                runs += 1
                err = self.attempt(s, fn, args, kw)
                refinable = s.refinable
                # next combination of the outcomes setup steps may have
                script = s.taken
                while script and script[-1][0] + 1 >= script[-1][1]:
                    script.pop()
                if not script:
                    break
                script[-1] = (script[-1][0] + 1, script[-1][1])
            if err is None:
                break
            # the symbolic layout was too coarse: refine it to constants
            self.errors.append((name + (' (refined)' if concrete else ''), err))
            if not refinable or concrete:
                self.note(name, 'scenario', 'undecided', '', err)
                break

    def attempt(self, s, fn, args, kw):
        """ One run of a scenario: None, or why it could not be analysed. """
        w = s.w
        try:
            fn(s, *args, **kw)
        except Stop:
            pass
        except (AnalysisError, Budget, RecursionError) as e:
            if isinstance(e, Budget) and not s.concrete:
                self.budget = max(60000, self.budget // 2)
            return '%s: %s' % (type(e).__name__, e)
        except Exception as e:          # a gap of the interpreter: no verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if self.verbose:
                traceback.print_exc(limit=-4)
            return '%s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        finally:
            self.analysed |= w.ip.analysed
            self.steps += w.ip.steps
        return None

    def note(self, scen, name, status, where='', detail=''):
        self.obs.append((scen, name, status, where, detail))
        if self.verbose and status != 'holds':
            print('  [%s] %s / %s  %s  %s' % (status, scen, name, where, detail))

    def count(self, status):
        return sum(1 for o in self.obs if o[2] == status)


class Scenario:
    concrete = False
    refinable = False

    def __init__(self, check, name, w):
        self.c, self.name, self.w, self.ip = check, name, w, w.ip
        self.script, self.taken = [], []

    def pick(self, outs, what):
        """ One of the normal outcomes of a setup step; the scenario is run
            again for each of the others. """
        good = [(st, v) for st, sig, v in outs if sig == 'v' and not st.facts.empty()]
        if not good:
            raise AnalysisError('%s: no normal outcome, got %s' % (what, [o[1:] for o in outs][:4]))
        i = len(self.taken)
        k = self.script[i][0] if i < len(self.script) else 0
        self.taken.append((k, len(good)))
        return good[min(k, len(good) - 1)]

    def fresh(self, **cfg):
        return self.w.fresh(**cfg)

    @property
    def thorough(self):
        return self.c.thorough

    # ------------------------------------------------------------- running
    def call(self, st, f, *args, **kw):
        if isinstance(f, str):
            f = self.ip.resolve(st, f)
        outs = self.ip.call(st, f, Call(list(args), kw))
        self.c.paths += len(outs)
        return outs

    def method(self, st, o, name, *args, **kw):
        outs = self.ip.bind(self.ip.getattr_(st, o, name), lambda s, f: self.ip.call(s, f, Call(list(args), kw)))
        self.c.paths += len(outs)
        return outs

    def get(self, st, o, name):
        outs = self.ip.getattr_(st, o, name)
        self.c.paths += len(outs)
        return outs

    def listof(self, st, it):
        """ list(it): outcomes whose value is a list reference. """
        return self.call(st, Ext('builtins.list'), it)

    def items(self, st, v):
        """ Python list of the elements of an abstract list/tuple, or None. """
        return self.ip.m.known_items(self.ip, st, v)

    # ------------------------------------------------------------ verdicts
    def holds(self, st, name, where=''):
        self.c.note(self.name, name, 'holds', where)

    def undecided(self, st, name, where='', why=''):
        self.c.note(self.name, name, 'undecided', where, why)

    def violated(self, st, name, where, why):
        """ A definite violation on a path without analysis doubts. """
        if st is not None and st.unsure:
            return self.undecided(st, name, where, 'doubt: %s; would be: %s' % ('; '.join(st.unsure), why))
        if st is not None and st.facts.empty():
            return
        if st is not None:
            c = guessed(st)
            if c is not None:
                return self.undecided(st, name, where, 'on a path whose condition the domain cannot decide: %r; would be: %s'
                                      % (c, why))
        self.c.note(self.name, name, 'violated', where, why)
        key = '%s|%s' % (name, where)
        if key not in self.c.violations:
            self.c.violations[key] = {
                'rule': name, 'construct': where, 'scenario': self.name, 'why': why,
                'location': self.locate(where),
                'path': ['%s: %r' % p for p in st.path_list()] if st is not None else [],
                'facts': st.facts.describe(40) if st is not None else [],
            }

    def locate(self, dotted):
        """ file:line of a dotted function or method name. """
        name = dotted.split(':')[0].split(' ')[0]
        parts = name.split('.')
        for i in range(len(parts), 0, -1):
            for p in (os.path.join(self.c.root, *parts[:i]) + '.py', os.path.join(self.c.root, *(parts[:i] + ['__init__.py']))):
                if os.path.isfile(p):
                    body = ast.parse(open(p).read()).body
                    line = 1
                    for part in parts[i:]:
                        for n in body:
                            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                                line, body = n.lineno, n.body
                                break
                    if ':' in dotted:
                        tail = dotted.split(':')[1].split(' ')[0]
                        if tail.isdigit():
                            line = int(tail)
                    return '%s:%d' % (os.path.relpath(p, self.c.root), line)
        return ''

    def eq(self, st, got, want, name, where, what=''):
        """ got and want are the same value on this path. """
        r = self.same(st, got, want)
        if r == 'eq':
            self.holds(st, name, where)
        elif r == 'ne':
            self.violated(st, name, where, '%s is %s, expected %s' % (what or 'value', self.show(st, got), self.show(st, want)))
        else:
            self.undecided(st, name, where, '%s is %s, expected %s' % (what or 'value', self.show(st, got), self.show(st, want)))
        return r

    def same(self, st, a, b):
        """ Structural comparison of abstract values, looking into containers. """
        ip = self.ip
        if type(a) is Ref and type(b) is Ref and a == b:
            return 'eq'
        ka = st.get(a).kind if type(a) is Ref else None
        kb = st.get(b).kind if type(b) is Ref else None
        if ka == 'bytearray':
            a, ka = st.get(a).data, None
        if kb == 'bytearray':
            b, kb = st.get(b).data, None
        if (ka in ('list',) or type(a) is Tup) and (kb in ('list',) or type(b) is Tup):
            x, y = self.items(st, a), self.items(st, b)
            if x is None or y is None:
                return 'unk'
            if len(x) != len(y):
                return 'ne'
            rs = [self.same(st, p, q) for p, q in zip(x, y)]
            return 'ne' if 'ne' in rs else 'unk' if 'unk' in rs else 'eq'
        if ka == 'dict' and kb == 'dict':
            x, y = st.get(a).data, st.get(b).data
            if any(type(k) is not K for k, _ in x + y):
                return 'unk'
            dx, dy = dict(x), dict(y)
            if set(dx) != set(dy):
                return 'ne'
            rs = [self.same(st, dx[k], dy[k]) for k in dx]
            return 'ne' if 'ne' in rs else 'unk' if 'unk' in rs else 'eq'
        if ka or kb:
            if ka == 'opaque' or kb == 'opaque':
                return 'unk'
            return 'ne'
        ua, ub = M.dt_us(st, a), M.dt_us(st, b)
        if ua is not None and ub is not None:
            return compare(st.facts, ua, ub)
        return compare(st.facts, a, b)

    def show(self, st, v):
        if type(v) is Ref:
            o = st.get(v)
            if o.kind == 'bytearray':
                return 'bytearray %r' % (o.data,)
            if o.kind == 'list':
                return '[%s]' % ', '.join(self.show(st, x) for x in o.data)
            if o.kind == 'dict':
                return '{%s}' % ', '.join('%r: %s' % (k, self.show(st, x)) for k, x in o.data)
        return repr(v)

    def true(self, st, ok, name, where, why=''):
        """ ok is True (holds), False (violated) or None (undecided). """
        if ok is True:
            self.holds(st, name, where)
        elif ok is False:
            self.violated(st, name, where, why)
        else:
            self.undecided(st, name, where, why)

    def cond(self, st, c):
        """ Whether a condition term holds on this path: True/False/None. """
        r = self.ip.decide(st, c) if c is not True and c is not False else c
        return r if r is True or r is False else None

    # ------------------------------------------------------------ outcomes
    def exc_name(self, st, v):
        try:
            return self.ip.class_name(st, self.ip.type_of(st, v))
        except Exception:
            return None

    def is_exc(self, st, v, name):
        """ Whether an exception is an instance of a named class: True/False/None. """
        cls = Ext(name if '.' in name else 'builtins.' + name)
        r = self.ip.isinst(st, v, cls)
        return r if r is True or r is False else None

    def exc_text(self, st, v):
        a = st.get(v).attrs.get('args') if type(v) is Ref else None
        return '%s(%s)' % (self.exc_name(st, v), ', '.join(map(repr, a.items)) if type(a) is Tup else '')

    def normal(self, outs, name, where):
        """ The normal outcomes; each raising one violates the obligation. """
        good = []
        for st, sig, v in outs:
            if sig == 'v':
                good.append((st, v))
            elif sig == 'raise':
                self.violated(st, name + ': does not raise', where, 'raises %s' % self.exc_text(st, v))
            else:
                self.undecided(st, name, where, 'outcome %s' % sig)
        return good

    def normal_all(self, outs, name, where):
        """ Every outcome is normal. """
        for st, v in self.normal(outs, name, where):
            self.holds(st, name, where)
        if not outs:
            self.undecided(None, name, where, 'no outcome')

    def raises(self, outs, exc, name, where):
        """ Every outcome raises the given class. """
        for st, sig, v in outs:
            if sig == 'raise':
                r = self.is_exc(st, v, exc)
                self.true(st, r, name, where, 'raises %s, expected %s' % (self.exc_text(st, v), exc))
            else:
                self.violated(st, name, where, 'returns %s, expected %s' % (self.show(st, v), exc))
        if not outs:
            self.undecided(None, name, where, 'no outcome')
