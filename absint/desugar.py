""" match statements, rewritten as chains of if statements. """

import ast

SEQ = ('list', 'tuple')


class Match(ast.NodeTransformer):
    """ Patterns become tests; captures become assignments within them. """

    def __init__(self):
        self.n = 0

    def visit_Match(self, n):
        self.generic_visit(n)
        self.n += 1
        tmp = '__match_%d' % self.n
        out = [ast.Assign([ast.Name(tmp, ast.Store())], n.subject)]
        chain = []
        for case in reversed(n.cases):
            t = self.conj(self.tests(case.pattern, ast.Name(tmp, ast.Load())) + ([case.guard] if case.guard else []))
            chain = [ast.If(t, case.body, chain)]
        for x in out + chain:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out + chain

    def conj(self, ts):
        return ast.Constant(True) if not ts else ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts)

    def bound(self, name, value):
        # a list of one item is true
        return ast.List([ast.NamedExpr(ast.Name(name, ast.Store()), value)], ast.Load())

    def call(self, f, *args):
        return ast.Call(ast.Name(f, ast.Load()), list(args), [])

    def tests(self, p, x):
        """ The conditions under which x matches. """
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(x, [ast.Eq()], [p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(x, [ast.Is()], [ast.Constant(p.value)])]
        if isinstance(p, ast.MatchAs):
            return (self.tests(p.pattern, x) if p.pattern else []) + ([self.bound(p.name, x)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            return [ast.BoolOp(ast.Or(), [self.conj(self.tests(q, x)) for q in p.patterns])]
        if isinstance(p, ast.MatchSequence):
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            k = len(p.patterns)
            size = self.call('len', x)
            out = [self.call('isinstance', x, ast.Tuple([ast.Name(s, ast.Load()) for s in SEQ], ast.Load())),
                   ast.Compare(size, [ast.GtE() if stars else ast.Eq()], [ast.Constant(k - len(stars))])]
            for i, q in enumerate(p.patterns):
                at = i if not stars or i < stars[0] else i - k
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        end = ast.Constant(i - k + 1) if i < k - 1 else None
                        out.append(self.bound(q.name, self.call('list', ast.Subscript(x, ast.Slice(ast.Constant(i), end, None), ast.Load()))))
                else:
                    out += self.tests(q, ast.Subscript(x, ast.Constant(at), ast.Load()))
            return out
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            out = [self.call('isinstance', x, ast.Name('dict', ast.Load()))]
            for k, q in zip(p.keys, p.patterns):
                out.append(ast.Compare(k, [ast.In()], [x]))
                out += self.tests(q, ast.Subscript(x, k, ast.Load()))
            return out
        if isinstance(p, ast.MatchClass) and len(p.patterns) <= 1:
            out = [self.call('isinstance', x, p.cls)]
            for q in p.patterns:
                # of built-in types, the value itself
                out += self.tests(q, x)
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                out.append(self.call('hasattr', x, ast.Constant(a)))
                out += self.tests(q, ast.Attribute(x, a, ast.Load()))
            return out
        return [ast.Name('__unsupported_pattern__', ast.Load())]


def desugar(tree):
    return Match().visit(tree)
