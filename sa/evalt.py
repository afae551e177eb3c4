"""Evaluation of value-number terms at a representative: leaves get a value from an oracle, everything else follows.
Values: float/int, bool, list of 3 (vector), list of 3 lists (matrix), any other Python object for pointers (None = null)."""
import math
from terms import *
class Unknown(Exception): pass
INF = float('inf')
def _isv(x): return isinstance(x, list) and x and not isinstance(x[0], list)
def _ism(x): return isinstance(x, list) and x and isinstance(x[0], list)
def vadd(a, b):
    if _ism(a) and _ism(b): return [vadd(x, y) for x, y in zip(a, b)]
    if _isv(a) and _isv(b): return [x + y for x, y in zip(a, b)]
    if isinstance(a, list) and b == 0: return a
    if isinstance(b, list) and a == 0: return b
    if isinstance(a, list) or isinstance(b, list): raise Unknown('sum of different shapes')
    return a + b
def vmul(a, b):
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if not isinstance(a, list) and not isinstance(b, list):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)): raise Unknown('product of non-numbers')
        return a * b
    if not isinstance(a, list): return [vmul(a, x) for x in b]
    if not isinstance(b, list): return [vmul(x, b) for x in a]
    if _ism(a) and _ism(b): return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    if _ism(a) and _isv(b): return [sum(a[i][k] * b[k] for k in range(3)) for i in range(3)]
    raise Unknown('product of vectors')
def minv(m):
    c = lambda i, j: m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]
    d = sum(m[0][j] * c(0, j) for j in range(3))
    return [[c(j, i) / d for j in range(3)] for i in range(3)]
def norm(v): return math.sqrt(sum(x * x for x in v))
def flat(v): return v if _isv(v) else [x for r in v for x in r]
class Eval:
    def __init__(self, oracle): self.o = oracle; self.memo = {}
    def __call__(self, t):
        if t.id in self.memo: 
            r = self.memo[t.id]
            if isinstance(r, Unknown): raise r
            return r
        try: r = self.ev(t)
        except Unknown as x: self.memo[t.id] = x; raise
        self.memo[t.id] = r
        return r
    def maybe(self, t):
        try: return self(t)
        except Unknown: return None
    def truth(self, t):
        v = self(t)
        return bool(v) if isinstance(v, (bool, int, float)) else v is not None
    def ev(self, t):
        r = self.o(t)
        if r is not NotImplemented: return r
        op, a = t.op, t.args
        if op == 'c':
            x = a[0]; return int(x) if x == int(x) else float(x)
        if op == 'true': return True
        if op == 'false': return False
        if op == 'null': return None
        if op == 'newobj': return t
        if op == 'poly':
            s = None
            for c, m in a:
                p = int(c) if c == int(c) else float(c)
                for y in sorted(m, key=lambda y: y.kind != 's'): p = vmul(p, self(y))
                s = p if s is None else vadd(s, p)
            return s
        if op == 'and':
            u = None
            for x in a:
                try:
                    if not self.truth(x): return False
                except Unknown as e: u = e
            if u: raise u
            return True
        if op == 'or':
            u = None
            for x in a:
                try:
                    if self.truth(x): return True
                except Unknown as e: u = e
            if u: raise u
            return False
        if op == 'not': return not self.truth(a[0])
        if op == 'nn': return self.truth(a[0])
        if op in ('lt0', 'le0', 'eq0'):
            x = self(a[0])
            if not isinstance(x, (int, float)): raise Unknown('comparison of a non-number')
            return x < 0 if op == 'lt0' else x <= 0 if op == 'le0' else x == 0
        if op == 'same': return self(a[0]) == self(a[1])
        if op == 'ite': return self(a[1] if self.truth(a[0]) else a[2])
        if op == 'vec3': return [self(x) for x in a]
        if op == 'comp':
            i = a[1]; v = self(a[0])
            if isinstance(i, Term) and i.op == 'ij': return v[int(self(i.args[0]))][int(self(i.args[1]))]
            k = self(i) if isinstance(i, Term) else i
            if not _isv(v): raise Unknown('component')
            return v[int(k)]
        if op == 'upd':
            v = self(a[0]); v = [0, 0, 0] if v == 0 else list(v); i = a[1]
            if i.op == 'ij':
                v = [list(r) for r in v]; v[int(self(i.args[0]))][int(self(i.args[1]))] = self(a[2]); return v
            if i.op == 'part': raise Unknown('part')
            v[int(self(i))] = self(a[2]); return v
        if op == 'mul': return vmul(self.mat(a[0]), self.mat(a[1]))
        if op == 'transpose':
            m = self.mat(a[0]); return [[m[j][i] for j in range(3)] for i in range(3)]
        if op == 'inv':
            x = self(a[0])
            if _ism(x): return minv(x)
            if x == 0: raise Unknown('division by zero')
            return 1. / x
        if op == 'dot': return sum(x * y for x, y in zip(self(a[0]), self(a[1])))
        if op == 'cross':
            u, v = self(a[0]), self(a[1]); return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        if op == 'normalized':
            v = self(a[0]); n = norm(v)
            if n == 0: raise Unknown('direction of zero')
            return [x / n for x in v]
        if op == 'addr' or op == 'ld' and a[0].op == 'addr': return self(a[0])
        if op in ('&', '|', '^') and len(a) == 2: return self.bit(op, self(a[0]), self(a[1]))
        if op == 'app': return self.app(t, a[0], a[1:])
        raise Unknown(show(t)[:120])
    def bit(self, o, x, y): return x & y if o == '&' else x | y if o == '|' else x ^ y
    def mat(self, t):
        if t.kind == 'q': return self.rot(t)
        return self(t)
    def rot(self, q):
        if q.op == 'app' and q.args[0] in ('e.conjugate', 'e.inverse'):
            m = self.rot(q.args[1]); return [[m[j][i] for j in range(3)] for i in range(3)]
        if q.op == 'app' and q.args[0] == 'qmul': return vmul(self.rot(q.args[1]), self.rot(q.args[2]))
        if q.op == 'app' and q.args[0] == 'Identity': return [[float(i == j) for j in range(3)] for i in range(3)]
        if q.op == 'normalized': return self.rot(q.args[0])
        if q.op == 'ite': return self.rot(q.args[1] if self.truth(q.args[0]) else q.args[2])
        return self(q)
    def app(self, t, f, a):
        n = f[2:] if f.startswith('e.') else f.split('::')[-1]
        if n in ('min', 'max') and len(a) == 2: return (min if n == 'min' else max)(self(a[0]), self(a[1]))
        if n in ('cwiseMin', 'cwiseMax'): return [(min if n == 'cwiseMin' else max)(x, y) for x, y in zip(self(a[0]), self(a[1]))]
        if n == 'toRotationMatrix': return self.rot(a[0])
        if n == 'infinity': return INF
        if n in ('abs', 'fabs', 'cwiseAbs'):
            x = self(a[0]); return [abs(y) for y in x] if _isv(x) else [[abs(y) for y in r] for r in x] if _ism(x) else abs(x)
        if n in ('floor', 'ceil', 'sqrt', 'round'): 
            x = self(a[0])
            if n == 'sqrt' and x < 0: raise Unknown('root of a negative number')
            return getattr(math, n)(x) if n != 'round' else math.floor(x + .5)
        if n == 'trunc' or n == 'int': return math.trunc(self(a[0]))
        if n == 'isinf': return math.isinf(self(a[0]))
        if n == 'isnan': return math.isnan(self(a[0]))
        if n in ('minCoeff', 'maxCoeff'): return (min if n == 'minCoeff' else max)(flat(self(a[0])))
        if n == 'sum': return sum(flat(self(a[0])))
        if n == 'norm': return norm(flat(self(a[0])))
        if n == 'squaredNorm': return norm(flat(self(a[0]))) ** 2
        if n in ('row', 'col'):
            m = self(a[0]); k = int(self(a[1])); return list(m[k]) if n == 'row' else [m[i][k] for i in range(3)]
        if n == 'inverse': 
            return minv(self(a[0]))
        if n == 'cwiseProduct': return [x * y for x, y in zip(self(a[0]), self(a[1]))]
        if n == 'cwiseQuotient': return [x / y for x, y in zip(self(a[0]), self(a[1]))]
        if n == 'cast' or n == 'eval': return self(a[0])
        if n == 'Zero': return [0, 0, 0] if t.kind == 'v' else 0
        if n == 'Ones': return [1, 1, 1]
        if n in ('&', '|', '^') and len(a) == 2: return self.bit(n, self(a[0]), self(a[1]))
        raise Unknown(show(t)[:120])
