"""Component-wise normal forms of small vector / matrix / rotation terms: every entry becomes a polynomial over scalar leaves, so two
spellings of the same linear algebra (products re-associated, outer products, rotations by quaternion or by its matrix, loops
over components) get the same value number.  Unknown operators stay leaves."""
from terms import *
from math import isqrt
from fractions import Fraction
R3 = range(3)
def _bin(a, b, f): return [f(x, y) for x, y in zip(a, b)]
class Val:
    __slots__ = ('k', 'e')
    def __init__(s, k, e): s.k = k; s.e = e       # k: s scalar, v column, r row, m matrix
    def map(s, f):
        if s.k == 's': return Val('s', f(s.e))
        if s.k in 'vr': return Val(s.k, [f(x) for x in s.e])
        return Val('m', [[f(x) for x in r] for r in s.e])
    def flat(s):
        if s.k == 's': return [s.e]
        if s.k in 'vr': return list(s.e)
        return [x for r in s.e for x in r]
def zero(k): return Val(k, ZERO if k == 's' else [ZERO] * 3 if k in 'vr' else [[ZERO] * 3 for _ in R3])
def T(v): return Val({'v': 'r', 'r': 'v', 's': 's', 'm': 'm'}[v.k], v.e if v.k != 'm' else [[v.e[j][i] for j in R3] for i in R3])
def plus(a, b):
    if a.k != b.k:
        if a.k == 's' and a.e is ZERO: return b
        if b.k == 's' and b.e is ZERO: return a
        if {a.k, b.k} == {'v', 'r'}: return Val('v', _bin(a.e, b.e, add))       # three components either way (a vector product of rows)
        raise Shape('sum of %s and %s' % (a.k, b.k))
    if a.k == 's': return Val('s', add(a.e, b.e))
    if a.k in 'vr': return Val(a.k, _bin(a.e, b.e, add))
    return Val('m', [_bin(x, y, add) for x, y in zip(a.e, b.e)])
class Shape(Exception): pass
def sumof(ts):
    r = ZERO
    for t in ts: r = add(r, t)
    return r
def prod(a, b):
    ka, kb = a.k, b.k
    if ka == 's': return b.map(lambda x: mul(a.e, x))
    if kb == 's': return a.map(lambda x: mul(x, b.e))
    if ka == 'm' and kb == 'm': return Val('m', [[sumof(mul(a.e[i][k], b.e[k][j]) for k in R3) for j in R3] for i in R3])
    if ka == 'm' and kb == 'v': return Val('v', [sumof(mul(a.e[i][k], b.e[k]) for k in R3) for i in R3])
    if ka == 'r' and kb == 'm': return Val('r', [sumof(mul(a.e[k], b.e[k][j]) for k in R3) for j in R3])
    if ka == 'v' and kb == 'r': return Val('m', [[mul(a.e[i], b.e[j]) for j in R3] for i in R3])
    if ka == 'r' and kb == 'v': return Val('s', sumof(mul(x, y) for x, y in zip(a.e, b.e)))
    raise Shape('product of %s and %s' % (ka, kb))
def mcross(a, b):
    x, y = a.e, b.e
    return Val('v', [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))])
def mdet(m):
    e = m.e
    return sumof(mul(e[0][i], sub(mul(e[1][(i + 1) % 3], e[2][(i + 2) % 3]), mul(e[1][(i + 2) % 3], e[2][(i + 1) % 3]))) for i in R3)
def leaf(t, k):
    if k == 's': return Val('s', t)
    if k == 'v': return Val('v', [mk('comp', t, const(i)) for i in R3])
    return Val('m', [[mk('comp', t, mk('ij', const(i), const(j))) for j in R3] for i in R3])

def rational_root(c):
    if c < 0: return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None
def linear_root(n):
    """p with p*p equal to the polynomial n, p a linear form"""
    sq = []
    for c, m in n.args:
        if len(m) == 0 or len(m) == 2 and m[0] is m[1]:
            r = rational_root(Fraction(c))
            if r is None: return None
            sq.append((m[0] if m else None, r))
        elif len(m) > 2: return None
    if not sq: return None
    x0, r0 = sq[0]; p = ZERO
    for x, r in sq:
        s = 1
        if x is not x0:
            for c, m in n.args:
                if sorted(y.id for y in m) == sorted(y.id for y in (x0, x) if y is not None) and not (len(m) == 2 and m[0] is m[1]): s = 1 if c > 0 else -1
        p = add(p, mul(mk('c', r * s), x) if x is not None else mk('c', r * s))
    return p if mul(p, p) is n else None

def items(t):
    if t.op == 'poly': return list(t.args)
    if t.op == 'c': return [(t.args[0], ())] if t.args[0] else []
    return [(Fraction(1), (t,))]
def monomial(c, m):
    r = mk('c', Fraction(c))
    for y in m: r = mul(r, y)
    return r
def clear(t, rounds=12):
    """numerator of a rational function: denominators are multiplied out, squares of roots replaced"""
    for _ in range(rounds):
        it = items(t)
        den = next((y for c, m in it for y in m if y.op == 'inv'), None)
        if den is not None:
            d = den.args[0]
            out = ZERO
            for c, m in it:
                m = list(m)
                if den in m: m.remove(den); out = add(out, monomial(c, m))
                else: out = add(out, mul(monomial(c, m), d))
            t = out; continue
        sq = next((y for c, m in it for y in m if y.op == 'app' and y.args[0] == 'sqrt' and list(m).count(y) > 1), None)
        if sq is None: return t
        out = ZERO
        for c, m in it:
            m = list(m)
            if m.count(sq) > 1: m.remove(sq); m.remove(sq); out = add(out, mul(monomial(c, m), sq.args[1]))
            else: out = add(out, monomial(c, m))
        t = out
    return t
def equal(a, b): return a is b or clear(sub(a, b)) is ZERO

class Lin:
    """rotation matrices of quaternion terms are leaves R(q)ij with R(conj q) = R(q)^T; hook(term) may give Val for a leaf"""
    def __init__(self, hook=None): self.memo = {}; self.hook = hook
    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None: r = self.memo[t.id] = self._ev(t)
        return r
    def rot(self, q):
        if q.op == 'app':
            if q.args[0] in ('e.conjugate', 'e.inverse') : return T(self.rot(q.args[1]))
            if q.args[0] == 'qmul': return prod(self.rot(q.args[1]), self.rot(q.args[2]))
            if q.args[0] == 'Identity': return Val('m', [[ONE if i == j else ZERO for j in R3] for i in R3])
            if q.args[0] == 'as_q' and q.args[1].kind == 'm': return self(q.args[1])
        if q.op == 'normalized' and q.args[0].kind == 'q': return self.rot(q.args[0])
        if q.op == 'ite': return self.ite(q.args[0], self.rot(q.args[1]), self.rot(q.args[2]))
        return Val('m', [[mk('R', q, const(i), const(j)) for j in R3] for i in R3])
    def ite(self, c, a, b):
        c = self.s(c)
        if a.k != b.k:
            if a.k == 's' and a.e is ZERO: a = zero(b.k)
            elif b.k == 's' and b.e is ZERO: b = zero(a.k)
            else: raise Shape('branches of %s and %s' % (a.k, b.k))
        fa, fb = a.flat(), b.flat()
        r = [ite(c, x, y) for x, y in zip(fa, fb)]
        return Val(a.k, r[0] if a.k == 's' else r if a.k in 'vr' else [r[0:3], r[3:6], r[6:9]])
    def mat(self, t):
        """as a matrix: quaternions become their rotation matrix"""
        if t.kind == 'q': return self.rot(t)
        return self(t)
    def comma(self, t):
        out = []
        while t.op == 'app' and t.args[0] == 'commainit':
            out.append(t.args[-1]); 
            if len(t.args) == 2: break
            t = t.args[1]
        out = [self(x) for x in reversed(out)]
        if all(x.k == 's' for x in out):
            if len(out) == 9: e = [x.e for x in out]; return Val('m', [e[0:3], e[3:6], e[6:9]])
            if len(out) == 3: return Val('v', [x.e for x in out])
        return None
    def s(self, t):
        """scalar or boolean: rebuilt with the entries expanded"""
        memo = self.memo.setdefault('s', {})
        def f(x):
            if x.kind != 's' : return None
            if x.op in ('comp', 'dot') or (x.op == 'app' and x.args[0] in ('norm', 'e.determinant', 'e.trace', 'e.sum', 'e.prod')) or x.op == 'mul':
                r = self(x)
                return r.e if r.k == 's' else None
            return None
        return subst(t, f, memo)
    def _ev(self, t):
        if self.hook:
            r = self.hook(t)
            if r is not None: return r
        op, a = t.op, t.args
        if op == 'c': return Val('s', t)
        if op == 'poly':
            acc = None
            for c, m in a:
                p = Val('s', mk('c', c))
                # vector factors last, in order (at most one is expected)
                for y in sorted(m, key=lambda y: y.kind != 's'):
                    p = prod(p, self(y) if y.kind != 'q' else leaf(y, 's'))
                acc = p if acc is None else plus(acc, p)
            return acc
        if op == 'vec3' and len(a) == 3: return Val('v', [self.sc(x) for x in a])
        if op == 'cross': return mcross(self.vec(a[0]), self.vec(a[1]))
        if op == 'dot': return prod(T(self.vec(a[0])), self.vec(a[1]))
        if op == 'mul': return prod(self.mat(a[0]), self.mat(a[1]))
        if op == 'transpose': return T(self(a[0]))
        if op == 'ite': return self.ite(a[0], self(a[1]), self(a[2]))
        if op == 'normalized' and t.kind == 'v':
            v = self.vec(a[0]); n = self.norm(v)
            return v.map(lambda x: div(x, n))
        if op == 'inv' and t.kind == 's': return Val('s', inv(self.sc(a[0])))
        if op == 'upd':
            o, i, v = a
            b = self(o)
            if b.k == 's' and b.e is ZERO: b = zero('m' if i.op in ('ij', 'part') else 'v')
            if b.k == 's': b = leaf(o, 'm' if i.op in ('ij', 'part') else 'v')
            if i.op == 'c' and b.k in 'vr':
                e = list(b.e); e[int(i.args[0])] = self.sc(v); return Val(b.k, e)
            if b.k == 'm':
                e = [list(r) for r in b.e]
                ci = lambda x: int(x.args[0]) if x.op == 'c' else None
                if i.op == 'ij' and None not in (ci(i.args[0]), ci(i.args[1])):
                    e[ci(i.args[0])][ci(i.args[1])] = self.sc(v); return Val('m', e)
                if i.op == 'part':
                    w = self(v)
                    if w.k == 's' and w.e is ZERO: w = zero('v')
                    if i.args[0] == 'diagonal' and w.k in 'vr':
                        for k in R3: e[k][k] = w.e[k]
                        return Val('m', e)
                    if i.args[0] in ('row', 'col') and w.k in 'vr' and ci(i.args[1]) is not None:
                        for k in R3:
                            if i.args[0] == 'row': e[ci(i.args[1])][k] = w.e[k]
                            else: e[k][ci(i.args[1])] = w.e[k]
                        return Val('m', e)
            return leaf(t, b.k)
        if op == 'comp':
            i = a[1]
            if a[0].kind == 'q': return leaf(t, 's')
            b = self(a[0])
            if b.k in 'vr' and i.op == 'c' and 0 <= i.args[0] < 3: return Val('s', b.e[int(i.args[0])])
            if b.k == 'm' and i.op == 'ij' and all(x.op == 'c' for x in i.args): return Val('s', b.e[int(i.args[0].args[0])][int(i.args[1].args[0])])
            return leaf(t, 's')
        if op == 'app':
            f = a[0]
            if f == 'Identity' and len(a) == 1: return Val('m', [[ONE if i == j else ZERO for j in R3] for i in R3])
            if f == 'e.toRotationMatrix': return self.rot(a[1])
            if f == 'e.asDiagonal':
                v = self.vec(a[1]); return Val('m', [[v.e[i] if i == j else ZERO for j in R3] for i in R3])
            if f in ('as_m', 'as_v') and len(a) == 2: return self.mat(a[1])
            if f in ('e.row', 'e.col') and len(a) == 3 and a[2].op == 'c':
                m = self.mat(a[1]); k = int(a[2].args[0])
                if m.k == 'm': return Val('r', list(m.e[k])) if f == 'e.row' else Val('v', [m.e[i][k] for i in R3])
            if f == 'e.diagonal':
                m = self.mat(a[1])
                if m.k == 'm': return Val('v', [m.e[i][i] for i in R3])
                return leaf(t, 'v')
            if f in ('e.cwiseProduct', 'e.cwiseQuotient') and len(a) == 3:
                x, y = self(a[1]), self(a[2])
                if x.k == y.k and x.k in 'vr': return Val(x.k, _bin(x.e, y.e, mul if f == 'e.cwiseProduct' else div))
            if f in ('e.determinant', 'e.trace'):
                m = self.mat(a[1])
                if m.k == 'm': return Val('s', mdet(m) if f == 'e.determinant' else sumof(m.e[i][i] for i in R3))
            if f in ('e.sum', 'e.prod'):
                m = self(a[1])
                if m.k in 'vr':
                    r = m.e[0]
                    for x in m.e[1:]: r = add(r, x) if f == 'e.sum' else mul(r, x)
                    return Val('s', r)
            if f == 'norm': return Val('s', self.norm(self.vec(a[1])))
            if f in ('e.inverse',) and t.kind != 'q':
                m = self.mat(a[1])
                if m.k == 'm': return Val('m', [[mk('minv', *m.flat(), const(i), const(j)) for j in R3] for i in R3])
            if f == 'commainit':
                r = self.comma(t)
                if r is not None: return r
            if f in ('e.transpose',): return T(self.mat(a[1]))
        if t.kind == 'v': return leaf(t, 'v')
        if t.kind == 'm': return leaf(t, 'm')
        if t.kind == 'q': return leaf(t, 's')
        return Val('s', self.s(t))
    sign = None
    def norm(self, v): return self.sqrt(sumof(mul(x, x) for x in v.e))
    def sqrt(self, n):
        """exact roots of squares of rationals and (where their sign is known) of linear forms"""
        r = rational_root(n.args[0]) if n.op == 'c' else None
        if r is not None: return mk('c', r)
        if self.sign and n.op == 'poly':
            p = linear_root(n)
            g = self.sign(p) if p is not None else None
            if g: return p if g > 0 else neg(p)
        return mk('app', 'sqrt', n)
    def vec(self, t):
        r = self(t)
        if r.k == 's': return zero('v') if r.e is ZERO else leaf(t, 'v')
        if r.k == 'r': return T(r)
        if r.k != 'v': raise Shape('vector expected')
        return r
    def sc(self, t):
        r = self(t)
        if r.k != 's': raise Shape('scalar expected, got %s: %s' % (r.k, show(t)[:80]))
        return r.e
    def m(self, t):
        r = self.mat(t)
        if r.k == 's': return zero('m') if r.e is ZERO else leaf(t, 'm')
        if r.k != 'm': raise Shape('matrix expected')
        return r
