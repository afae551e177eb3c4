"""Value numbers.  Hash-consed terms with a normal form for sums/products of scalars and small vectors.

Two expressions get the same value number iff they normalise to the same term.  Nothing here is solved or
searched: it is the classic value-numbering lattice (with linear/bilinear/commutative normalisation)."""
from fractions import Fraction
import re

class Term:
    __slots__ = ('op', 'args', 'id', 'kind', '_str')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id
    def __hash__(self): return self.id          # sets of terms are traversed in the same order in every run

_tab = {}
PK = {}     # kinds of the parameters of the function being analysed: parameter terms of different kinds are different terms
def mk(op, *args, kind=None):
    k = (op, args) if op != 'param' else (op, args, PK.get(args[0]))
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.id = len(_tab); t._str = None
        t.kind = kind or _kind(op, args)
        _tab[k] = t
    elif kind and t.kind == 's' and kind != 's':
        t.kind = kind
    return t

_VEC = {'cross', 'vec3', 'upd', 'rowcol', 'cast_v', 'normalized', 'cwise', 'cwiseAbs'}
def _kind(op, args):
    if op in _VEC: return 'v'
    if op == 'poly':
        for c, m in args:
            for a in m:
                if a.kind != 's': return a.kind
        return 's'
    if op == 'ite':
        for a in args[1:]:
            if isinstance(a, Term) and a.kind != 's': return a.kind
        return 's'
    if op == 'mul':
        return args[1].kind
    return 's'

def setparams(fn):
    PK.clear()
    for i, p in enumerate(fn['params']):
        k = type_kind(p[2])
        if k and k != 's': PK['arg%d' % i] = k
def type_kind(ty):
    if not ty: return None
    if ty.startswith('const '): ty = ty[6:]
    m = re.match(r'Eigen::Matrix<(\w+), (-?\d+), (-?\d+)', ty)
    if m:
        return 'v' if m.group(3) == '1' else 'm'
    if ty.startswith('Eigen::Quaternion'): return 'q'
    return None

# ---- constants and polynomials
def const(v):
    if isinstance(v, float):
        v = Fraction(repr(v)) if v == v and v not in (float('inf'), float('-inf')) else repr(v)
        if isinstance(v, str): return mk('k', v)
    return mk('c', Fraction(v))
ZERO = const(0); ONE = const(1)
TRUE = mk('true'); FALSE = mk('false')
NULL = mk('null')

def poly_items(t):
    if t.op == 'poly': return t.args
    if t.op == 'c': return () if t.args[0] == 0 else ((t.args[0], ()),)
    if t.op in ('true',): return ((Fraction(1), ()),)
    if t.op in ('false', 'null'): return ()
    return ((Fraction(1), (t,)),)

def from_items(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    if not items: return ZERO
    items.sort(key=lambda x: tuple(a.id for a in x[1]))
    if len(items) == 1:
        c, m = items[0]
        if not m: return mk('c', c)
        if c == 1 and len(m) == 1: return m[0]
    return mk('poly', *items)

def add(a, b, sb=1):
    if a.op == 'str' or b.op == 'str': return mk('app', 'strcat', a, b)
    d = {}
    for c, m in poly_items(a): d[m] = d.get(m, 0) + c
    for c, m in poly_items(b): d[m] = d.get(m, 0) + sb * c
    return from_items(d)
def sub(a, b): return add(a, b, -1)
def neg(a): return scale(a, Fraction(-1))
def scale(a, k):
    return from_items({m: c * k for c, m in poly_items(a)})

def _mono_mul(m1, m2):
    l = list(m1)
    for x in m2:
        # cancel x with inv(x)
        if x.op == 'inv' and x.args[0] in l: l.remove(x.args[0]); continue
        done = False
        for i, y in enumerate(l):
            if y.op == 'inv' and y.args[0] is x: del l[i]; done = True; break
        if not done: l.append(x)
    l.sort(key=lambda t: t.id)
    return tuple(l)

def mul(a, b):
    ka, kb = a.kind, b.kind
    if ka != 's' and kb != 's':
        return bilinear('mul', a, b)
    ia, ib = poly_items(a), poly_items(b)
    if len(ia) * len(ib) > 200: 
        x, y = sorted((a, b)); return mk('bigmul', x, y, kind=(ka if ka != 's' else kb))
    d = {}
    for c1, m1 in ia:
        for c2, m2 in ib:
            m = _mono_mul(m1, m2); d[m] = d.get(m, 0) + c1 * c2
    return from_items(d)

def split_mono(m):
    """scalar atoms, vector-like atom (or None)"""
    s = tuple(a for a in m if a.kind == 's'); v = [a for a in m if a.kind != 's']
    return s, (v[0] if len(v) == 1 else (None if not v else v))

def bilinear(op, a, b):
    d = {}
    ia, ib = poly_items(a), poly_items(b)
    if len(ia) * len(ib) > 200: return mk(op, a, b, kind=('s' if op == 'dot' else b.kind))
    for c1, m1 in ia:
        s1, v1 = split_mono(m1)
        for c2, m2 in ib:
            s2, v2 = split_mono(m2)
            if v1 is None or v2 is None or isinstance(v1, list) or isinstance(v2, list):
                # not both vectors: opaque
                t = mk(op, from_items({m1: Fraction(1)}), from_items({m2: Fraction(1)}), kind=('s' if op == 'dot' else 'v')); sg = 1; ss = ()
            else:
                sg = 1; ss = _mono_mul(s1, s2)
                if op == 'cross':
                    if v1 is v2: continue
                    if v1.id > v2.id: v1_, v2_, sg = v2, v1, -1
                    else: v1_, v2_ = v1, v2
                    t = mk('cross', v1_, v2_, kind='v')
                elif op == 'dot':
                    v1_, v2_ = (v1, v2) if v1.id <= v2.id else (v2, v1)
                    t = mk('dot', v1_, v2_)
                else:
                    t = mk(op, v1, v2, kind=('v' if v2.kind == 'v' else v2.kind))
            m = _mono_mul(ss, (t,))
            d[m] = d.get(m, 0) + sg * c1 * c2
    return from_items(d)
def cross(a, b): return bilinear('cross', a, b)
def dot(a, b): return bilinear('dot', a, b)

def inv(b):
    it = poly_items(b)
    if len(it) == 1:
        c, m = it[0]
        d = ()
        for a in m:
            d = _mono_mul(d, (a.args[0],) if a.op == 'inv' else (mk('inv', a),))
        return from_items({d: 1 / c})
    if not it: return mk('inv', ZERO)
    # normalise leading coefficient
    lead = it[0][0]
    return scale(mk('inv', scale(b, 1 / lead)), 1 / lead)
def div(a, b): return mul(a, inv(b))

def linear_map(op, t, *extra, kind='s'):
    """apply a unary linear operator (component, transpose ...) distributing over sums and scalars"""
    d = {}
    for c, m in poly_items(t):
        s, v = split_mono(m)
        if v is None or isinstance(v, list):
            x = mk(op, from_items({m: Fraction(1)}), *extra, kind=kind); mm = (x,)
            d[mm] = d.get(mm, 0) + c
        else:
            x = _lin1(op, v, *extra, kind=kind)
            for c2, m2 in poly_items(x):
                mm = _mono_mul(s, m2); d[mm] = d.get(mm, 0) + c * c2
    return from_items(d)

def _lin1(op, v, *extra, kind='s'):
    if op == 'comp':
        i = extra[0]
        if v.op == 'vec3' and i.op == 'c':
            k = int(i.args[0])
            if 0 <= k < len(v.args): return v.args[k]
        if v.op == 'upd':
            o, j, x = v.args
            if i is j: return x
            if i.op == 'c' and j.op == 'c': return comp(o, i)
        if v.op == 'ite':
            return ite(v.args[0], comp(v.args[1], i), comp(v.args[2], i))
        if v.op == 'app' and len(v.args) == 3 and v.args[0] == 'e.cwiseQuotient': return div(comp(v.args[1], i), comp(v.args[2], i))
        if v.op == 'app' and len(v.args) == 3 and v.args[0] == 'e.cwiseProduct': return mul(comp(v.args[1], i), comp(v.args[2], i))
        if v.op == 'app' and len(v.args) == 2 and v.args[0] in ('as_q', 'e.coeffs'): return comp(v.args[1], i)
        if v.op == 'transpose' and i.op == 'ij': return comp(v.args[0], mk('ij', i.args[1], i.args[0]))
    return mk(op, v, *extra, kind=kind)

def comp(v, i):
    return linear_map('comp', v, i)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return bnot(c)
    if a.op == 'true' or a.op == 'false' or b.op == 'true' or b.op == 'false' or is_bool(a) and is_bool(b):
        if a is TRUE: return bor(c, nonzero(b))
        if b is TRUE: return bor(bnot(c), nonzero(a))
        if a is FALSE: return band(bnot(c), nonzero(b))
        if b is FALSE: return band(c, nonzero(a))
    return mk('ite', c, a, b)

# ---- booleans
_BOOL = {'lt0', 'le0', 'eq0', 'nn', 'not', 'and', 'or', 'true', 'false', 'same'}
def is_bool(t): return t.op in _BOOL
def bnot(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.args[0]
    if t.op == 'and': return bor(*[bnot(x) for x in t.args])
    if t.op == 'or': return mk('and', *sorted({bnot(x) for x in t.args})) if len(t.args) > 1 else bnot(t.args[0])
    return mk('not', t)
def band(*ts):
    s = []
    for t in ts:
        if t is TRUE: continue
        if t is FALSE: return FALSE
        for x in (t.args if t.op == 'and' else (t,)):
            if x not in s: s.append(x)
    for x in s:
        if bnot(x) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk('and', *sorted(s))
def bor(*ts):
    s = []
    for t in ts:
        if t is FALSE: continue
        if t is TRUE: return TRUE
        for x in (t.args if t.op == 'or' else (t,)):
            if x not in s: s.append(x)
    for x in s:
        if bnot(x) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return mk('or', *sorted(s))

def _lead(p):
    for c, m in p.args:
        if m: return c
    return p.args[0][0]
def lt0(p, integer=False):
    """p<0 in canonical form (leading coefficient positive; integers have no <=)"""
    if p.op == 'c': return TRUE if p.args[0] < 0 else FALSE
    if p.op in ('null', 'false'): return FALSE
    if p.op == 'true': return FALSE
    if p.op == 'poly':
        l = _lead(p)
        if not integer: p = scale(p, 1 / abs(l))
        if l < 0:
            q = neg(p)
            return bnot(mk('lt0', add(q, const(-1)))) if integer else bnot(mk('le0', q))
    return mk('lt0', p)
def less(a, b, integer=False): return lt0(sub(a, b), integer)
def lesseq(a, b, integer=False): return bnot(lt0(sub(b, a), integer))
def nonzero(t):
    if is_bool(t): return t
    if t.op == 'c': return FALSE if t.args[0] == 0 else TRUE
    if t is NULL: return FALSE
    if t.op in ('newobj', 'addr', 'str', 'this'): return TRUE
    if t.op == 'ite':
        return ite(t.args[0], nonzero(t.args[1]), nonzero(t.args[2]))
    if t.op == 'poly':
        l = _lead(t); t = scale(t, 1 / l)
        if t.op != 'poly': return mk('nn', t)
        return bnot(mk('eq0', t))
    return mk('nn', t)
def equal(a, b):
    if a is b: return TRUE
    if is_bool(a) or is_bool(b):
        if a in (TRUE, ONE): return nonzero(b)
        if b in (TRUE, ONE): return nonzero(a)
        if a in (FALSE, ZERO): return bnot(nonzero(b))
        if b in (FALSE, ZERO): return bnot(nonzero(a))
        x, y = sorted((a, b)); return mk('same', x, y)
    if a.op == 'str' or b.op == 'str' or a.kind != 's' or b.kind != 's':
        if a.op == 'str' and b.op == 'str': return FALSE
        if ZERO in (a, b): return bnot(nonzero(b if a is ZERO else a))
        x, y = sorted((a, b)); return mk('same', x, y)
    if NULL in (a, b): return bnot(nonzero(b if a is NULL else a))
    return bnot(nonzero(sub(a, b)))

# ---- printing
def show(t, depth=0):
    if not isinstance(t, Term): return str(t)
    if t._str is not None and depth == 0: return t._str
    s = _show(t, depth)
    if depth == 0: t._str = s
    return s
def short(q):
    return q.split('(')[0].split('::')[-1] if '::' in q else q
def _show(t, d):
    if d > 7: return '…'
    op, a = t.op, t.args
    S = lambda x: show(x, d + 1) if isinstance(x, Term) else str(x)
    if op == 'c': return str(a[0])
    if op == 'poly':
        r = []
        for c, m in a:
            x = '*'.join(S(y) for y in m)
            r.append(x if c == 1 and x else ('-' + x if c == -1 and x else (str(c) + ('*' + x if x else ''))))
        return '(' + '+'.join(r) + ')'
    if op == 'ld': return S(a[0]) + ("'%s" % a[1] if a[1] else '')
    if op == 'L.f': return S(a[0]) + '.' + short(a[1])
    if op == 'L.e': return S(a[0]) + '[' + S(a[1]) + ']'
    if op == 'L.d': return '*' + S(a[0])
    if op == 'L.var': return str(a[0])
    if op == 'addr': return '&' + S(a[0])
    if op == 'param': return str(a[0])
    if op == 'nn': return '?' + S(a[0])
    if op == 'not': return '!' + S(a[0])
    if op in ('and', 'or'): return '(' + (' %s ' % op).join(S(x) for x in a) + ')'
    if op == 'lt0': return S(a[0]) + '<0'
    if op == 'le0': return S(a[0]) + '<=0'
    if op == 'eq0': return S(a[0]) + '==0'
    if op == 'app': return short(str(a[0])) + '(' + ','.join(S(x) for x in a[1:]) + ')'
    if op == 'str': return '"%s"' % a[0]
    return op + '(' + ','.join(S(x) for x in a) + ')'

def subterms(t, seen=None):
    if seen is None: seen = set()
    if not isinstance(t, Term) or t.id in seen: return
    seen.add(t.id); yield t
    for a in t.args:
        if isinstance(a, Term): yield from subterms(a, seen)
        elif isinstance(a, tuple):
            for m in a:
                if isinstance(m, tuple):
                    for x in m: yield from subterms(x, seen)
                elif isinstance(m, Term): yield from subterms(m, seen)

BITOPS = {'&', '|', '^'}
def bitop(o, y, z):
    y, z = ({TRUE: ONE, FALSE: ZERO}.get(w, w) for w in (y, z))
    if y.op == 'c' and z.op == 'c' and y.args[0].denominator == 1 and z.args[0].denominator == 1:
        p, q = int(y.args[0]), int(z.args[0])
        return const(p & q if o == '&' else p | q if o == '|' else p ^ q)
    return None
def subst(t, f, memo=None):
    """rebuild t bottom-up; f(term)->term or None replaces a node (after its children were rebuilt)"""
    if memo is None: memo = {}
    if not isinstance(t, Term): return t
    r = memo.get(t.id)
    if r is not None: return r
    x = f(t)
    if x is None:
        op, a = t.op, t.args
        if op == 'poly':
            acc = ZERO
            for c, m in a:
                p = mk('c', c)
                for y in m: p = mul(p, subst(y, f, memo))
                acc = add(acc, p)
            x = acc
        elif op == 'cross': x = cross(subst(a[0], f, memo), subst(a[1], f, memo))
        elif op == 'dot': x = dot(subst(a[0], f, memo), subst(a[1], f, memo))
        elif op == 'inv': x = inv(subst(a[0], f, memo))
        elif op == 'comp': x = comp(subst(a[0], f, memo), subst(a[1], f, memo))
        elif op == 'ite': x = ite(*[subst(y, f, memo) for y in a])
        elif op == 'not': x = bnot(subst(a[0], f, memo))
        elif op == 'nn': x = nonzero(subst(a[0], f, memo))
        elif op == 'eq0': x = bnot(nonzero(subst(a[0], f, memo)))
        elif op == 'lt0': y = subst(a[0], f, memo); x = t if y is a[0] else lt0(y)
        elif op == 'le0': y = subst(a[0], f, memo); x = t if y is a[0] else bnot(lt0(neg(y)))
        elif op == 'and': x = band(*[subst(y, f, memo) for y in a])
        elif op == 'or': x = bor(*[subst(y, f, memo) for y in a])
        elif op == 'mul': x = mul(subst(a[0], f, memo), subst(a[1], f, memo))
        elif op in ('c', 'k', 'true', 'false', 'null', 'str'): x = t
        elif op == 'app' and a[0] in BITOPS and len(a) == 3:
            y, z = subst(a[1], f, memo), subst(a[2], f, memo)
            x = bitop(a[0], y, z) or (t if (y, z) == a[1:] else mk(op, a[0], y, z))
        else:
            na = tuple(subst(y, f, memo) if isinstance(y, Term) else y for y in a)
            x = t if na == a else mk(op, *na, kind=t.kind)
    memo[t.id] = x
    return x
