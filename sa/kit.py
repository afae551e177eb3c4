"""Helpers shared by the rules: path summaries, fact entailment, loop coverage.  No solver: entailment is a look-up in the
dominating branch facts, closed under negation and under adding a constant to a linear comparison."""
from db import *
from engine import *

NOISE = ('stream<<', 'Singleton<Omega>::instance', 'Omega::getScene', 'boost::lexical_cast')
def engine(db, **k):
    k.setdefault('rec_store', lambda loc, st: loc.op not in ('L.var', 'L.tmp'))
    k.setdefault('rec_call', lambda q, o, a, n, s: not q.startswith(NOISE))
    e = Engine(db, **k); e.rec_lock = True
    return e
def root(loc):
    """innermost base of a location or address"""
    while True:
        if loc.op in ('addr', 'L.d', 'ld', 'L.f', 'L.e', 'L.c', 'fv', 'it', 'dyn', 'comp'):
            loc = loc.args[-1] if loc.op == 'dyn' else loc.args[0]; continue
        return loc
def fname(x):
    """qualified field of a location / loaded value"""
    if x.op == 'addr': return fname(x.args[0])
    if x.op == 'L.f': return x.args[1]
    if x.op == 'fv': return x.args[1]
    if x.op == 'ld' and x.args[0].op == 'L.f': return x.args[0].args[1]
    return None
def base(x):
    if x.op == 'addr': return base(x.args[0])
    if x.op in ('L.f', 'fv'): return x.args[0]
    if x.op == 'ld' and x.args[0].op == 'L.f': return x.args[0].args[0]
    return None
def is_field(x, q): 
    f = fname(x)
    return f is not None and (f == q or f.endswith('::' + q))
def elem(x):
    """(container, index) of an element location / loaded element"""
    if x.op == 'ld': x = x.args[0]
    if x.op == 'L.e': return x.args[0], x.args[1]
    return None
def local(loc): return root(loc).op in ('L.var', 'L.tmp', 'newobj', 'undef', 'obj')

def entails(facts, t):
    """the fact t follows from one dominating branch fact"""
    fs = set(facts)
    if t is TRUE or t in fs: return True
    if t.op == 'and': return all(entails(facts, a) for a in t.args)
    if t.op == 'or': return any(entails(facts, a) for a in t.args)
    # t: p<0 (reals or ints).  not(q<0) == q>=0
    def norm(f):
        """f as (poly, bound): poly <= bound for integers, (poly<bound strict?)"""
        if f.op == 'lt0': return ('lt', f.args[0])
        if f.op == 'not' and f.args[0].op == 'lt0': return ('ge', f.args[0].args[0])
        if f.op == 'eq0': return ('eq', f.args[0])
        return None
    n = norm(t)
    if n:
        for f in fs:
            m = norm(f)
            if not m: continue
            k = cdiff(n[1], m[1])       # n = m + k
            ks = cdiff(n[1], neg(m[1])) # n = -m + ks
            if n[0] == 'lt':
                if m[0] == 'lt' and k is not None and k <= 0: return True
                if m[0] == 'eq' and k is not None and k < 0: return True
                if m[0] == 'eq' and ks is not None and ks < 0: return True
                if m[0] == 'ge' and ks is not None and ks < 0: return True
                if m[0] == 'ge' and ks is not None and ks <= 0 and intish(n[1]): 
                    if ks < 0: return True
            if n[0] == 'ge':
                if m[0] == 'ge' and k is not None and k >= 0: return True
                if m[0] == 'eq' and ((k is not None and k >= 0) or (ks is not None and ks >= 0)): return True
                if m[0] == 'lt' and ks is not None and ks >= 0: return True
            if n[0] == 'eq' and m[0] == 'eq' and ((k == 0) or (ks == 0)): return True
    if t.op == 'not' and t.args[0].op == 'eq0':
        p = t.args[0].args[0]
        for f in fs:
            m = norm(f)
            if m and m[0] == 'lt':
                for q in (p, neg(p)):
                    k = cdiff(q, m[1])
                    if k is not None and k <= 0: return True
    return False
def intish(p): return True
def cdiff(a, b):
    d = sub(a, b)
    return d.args[0] if d.op == 'c' else None

def loops_of(path):
    return [e for e in path.events if e.kind == 'loop']
def covers(info, cont=None, n=None, eq=None):
    """the loop runs over 0..n-1 (any direction) with step one; n: value number of the length (or predicate)"""
    lo, hi, cmp, step = info['lo'], info['hi'], info['cmp'], info['step']
    if cont is not None and info.get('cont') is not None and info['cont'] is cont and info['kind'] == 'range': return True
    if lo is None or hi is None or step not in (1, -1): return False
    if lo.op == 'it' and hi.op == 'it':
        if lo.args[0] is not hi.args[0]: return False
        if cont is not None and lo.args[0] is not cont: return False
        lo, hi = lo.args[1], hi.args[1]
    def isn(t): return (n is not None and (t is n if isinstance(n, Term) else n(t))) or (cont is not None and (t.op == 'app' and t.args[0] == 'size' and t.args[1] is cont or t.op in ('lo', 'lh') and t.args[1].op == 'L.size' and t.args[1].args[0] is cont))
    if step == 1:
        if lo is not ZERO: return False
        if cont is not None and cmp in ('<', '!=') and cont in info.get('sized', ()): return True
        if cmp in ('<', '!='): return isn(hi)
        if cmp == '<=': return isn(add(hi, ONE))
    else:
        if not isn(add(lo, ONE)): return False
        if cmp == '>=': return hi is ZERO
        if cmp in ('>', '!='): return cdiff(hi, ZERO) == -1
    return False
def visited(info):
    """the container the loop visits from its first to its last element, or None"""
    c = info.get('cont')
    if c is not None:
        lo = info['lo']
        return c if info['kind'] == 'range' or covers(info, cont=c) or (lo is not None and lo.op == 'it' and lo.args[1] is ZERO) else None
    for c in info.get('sized', ()):
        if covers(info, cont=c): return c
    for b in (info.get('hi'), info.get('lo')):
        if b is None: continue
        for x in subterms(b):
            if x.op == 'app' and x.args[0] == 'size' and covers(info, cont=x.args[1]): return x.args[1]
            if x.op in ('lo', 'lh') and x.args[1].op == 'L.size' and covers(info, cont=x.args[1].args[0]): return x.args[1].args[0]
    return None
def all_paths(paths):
    """paths and the paths of the generic loop iterations inside them"""
    for p in paths:
        yield p, ()
        yield from _inner(p, ())
def _inner(p, loops):
    for e in p.events:
        if e.kind in ('loop', 'inloop'):
            for q in e.paths:
                yield q, loops + (e,)
                yield from _inner(q, loops + (e,))
def locks_held(ev): return [c[1] for c in ev.ctx if c[0] == 'lock']
def under_critical(ev): return any(c[0] == 'critical' for c in ev.ctx)

# ---- bounds: t > 0 / t >= 0 from interval reasoning on one dominating fact
def _split(t, k=0):
    """alternatives for min/max atoms: list of (mode, [terms]) until linear"""
    for c, m in poly_items(t):
        for a in m:
            if a.op == 'app' and a.args[0] in ('min', 'max') and len(m) == 1:
                op = a.args[0]
                alts = [subst(t, lambda x, y=y: y if x is a else None) for y in a.args[1:]]
                # the value is alts[i] for the i realising min/max: t>=0 must hold for all (min with c>0, max with c<0), or for any
                return ('all' if (op == 'min') == (c > 0) else 'any'), alts
    return None
def positive(t, nonneg=(), strict=True, depth=0):
    """t > 0 (or >= 0), given that the atoms in nonneg and all sizes are >= 0"""
    s = _split(t) if depth < 6 else None
    if s:
        r = [positive(x, nonneg, strict, depth + 1) for x in s[1]]
        return all(r) if s[0] == 'all' else any(r)
    k = 0
    for c, m in poly_items(t):
        if not m: k = c; continue
        if c < 0 or len(m) != 1: return False
        a = m[0]
        if a in nonneg or any(callable(z) and z(a) for z in nonneg) or (a.op == 'app' and a.args[0] in ('size', 'omp_get_thread_num')) : continue
        if a.op in ('lh', 'lo') and any(x.op == 'L.size' for x in subterms(a)): continue
        return False
    return k > 0 if strict else k >= 0
def ge_facts(facts):
    """linear facts as terms known >= 0 (strictness dropped unless integers: p<0 is -p-1>=0)"""
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'lt0': yield f.args[0].args[0]
        elif f.op == 'lt0': yield sub(neg(f.args[0]), ONE)
        elif f.op == 'eq0': yield f.args[0]; yield neg(f.args[0])
def provable(t, facts, nonneg=(), strict=True):
    g = [x for _, m in poly_items(t) for x in m if x.op == 'ite']
    if g:
        x = g[0]
        return all(provable(subst(t, lambda y, a=a: a if y is x else None), list(facts) + [c], nonneg, strict) for c, a in ((x.args[0], x.args[1]), (bnot(x.args[0]), x.args[2])))
    if positive(t, nonneg, strict): return True
    fs = list(ge_facts(facts))
    for f in fs:
        if positive(sub(t, f), nonneg, strict): return True
    for i, f in enumerate(fs):
        for g in fs[:i]:
            if positive(sub(sub(t, f), g), nonneg, strict): return True
    return False

# ---- finite abstract domain: the entry values a decision depends on are replaced by representatives of their orderings
class Case:
    """a choice of representatives: list of (predicate(term) -> bool, constant)"""
    def __init__(self, *pairs): self.pairs = list(pairs); self.memo = {}
    def __call__(self, t):
        def f(x):
            for p, v in self.pairs:
                if p(x): return v
            return None
        return subst(t, f, self.memo)
    def also(self, *pairs): return Case(*(self.pairs + list(pairs)))
    def feasible(self, facts):
        """no fact is contradicted by the representatives"""
        return all(self(f) is not FALSE for f in facts)
def field0(q, b=None):
    """matches the entry value of the field q (of object b)"""
    return lambda x: x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[1] == q and x.args[1] == 0 and (b is None or x.args[0].args[0] is b)
def sizeof_field(q):
    return lambda x: x.op == 'app' and x.args[0] == 'size' and fname(x.args[1]) == q
def B(v): return TRUE if v else FALSE

def collected(path, lst, src):
    """None if the local list lst receives one entry per element of a container of field src on every iteration; else the reason"""
    pushes = []
    for e in path.events:
        if e.kind == 'loop':
            per = [[x for x in q.events if x.kind == 'call' and x.q.split('::')[-1] in ('push_back', 'emplace_back', 'insert', 'push', 'emplace') and x.obj is lst] for q in e.paths]
            if any(per): pushes.append((e, per))
    if not pushes: return None if any(e.kind == 'call' and e.obj is lst for e in path.events) else 'the list is never filled'
    for e, per in pushes:
        c = e.info.get('cont')
        if c is None or fname(c) != src: continue
        if any(len(r) != 1 for r in per): return 'not every element is put on the list (line %d)' % e.line
        if any(q.end not in ('fall', 'continue') for q in e.paths): return 'the loop collecting the elements is left early (line %d)' % e.line
        lo = e.info['lo']
        if e.info['kind'] != 'range' and not (lo is not None and lo.op == 'it' and lo.args[1] is ZERO) and not covers(e.info, cont=c): return 'the loop collecting the elements does not visit all of them (line %d)' % e.line
        if any(not any(y is e.info['iv'] for y in subterms(r[0].args[-1])) for r in per): return 'something else than the visited element is put on the list'
        return None
    return 'the list is not filled from the members'
