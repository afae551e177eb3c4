"""C13: physical parameters of a contact: made from both materials, whichever comes first; made once."""
import zlib, math, os
from kit import *
from laws import *
from evalt import Eval, Unknown
RULES = {
 'order': 'for every functor making contact parameters of two materials of one class: the values stored, as gated value numbers over the fields of both materials and of the geometry, do not change when the two sides are exchanged (equal normal forms, or equal at all representatives of a sign/zero/unset/match-maker case table)',
 'once': 'a contact that already has its parameters keeps them: with parameters present, no path replaces the object or stores stiffness or friction in it',
 'made': 'a contact without parameters gets them: some path with none present stores a new object of the class the functor is declared to produce',
 'stiffness': 'elastic stiffnesses are the documented (harmonic, radius weighted) means of the stiffnesses of the two sides, at all representatives',
 'friction': 'the friction coefficient is the tangent of the smaller friction angle of the two materials, or of the match maker value when one is given',
 'match': 'a match maker looks up the unordered pair of ids and falls back on the documented mean of the two values',
}
EXPLAIN = ('Gated value-numbering dataflow over the clang AST of every IPhysFunctor::go: per path the values stored in the new IPhys object. Exchange symmetry is decided on the terms by substituting one side for the other; '
           'where the normal forms differ they are compared at representatives of all sign, zero, unset and match-maker cases.')
ASSUMES = ['tan, sqrt, log, pow are the mathematical functions', 'geometry radii refR1/refR2 (radius1/radius2) belong to the first/second body (decided by C10)']
SUP = ['core/Body.cpp', 'core/BodyContainer.cpp', 'core/Interaction.cpp', 'core/State.cpp', 'pkg/dem/ScGeom.cpp', 'pkg/common/MatchMaker.cpp', 'pkg/common/Dispatching.cpp']
def files():
    fs = set(grep_files(r'\bIp2_\w+\s*::\s*go\b', [f for f in sources() if f.startswith('pkg/')])) | set(SUP)
    return sorted(f for f in fs if os.path.exists(os.path.join(REPO, f)))
# engines rejected: polyhedra are outside the scope of this suite (see DESIGN.md)
SWAP1 = {'refR1': 'refR2', 'radius1': 'radius2', 'id1': 'id2', 'initialOrientation1': 'initialOrientation2', 'initOri1': 'initOri2', 'R1': 'R2', 'r1': 'r2'}
SWAPF = dict(SWAP1, **{b: a for a, b in SWAP1.items()})
A0, A1 = None, None
def swapped(memo, t):
    def f(x):
        if x.op == 'param' and x.args[0] in ('arg0', 'arg1'): return mk('param', 'arg1' if x.args[0] == 'arg0' else 'arg0', *x.args[1:], kind=x.kind)
        if x.op == 'L.f':
            q = x.args[1]; n = q.split('::')[-1]
            if n in SWAPF: return mk('L.f', swapped(memo, x.args[0]), q[:len(q) - len(n)] + SWAPF[n], *x.args[2:])
        return None
    return subst(t, f, memo)
def num(seed, key): return zlib.crc32(('%d/%s' % (seed, key)).encode()) & 0xffffffff
class Rep:
    """one representative: values for the leaves. mode: 'pos' (all positive), 'zero' (some zero), 'nan' (some unset), 'mm' (match makers given)"""
    nanok = ()
    def __init__(self, seed, mode, fixed=()): self.seed, self.mode, self.fixed = seed, mode, dict(fixed)
    def __call__(self, x):
        op = x.op
        if op == 'app':
            f = str(x.args[0])
            if 'MatchMaker' in f or f.endswith('operator()') or f == 'operator':
                return self.mm(x)
            n = f.split('::')[-1]
            a = x.args[1:]
            if n in ('tan', 'log', 'exp', 'atan', 'sin', 'cos') and len(a) == 1:
                v = self.ev(a[0])
                try: return getattr(math, n)(v)
                except (ValueError, OverflowError): return float('nan')
            if n == 'sqrt': 
                v = self.ev(a[0]); return math.sqrt(v) if v >= 0 else float('nan')
            if n == 'pow' and len(a) == 2:
                try: 
                    r = self.ev(a[0]) ** self.ev(a[1]); return r if isinstance(r, (int, float)) else float('nan')
                except (ZeroDivisionError, OverflowError): return float('inf')
            if n == 'isfinite': return math.isfinite(self.ev(a[0]))
            if n in ('find_cn_from_en',): return num(self.seed, 'cn%s' % [round(self.ev(y), 9) for y in a[:3]]) % 997 / 500. + .1
            return NotImplemented
        if op == 'inv':
            v = self.ev(x.args[0])
            if v == 0: return float('nan')
            return NotImplemented
        if op == 'L.g' or op == 'ld' and x.args[0].op == 'L.g':
            s = show(x)
            if 'NaN' in s: return float('nan')
            if 'PI' in s: return math.pi
            return num(self.seed, s) % 1000 / 500. + .1
        if op == 'param': return NotImplemented
        if op == 'ld' or op == 'fv': return self.leaf(x)
        return NotImplemented
    def leaf(self, x):
        n = fieldname(x) or show(x)
        for k, v in self.fixed.items():
            if (n, side(x)) == k or n == k: return v
        key = show(x) + '#%d' % x.id
        h = num(self.seed, key); v = h % 997 / 500. + .15
        if x.kind == 'v': return [v, -v * .5, v * .3]
        if x.kind in ('m', 'q'): return [[v, .1, 0.], [0., v * .7, .2], [.3, 0., v * .4]]
        if n == 'id' and side(x) is not None: return 3 if side(x) == 0 else 5
        if n in ('refR1', 'refR2', 'radius1', 'radius2', 'young'): return v
        if self.own(x) and pointerish(n): return (1000 + h % 50) if self.mode == 'mm' else None
        if self.mode == 'zero' and (h >> 8) % 3 == 0: return 0
        if self.mode == 'nan' and x in self.nanok and num(self.seed, 'unset' + n) % 2 == 0: return float('nan')
        return v
    def own(self, x):
        b = x
        while isinstance(b, Term) and b.op in ('ld', 'L.f', 'addr', 'L.d', 'fv'): b = b.args[0]
        return isinstance(b, Term) and b.op == 'this'
    def mm(self, x):
        a = [self.ev(y) for y in x.args[2:]] if len(x.args) > 2 else []
        a = [v for v in a if not (isinstance(v, float) and math.isnan(v))]
        ids = sorted(v for v in a if isinstance(v, int)); vals = sorted(round(v, 9) for v in a if not isinstance(v, int))
        return num(self.seed, 'mm%s%s%s' % (show(x.args[1]) if len(x.args) > 1 else '', ids[:2], vals[:2])) % 997 / 1000. + .05
def pointerish(n): return n in ('frictAngle', 'en', 'es', 'betan', 'betas', 'tc', 'et', 'normalCohesion', 'shearCohesion', 'kn', 'ks', 'kRatio', 'krot', 'ktwist', 'ksToKn')
def side(x):
    s = {y.args[0] for y in subterms(x) if y.op == 'param'}
    return 0 if s == {'arg0'} else 1 if s == {'arg1'} else None
def alive(paths, ev):
    """the path taken at a representative; None if it cannot be told"""
    out = []
    for p in paths:
        t = True
        for f in p.facts:
            if not any(y.op in ('param', 'this') for y in subterms(f)): continue
            try:
                if not ev.truth(f): t = False; break
            except (Unknown, TypeError): t = None
        if t is None: return None
        if t: out.append(p)
    return out
def stored(p):
    return {l: v for l, v in p.st.env.items() if l.op == 'L.f' and not (l.args[0].op == 'this')}
def eq(a, b):
    if isinstance(b, list) and not isinstance(a, list): a, b = b, a
    if isinstance(a, list) and not isinstance(b, list): return b == 0 and all(eq(x, 0 if not isinstance(x, list) else 0) for x in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Term) or isinstance(b, Term): return a is b
    if a is None or b is None: return a is b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b): return a != a and b != b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
def mkev(rep):
    ev = Eval(rep); rep.ev = ev; return ev
def run(ctx):
    fs = files(); db = DB(fs); db.require_clean()
    ctx.setc('translation_units', len(fs))
    for c in sorted(db.subclasses('IPhysFunctor')):
        g = [f for f in db.fn(c + '::go') if not f['dep']]
        if not g or 'Polyhedra' in c: continue
        f = g[0]; where = (f['file'], f['line'], f['q'])
        e = engine(db, rec_store=lambda l, s: False, rec_call=lambda *a: False, opaque=('MatchMaker::operator()', 'find_cn_from_en', 'Ip2_ViscElMat_ViscElMat_ViscElPhys::find_cn_from_en')); e.maxwork = 4_000_000
        try: ps = [p for p in e.run(f) if p.end != 'throw']
        except (Unsupported, TooMany) as x: ctx.undecided('%s: %s' % (c, x)); continue
        ctx.count('functions'); ctx.count('paths', len(ps))
        Rep.nanok = {z for p in ps for t in list(p.facts) + list(stored(p).values()) for y in subterms(t) if y.op == 'app' and str(y.args[0]).endswith(('isnan', 'isfinite')) for z in y.args[1:] if isinstance(z, Term)}
        once(ctx, where, c, ps, delegates(f))
        if alike(c): order(ctx, where, c, ps)
        values(ctx, where, c, ps, db)
    match(ctx, db)
    ctx.floor('functions', 14); ctx.floor('symmetric_functors', 10)
REPS = [(s, m) for m in ('pos', 'zero', 'nan', 'mm') for s in range(1, {'pos': 4, 'zero': 40}.get(m, 9))]
PHYS, GEOM = 'Interaction::phys', 'Interaction::geom'
KEEP = ('kn', 'ks', 'tangensOfFrictionAngle', 'kno', 'kso')
def isphys(l): return l.args[1] == PHYS
def isinst_same(ev, l, v):
    a, b = ev.maybe(v), ev.maybe(mk('ld', l, 0))
    return a is not None and eq(a, b)
def once(ctx, where, c, ps, delegates):
    made = False; writes = any(isphys(l) for p in ps for l in stored(p))
    for seed, mode in REPS:
        for have in (True, False):
            rep = Rep(seed, mode, {'phys': 77 if have else None, 'geom': 88}); ev = mkev(rep)
            al = alive(ps, ev); ctx.count('cases')
            if al is None: ctx.count('unresolved'); continue
            for p in al:
                st = stored(p)
                new = [l for l, v in st.items() if isphys(l) and not eq(ev.maybe(v), 77 if have else None)]
                if have:
                    ow = [l for l, v in st.items() if l.args[1].split('::')[-1] in KEEP and root(l).op != 'newobj' and not (v.op == 'ld' and v.args[0] is l) and not isinst_same(ev, l, v)]
                    ctx.check(not new and not ow, 'once', *where, 'a contact that has its parameters gets %s' % ('a new parameter object' if new else '%s anew' % ', '.join(show(l)[:60] for l in ow[:1])), key='once|' + c)
                elif mode in ('pos', 'mm') and (writes or not delegates):
                    made = made or any(st[l].op == 'newobj' for l in new)
                    ctx.check(bool(new), 'made', *where, 'a contact without parameters is left without', key='made|' + c)
def delegates(f):
    return any(x[0] == 'call' and str(x[3]).endswith('::go') for x in walk(f['body']))
def alike(c):
    m = c.split('_')
    return len(m) >= 4 and m[1] == m[2] or len(m) == 3 and m[1].startswith('2x')
def order(ctx, where, c, ps):
    memo = {}
    sw = []
    class P: pass
    for p in ps:
        q = P(); q.facts = [swapped(memo, f) for f in p.facts]; q.st = P(); q.st.env = {swapped(memo, l): swapped(memo, v) for l, v in stored(p).items()}; sw.append(q)
    bad = {}
    n = 0
    for seed, mode, have in [(s, m, h) for s, m in REPS for h in (None, 77)]:
        rep = Rep(seed, mode, {'phys': have, 'geom': 88}); ev = mkev(rep)
        a, b = alive(ps, ev), alive(sw, ev)
        if not a or not b or len(a) > 1 or len(b) > 1: ctx.count('unresolved'); continue
        a, b = stored(a[0]), stored(b[0])
        for l in set(a) | set(b):
            x, y = a.get(l, mk('ld', l, 0)), b.get(l, mk('ld', l, 0))
            ctx.count('comparisons')
            if x is y: continue
            try: u, v = ev(x), ev(y)
            except (Unknown, TypeError, ValueError, IndexError, OverflowError, ZeroDivisionError): ctx.count('incomparable'); continue
            if not eq(u, v): bad.setdefault(l.args[1], (u, v, mode))
        n += 1
    for k, (u, v, m) in sorted(bad.items()): ctx.check(False, 'order', *where, '%s depends on the order of the bodies: %s, exchanged %s' % (k.split('::')[-1], u, v), key='order|%s|%s' % (c, k.split('::')[-1]))
    if not bad: ctx.check(True, 'order', *where, '', key='order|' + c)
    if n: ctx.count('symmetric_functors')
def harm(a, b): return a * b / (a + b) if a + b else float('nan')
def leafs(ps):
    out = {}
    for p in ps:
        for t in list(p.facts) + list(stored(p).values()):
            for x in subterms(t):
                if x.op == 'ld' and x.args[0].op == 'L.f': out.setdefault((fieldname(x), side(x)), x)
    return out
def values(ctx, where, c, ps, db):
    lf = leafs(ps)
    get = lambda n, s: lf.get((n, s))
    for seed, mode in REPS:
        if mode not in ('pos', 'mm'): continue
        rep = Rep(seed, mode, {'phys': None, 'geom': 88}); ev = mkev(rep); al = alive(ps, ev)
        if not al or len(al) > 1: continue
        st = {l.args[1].split('::')[-1]: v for l, v in stored(al[0]).items() if ev.maybe(al[0].st.env.get(l)) is not None and root(l).op == 'newobj'}
        V = lambda n, s: rep.leaf(get(n, s)) if get(n, s) is not None else None
        fa, fb = V('frictionAngle', 0), V('frictionAngle', 1)
        lab = 'with match makers' if mode == 'mm' else 'without match makers'
        if 'tangensOfFrictionAngle' in st and fa and fb and not c.startswith(FRICTION_OTHER):
            u = ev(st['tangensOfFrictionAngle']); ctx.count('comparisons')
            mm = [y for y in subterms(st['tangensOfFrictionAngle']) if y.op == 'app' and ('MatchMaker' in str(y.args[0]) or str(y.args[0]) in ('operator()', 'operator')) and any(is_field(z, 'frictAngle') for z in subterms(y) if z.op == 'ld')]
            has = 'frictAngle' in fields(db, c)
            want = math.tan(ev(mm[0])) if mode == 'mm' and mm else None if mode == 'mm' and has else math.tan(min(fa, fb))
            ctx.check(want is not None and eq(u, want), 'friction', *where, '%s: friction coefficient %.6g, expected %s (friction angles %.6g and %.6g)' % (lab, u, 'that of the match maker' if want is None else '%.6g' % want, fa, fb), key='friction|' + c)
            if mm:
                # the match maker is asked for the two materials, with their angles in the same order
                a = [ev.maybe(y) for y in mm[0].args[2:6]]
                ctx.check(sorted(a[:2]) == [3, 5] and (len(a) < 4 or any(isinstance(v, float) and math.isnan(v) for v in a[2:]) or sorted(a[2:4]) == sorted((fa, fb))), 'friction', *where, 'the match maker is asked for %s' % a, key='friction-ask|' + c)
        E1, E2, n1, n2 = V('young', 0), V('young', 1), V('poisson', 0), V('poisson', 1)
        r1, r2 = (V('refR1', None), V('refR2', None)) if get('refR1', None) is not None else (V('radius1', None), V('radius2', None))
        if not (E1 and E2 and r1 and r2) or mode == 'mm' and {'kn', 'ks'} & fields(db, c): continue
        def cmp(n, want, what):
            if n not in st: return
            u = ev(st[n]); ctx.count('comparisons')
            ctx.check(eq(u, want), 'stiffness', *where, '%s: %s is %.6g, %s would be %.6g (moduli %g, %g, ratios %s, %s, radii %g, %g)' % (lab, n, u, what, want, E1, E2, n1, n2, r1, r2), key='stiffness|%s|%s' % (c, n))
        if c.startswith(HERTZ):
            if n1 and n2:
                E = 1 / ((1 - n1 ** 2) / E1 + (1 - n2 ** 2) / E2); R = r1 * r2 / (r1 + r2); G = (E1 / 2 / (1 + n1) + E2 / 2 / (1 + n2)) / 2
                cmp('kno', 4 / 3. * E * R ** .5, "Hertz' coefficient"); cmp('kso', 2 * (4 * R) ** .5 * G / (2 - (n1 + n2) / 2), "Mindlin's coefficient")
        elif not c.startswith(VISCEL + OTHER):
            cmp('kn', 2 * harm(E1 * r1, E2 * r2), 'the harmonic mean')
            if n1 and n2: cmp('ks', 2 * harm(E1 * r1 * n1, E2 * r2 * n2), 'the harmonic mean')
        if 'normalAdhesion' in st and V('normalCohesion', 0) and 'setCohesionNow' in fields(db, c):
            on = V('isCohesive', 0) and V('isCohesive', 1)
            for nm in ('normal', 'shear'):
                w = min(V(nm + 'Cohesion', 0), V(nm + 'Cohesion', 1)) * min(r1, r2) ** 2
                if mode != 'mm' and on: cmp(nm + 'Adhesion', w, 'the smaller cohesion on the smaller section')
    if c.startswith(VISCEL): viscel(ctx, where, c, ps, db)
def viscel(ctx, where, c, ps, db):
    """explicit stiffnesses act in series; stiffnesses of moduli are those of the sides in series"""
    nan = float('nan')
    for k in range(3):
        for kind in ('explicit', 'moduli'):
            fx = {('kn', 0): 3. + k, ('kn', 1): 5., ('ks', 0): 2., ('ks', 1): 7. + k, ('cn', 0): .3, ('cn', 1): .4 + k, ('cs', 0): .2, ('cs', 1): .25, ('mRtype', 0): 1, ('mRtype', 1): 1, 'phys': None, 'geom': 88, 'mass': 2.}
            if kind == 'moduli': fx.update({(n, i): nan for n in ('kn', 'ks', 'cn', 'cs', 'en', 'et') for i in (0, 1)})
            fx.update({(n, i): nan for n in ('tc', 'en', 'et') for i in (0, 1)})
            rep = Rep(k + 1, 'pos', fx); ev = mkev(rep); al = alive(ps, ev)
            if not al or len(al) > 1: ctx.count('unresolved'); continue
            lf = leafs(ps); V = lambda n, s: rep.leaf(lf[(n, s)]) if (n, s) in lf else nan
            st = {l.args[1].split('::')[-1]: v for l, v in stored(al[0]).items() if root(l).op == 'newobj'}
            if kind == 'explicit': want = {n: harm(fx[(n, 0)], fx[(n, 1)]) for n in ('kn', 'ks', 'cn', 'cs')}
            else:
                r = (V('refR1', None), V('refR2', None)); K = [2 * V('young', i) * r[i] for i in (0, 1)]
                want = {'kn': harm(*K), 'ks': harm(K[0] * V('poisson', 0), K[1] * V('poisson', 1)), 'cn': 0, 'cs': 0}
            for n, w in want.items():
                u = ev.maybe(st[n]) if n in st else None; ctx.count('comparisons')
                ctx.check(u is not None and eq(u, w), 'stiffness', *where, '%s parameters: %s is %s, the two sides in series give %.6g' % (kind, n, u, w), key='stiffness|%s|%s|%s' % (c, kind, n))
FRICTION_OTHER = ('Ip2_MortarMat',)           # documented to average the angles
HERTZ, VISCEL, OTHER = ('Ip2_FrictMat_FrictMat_Mindlin',), ('Ip2_ViscEl',), ('Ip2_LudingMat', 'Ip2_2xInelast', 'Ip2_WireMat', 'Ip2_BubbleMat', 'Ip2_FrictMat_FrictMat_KnKs')
_f = {}
def fields(db, c):
    if c not in _f: _f[c] = {y[0] if isinstance(y, list) else y for q in [c] + db.bases(c) for y in db.cls.get(q, {}).get('fields', [])}
    return _f[c]
def match(ctx, db):
    fn = db.fn('MatchMaker::operator()')
    if not fn: raise AnalysisBroken('no MatchMaker::operator()')
    f = fn[0]; where = (f['file'], f['line'], f['q']); ctx.count('functions')
    def args(a, x): return a.get(x.args[0], NotImplemented) if x.op == 'param' else NotImplemented
    def key(t, o):
        """the pair a lookup or insertion is made for"""
        for y in subterms(t):
            if y.op == 'app' and str(y.args[0]).split('::')[-1] in ('make_pair', 'pair') and len(y.args) >= 3:
                try: return Eval(o)(y.args[1]), Eval(o)(y.args[2])
                except Unknown: pass
        return None
    keys = set()
    e = engine(db, rec_store=lambda l, s: False)
    setparams(f)
    for a, b in ((3, 5), (5, 3)):
        for p in e.run(f):
            for fa in p.facts:
                if not any(is_field(y, 'matchSet') for y in subterms(fa)): continue
                k = key(fa, lambda x: args({'arg0': a, 'arg1': b}, x))
                if k: keys.add(k)
    for p in e.run(f):
        if p.end != 'return' or p.val is None: continue
        found = any(fa.op == 'not' and fa.args[0].op == 'eq0' and any(is_field(y, 'matchSet') for y in subterms(fa)) for fa in p.facts)
        t = p.val; ctx.count('comparisons')
        if found: ctx.check(any(y.op in ('ld', 'fv', 'L.f') and is_field(y, 'second') for y in subterms(t)) and any(is_field(y, 'matchSet') for y in subterms(t)), 'match', *where, 'for a pair with a match the value returned is %s' % show(t)[:100])
        elif any(fa.op == 'eq0' and any(is_field(y, 'matchSet') for y in subterms(fa)) for fa in p.facts):
            ps_ = {y.args[0] for y in subterms(t) if y.op == 'param'}
            if any(y.op == 'app' for y in subterms(t)): ctx.check({'arg2', 'arg3'} <= ps_, 'match', *where, 'for a pair without a match the value is computed from %s' % show(t)[:100])
    ctx.count('cases', 2)
    ctx.check(len(keys) <= 1, 'match', *where, 'the pairs (3,5) and (5,3) are looked up as %s' % sorted(keys))
    # what is stored
    for g in db.fn('MatchMaker::postLoad')[:1]:
        w2 = (g['file'], g['line'], g['q']); ctx.count('functions')
        e = engine(db); tops = e.run(g)
        for a, b in ((3, 5), (5, 3)):
            for lid, runs in e.loopruns.items():
                for p in runs[-1][1]:
                    for x in p.events:
                        if x.kind == 'call' and x.q.split('::')[-1] in ('insert', 'emplace') and is_field(x.obj, 'matchSet'):
                            def o(y):
                                if y.op == 'comp' and y.args[1].op == 'c': return (a, b, 17.)[int(y.args[1].args[0])]
                                if y.op == 'app' and str(y.args[0]) in ('int', 'trunc', 'cast') : return NotImplemented
                                return NotImplemented
                            k = [key(z, o) for z in x.args]; k = [z for z in k if z]
                            full = [z for z in x.args for y in subterms(z) if y.op == 'app' and str(y.args[0]).split('::')[-1] in ('make_pair', 'pair')]
                            ctx.count('cases')
                            if k and keys: ctx.check(any(z in keys for z in k), 'match', *w2, 'the match (%d,%d) is stored under %s, looked up as %s' % (a, b, k[:1], sorted(keys)))
        for algo, want in (('avg', 4.), ('min', 2.), ('max', 6.), ('harmAvg', 3.), ('zero', 0.), ('val', 'val')):
            for p in tops:
                if p.end == 'throw': continue
                def o(y):
                    if y.op == 'same':
                        s = [z for z in y.args if isinstance(z, Term) and show(z).startswith('"')]
                        if s: return show(s[0]) == '"%s"' % algo
                    return NotImplemented
                try: ok = all(Eval(o).truth(fa) for fa in p.facts)
                except Unknown: continue
                if not ok: continue
                pf = next((v for l, v in p.st.env.items() if is_field(l, 'fbPtr')), None); nv = next((v for l, v in p.st.env.items() if is_field(l, 'fbNeedsValues')), None)
                ctx.count('comparisons')
                nm = [y for y in subterms(pf)][0] if pf is not None else None
                nm = next((str(y.args[0]) for y in (subterms(pf) if pf is not None else ()) if y.op == 'fn'), None)
                if not ctx.check(nm is not None, 'match', *w2, "algo '%s' selects no function" % algo): continue
                ctx.check(nv is (FALSE if algo in ('val', 'zero') else TRUE), 'match', *w2, "algo '%s': values %s" % (algo, 'needed' if nv is TRUE else 'not needed'))
                for h in db.fn(nm)[:1]:
                    for q in engine(db).run(h):
                        r = q.val
                        for v1, v2 in ((2., 6.), (6., 2.)):
                            try: u = Eval(lambda x: 'val' if x.op == 'ld' and is_field(x, 'MatchMaker::val') else args({'arg0': v1, 'arg1': v2}, x))(r)
                            except Unknown: continue
                            ctx.check(u == want if isinstance(want, str) or isinstance(u, str) else eq(u, want), 'match', h['file'], h['line'], h['q'], "algo '%s' of 2 and 6 gives %s" % (algo, u))
