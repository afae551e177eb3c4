"""C10: contact geometry.  Every geometry functor of spheres is summarised once per kind of contact (new, existing); the body
positions are P1 and P1+D-S with the periodic shift S, so that only relative placement may remain; results are compared with the
geometric definitions per cell of the arrangement of their case distinctions (comparisons decided at one interior point of the
cell, the resulting expressions compared exactly)."""
import itertools, json, re
from fractions import Fraction as Fr
from kit import *
from lin import *
RULES = {
 'frame': 'the geometry depends on the positions of the bodies only through position2 + shift2 - position1 (the contact point is the same point seen from the first body); it is handed the states in order, the shift unchanged and whether the contact is new',
 'shape': 'normal, overlap, contact point and radii are those of the two shapes: the normal is the unit vector from the closest point of the first shape to the centre of the sphere, the overlap is radius (or sum of radii) minus distance',
 'start': 'a contact is refused only if it neither exists nor is forced and the shapes do not overlap (for two spheres within the detection factor); a refusal leaves no geometry behind, an acceptance leaves one',
 'motion': 'the shear increment is the tangential part of the relative velocity of the two bodies at the contact (with the velocity of the periodic image) times the time step; previous tangent vectors follow the rotation of the contact',
 'rotation': 'relative rotation is measured from the orientations at the creation of the contact',
 'reverse': 'called with the bodies in reverse order, a functor exchanges shapes, states and bodies together and reverses the shift',
}
EXPLAIN = 'Gated value-numbering of each geometry functor; exact comparison of the results with the geometric definition in each region (faces, edges, corners, inside/outside), for generic rational orientations and facets of both acute and obtuse shape.'
ASSUMES = ['real arithmetic', 'body centres do not coincide', 'the facet data (edge normals, inscribed circle) are those of its vertices']
FILES = ['pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/dem/ScGeom.cpp',
         'core/Body.cpp', 'core/BodyContainer.cpp', 'core/Cell.cpp', 'core/Interaction.cpp']
POS = 'Se3<double>::position'
def sy(n, k='s'): return mk('sym', n, kind=k)
P1, S, D = sy('P1', 'v'), sy('S', 'v'), sy('D', 'v')
X = [sy('x%d' % i) for i in R3]; EXT = [sy('e%d' % i) for i in R3]; RAD = sy('r'); RAD1 = sy('r1')
ROTS = [[[Fr(2, 3), Fr(-1, 3), Fr(2, 3)], [Fr(2, 3), Fr(2, 3), Fr(-1, 3)], [Fr(-1, 3), Fr(2, 3), Fr(2, 3)]],
        [[Fr(2, 7), Fr(3, 7), Fr(6, 7)], [Fr(6, 7), Fr(2, 7), Fr(-3, 7)], [Fr(-3, 7), Fr(6, 7), Fr(-2, 7)]]]
TRI = [[(-1, -1), (3, -1), (-1, 2)], [(-3, Fr(-3, 2)), (12, Fr(-3, 2)), (Fr(-3, 5), Fr(17, 10))]]     # incentre at the origin; right-angled and obtuse
def cst(x): return mk('c', Fr(x))
def vec(*x): return Val('v', [y if isinstance(y, Term) else cst(y) for y in x])
def minus(a, b): return plus(a, b.map(neg))
def times(s, v): return v.map(lambda x: mul(s, x))

class Cell:
    """one orientation, one facet, one interior point of a region"""
    def __init__(self, rot, at, r, tri=None, ext=None, flags=None, shrink=0):
        self.R = Val('m', [[cst(x) for x in row] for row in ROTS[rot]]); self.tri = tri; self.flags = flags or {}
        self.num = {X[i]: float(at[i]) for i in R3}; self.num[RAD] = float(r); self.num[RAD1] = 1.
        for i in R3: self.num[EXT[i]] = float((ext or (1, 1, 1))[i])
        self.X = vec(*X); self.D = prod(self.R, self.X); self.shrink = sy('shrink'); self.num[self.shrink] = shrink
        self.vl = [sy('vl%d' % i) for i in R3]; self.icr = sy('icr')
        if tri is not None:
            t = TRI[tri]; self.v = [(Fr(a), Fr(b)) for a, b in t]; self.ne = []
            for i in R3:
                a, b = self.v[i], self.v[(i + 1) % 3]; ex, ey = b[0] - a[0], b[1] - a[1]; l = Fr(int(round(float(ex * ex + ey * ey) ** .5 * 1000)), 1000)
                assert l * l == ex * ex + ey * ey
                self.ne.append((ey / l, -ex / l))
                self.num[self.vl[i]] = float(a[0] ** 2 + a[1] ** 2) ** .5
            self.icrv = self.ne[0][0] * self.v[0][0] + self.ne[0][1] * self.v[0][1]; self.num[self.icr] = float(self.icrv)
        self.L = Lin(self.hook); self.L.rot = self.rot; self.L.sign = self.value; self.memo = {}
    def rot(self, q):
        if q.op == 'app' and q.args[0] in ('e.conjugate', 'e.inverse'): return T(self.rot(q.args[1]))
        if q.op == 'normalized': return self.rot(q.args[0])
        if q.op == 'ld' and fname(q.args[0]).endswith('::orientation') and root(q).op == 'param' and root(q).args[0] == 'arg2': return self.R
        return Lin.rot(self.L, q)
    def hook(self, t):
        if t is D: return self.D
        if t.op != 'ld': return None
        l = t.args[0]; a = root(l)
        if l.op == 'L.f':
            f = l.args[1].split('::')[-1]; o = l.args[0]
            arg = a.args[0] if a.op == 'param' else ''
            if f == 'radius' and arg in ('arg0', 'arg1'): return Val('s', RAD if arg == 'arg1' else RAD1)
            if f == 'extents' and arg == 'arg0': return vec(*EXT)
            if self.tri is not None and arg == 'arg0':
                if f == 'normal': return vec(0, 0, 1)
                if f == 'icr': return Val('s', cst(self.icrv))
            if f == 'shrinkFactor': return Val('s', self.shrink)
        if l.op == 'L.e' and self.tri is not None and a.op == 'param' and a.args[0] == 'arg0' and l.args[1].op == 'c':
            b = l.args[0]
            while b.op in ('ld', 'addr'): b = b.args[0]
            f = fname(b).split('::')[-1]; k = int(l.args[1].args[0])
            if 0 <= k < 3:
                if f == 'ne': return vec(self.ne[k][0], self.ne[k][1], 0)
                if f == 'vertices': return vec(self.v[k][0], self.v[k][1], 0)
                if f == 'vu': return times(inv(self.vl[k]), vec(self.v[k][0], self.v[k][1], 0))
                if f == 'vl': return Val('s', self.vl[k])
        return None
    def value(self, t):
        """number of an expanded scalar at the point of the cell, or None"""
        if t.op == 'c': return float(t.args[0])
        if t in self.num: return self.num[t]
        if t.op == 'poly':
            s = 0.
            for c, m in t.args:
                p = float(c)
                for y in m:
                    v = self.value(y)
                    if v is None: return None
                    p *= v
                s += p
            return s
        if t.op == 'inv':
            v = self.value(t.args[0]); return None if not v else 1 / v
        if t.op == 'mul':
            v = [self.value(y) for y in t.args]; return None if None in v else v[0] * v[1]
        if t.op == 'app' and t.args[0] == 'bigmul':
            v = [self.value(y) for y in t.args[1:]]; return None if None in v else v[0] * v[1]
        if t.op == 'app' and t.args[0] in ('sqrt', 'abs') and len(t.args) == 2:
            v = self.value(t.args[1]); return None if v is None else abs(v) if t.args[0] == 'abs' else max(v, 0.) ** .5
        return None
    def __call__(self, t): return subst(t, self.f, self.memo)
    def f(self, x):
        if x.op == 'nn' or x.op == 'ld' and x.kind == 's':
            y = x.args[0] if x.op == 'nn' else x
            for k, v in self.flags.items():
                if (x.op == 'nn' or not getattr(k, 'ptr', 0)) and k(y): return (TRUE if v else FALSE) if x.op == 'nn' else (ONE if v else ZERO)
        if x.op == 'same' and any(fieldname('normal')(y) for y in x.args): return TRUE       # the contact keeps its side (a change of side is reported by an exception)
        if x.op in ('lt0', 'le0', 'eq0'):
            y = subst(x.args[0], self.f, self.memo)
            try: v = self.value(self.L.sc(y))
            except Shape: v = None
            if v is None: return None
            if x.op != 'eq0' and abs(v) < 1e-9 and v != 0: raise AnalysisBroken('a representative %s lies on the border of a region (%g): %s' % ([self.num[z] for z in X], v, show(x)[:400]))
            return B(v < 0 if x.op == 'lt0' else v <= 0 if x.op == 'le0' else v == 0)
        if x.op == 'app' and x.args[0] == 'abs' and len(x.args) == 2:
            y = subst(x.args[1], self.f, self.memo)
            try: v = self.value(self.L.sc(y))
            except Shape: v = None
            return None if v is None else neg(y) if v < 0 else y
        if x.op == 'app' and x.args[0] in ('max', 'min') and len(x.args) == 3:
            y = [subst(z, self.f, self.memo) for z in x.args[1:]]
            try: v = [self.value(self.L.sc(z)) for z in y]
            except Shape: v = [None]
            if None in v: return None
            return y[v.index(max(v) if x.args[0] == 'max' else min(v))]
        return None

I0 = lambda: mk('ld', mk('L.d', mk('param', 'arg6')), 0)
def fieldname(q): return lambda y: y.op == 'ld' and y.args[0].op == 'L.f' and y.args[0].args[1].split('::')[-1] == q
def isforce(y): return y.op == 'ld' and y.args[0].op == 'L.d' and y.args[0].args[0].op == 'param' and y.args[0].args[0].args[0] == 'arg5'

class Model:
    def __init__(self, ctx, db): self.ctx = ctx; self.db = db; self.cache = {}
    def fn(self, q):
        f = [f for k, f in self.db.fns.items() if f['q'] == q and f.get('body')]
        if len(f) != 1: raise AnalysisBroken('no unique %s' % q)
        return f[0]
    def text(self, cls):
        return json.dumps(self.fn(cls + '::go')['body'])
    def run(self, q, kind, opaque, const=None):
        """kind: 'new' (no geometry yet), 'old' (has one)"""
        f = self.fn(q); setparams(f); self.f = f
        def pre(st, eng):
            for i, v in ((2, P1), (3, sub(add(P1, D), S))):
                st.env[eng.field(eng.addr(eng.field(mk('param', 'arg%d' % i), 'State::se3')), POS)] = v
            st.env[mk('L.d', mk('param', 'arg4'))] = S
            g = eng.field(I0(), 'Interaction::geom')
            if kind == 'new': st.env[g] = NULL
            else: eng.assume(nonzero(mk('ld', g, 0)), st)
            for (a, fq), v in (const or {}).items(): st.env[eng.field(mk('ld', mk('L.d', mk('param', a)), 0), fq)] = v
        e = engine(self.db, rec_store=lambda l, s: False, rec_call=lambda q, *a: q in opaque, opaque=opaque)
        ps = e.run(f, pre=pre); self.ctx.count('functors'); self.ctx.count('paths', len(ps))
        return f, ps

class Diff:
    def __init__(self, *a): self.a = a
    def __str__(self): return 'entry %d is %s instead of %s' % (self.a[0], show(self.a[1])[:120], show(self.a[2])[:120])
def eqv(cell, got, want):
    """None if equal, else a description"""
    if got is None: return 'not set'
    g = cell(got) if isinstance(got, Term) else got
    try: g = cell.L(g) if isinstance(g, Term) else g
    except Shape as ex: return 'not comparable (%s)' % ex
    if g.k == 's' and g.e is ZERO and want.k != 's': g = zero(want.k)
    if g.k == 'r': g = T(g)
    if g.k != want.k: return 'a %s instead of a %s' % (g.k, want.k)
    for i, (a, b) in enumerate(zip(g.flat(), want.flat())):
        if not equal(a, b): return Diff(i, a, b)
    return None

def pick(ctx, cell, ps, where, what):
    """the path taken in the cell"""
    out = []
    for p in ps:
        if p.end == 'throw' and any(cell(x) is FALSE for x in p.facts): continue
        v = [cell(x) for x in p.facts]
        if any(x is FALSE for x in v): continue
        out.append((p, [x for x in v if x is not TRUE]))
    return out

def free_of(cell, t, *syms):
    if not any(y in syms for y in subterms(t)): return True
    try: es = cell.L(t).flat()
    except Shape: return False
    return not any(y in syms for x in es for y in subterms(x))
def geomloc(p): return p.st.env.get(mk('L.f', I0(), 'Interaction::geom'))
def gfield(p, g, n):
    for l, v in p.st.env.items():
        if l.op == 'L.f' and l.args[0] is g and l.args[1].split('::')[-1] == n: return v
    return None

def compare_cell(M, f, ps, cell, kind, exp, where, region, sig):
    """exp: None (must be refused) or dict normal, depth, point, r1, r2"""
    ctx = M.ctx; ctx.count('cells')
    sel = pick(ctx, cell, ps, where, region)
    if len(sel) != 1 or sel[0][1]:
        ctx.undecided('%s, %s: %d paths apply, open conditions %s' % (f['q'], region, len(sel), [show(x)[:160] for x in (sel[0][1] if sel else [])])); return
    p = sel[0][0]
    if p.end == 'throw': ctx.check(False, 'start', *where, '%s: throws' % region); return
    r = cell(p.val) if p.val is not None else None
    if r not in (TRUE, FALSE): ctx.undecided('%s, %s: result %s' % (f['q'], region, show(r)[:80] if r else r)); return
    if exp is None:
        ctx.check(r is FALSE, 'start', *where, '%s: a contact is made although the shapes do not touch' % region)
        return
    if not ctx.check(r is TRUE, 'start', *where, '%s: no contact is made although the shapes touch, the contact exists or is forced' % region): return
    ev = [e for e in p.events if e.kind == 'call']
    if not ctx.check(len(ev) == 1, 'frame', *where, '%s: %d updates of the contact motion instead of one' % (region, len(ev))): return
    ev = ev[0]; sig(M, f, p, ev, cell, kind, exp, where, region)

def cp_off(cell, t):
    """offset of a point from the first body: P1 must occur exactly once"""
    return sub(t, P1)

def sc_sig(M, f, p, ev, cell, kind, exp, where, region):
    """ScGeom::precompute(state1,state2,scene,contact,normal,isNew,shift2,ratcheting) on the geometry of the contact"""
    ctx = M.ctx; a = ev.args
    g = geomloc(p) or mk('ld', mk('L.f', I0(), 'Interaction::geom'), 0)
    g = cell(g)
    if not ctx.check(len(a) == 8, 'frame', *where, 'unexpected update call'): return
    st = [mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0) for i in (2, 3)]
    ctx.check(a[0] is st[0] and a[1] is st[1], 'frame', *where, '%s: the motion is not computed from the states of the two bodies in order' % region, key=f['q'] + region + 'st')
    ctx.check(a[6] is S, 'frame', *where, '%s: the motion is computed with another shift than the given one: %s' % (region, show(a[6])[:80]), key=f['q'] + region + 'sh')
    ctx.check(cell(a[5]) is B(kind == 'new'), 'frame', *where, '%s: a %s contact is taken for the opposite' % (region, 'new' if kind == 'new' else 'existing'), key=f['q'] + region + 'nw')
    rt = cell(a[7]) if a[7] in (TRUE, FALSE) else a[7]
    if exp.get('spheres'): ctx.check(fieldname('avoidGranularRatcheting')(rt) or fieldname('noRatch')(rt), 'motion', *where, '%s: whether branch vectors of constant length are used is not what the functor was told' % region, key=f['q'] + region + 'rt')
    else: ctx.check(rt is FALSE, 'motion', *where, '%s: the velocity of a shape without a centre is taken at a constant distance from its position' % region, key=f['q'] + region + 'rt')
    o = cell(ev.obj)
    # the geometry given to the contact: the updated object itself or a copy of it (6 degrees of freedom)
    ctx.check(o is g or g.op == 'newobj' and o.op == 'newobj', 'start', *where, '%s: the updated geometry is not that of the contact' % region, key=f['q'] + region + 'ob')
    g0 = o
    for n, v in (('normal', a[4]), ('penetrationDepth', gfield(p, g0, 'penetrationDepth')), ('contactPoint', gfield(p, g0, 'contactPoint')), ('radius1', gfield(p, g0, 'radius1')), ('radius2', gfield(p, g0, 'radius2'))):
        if n not in exp: continue
        if v is None: ctx.check(False, 'shape', *where, '%s: %s is not set' % (region, n)); continue
        if n == 'contactPoint': v = sub(v, P1)
        v = cell(v)
        ctx.check(free_of(cell, v, P1), 'frame', *where, '%s: %s depends on the absolute position of the bodies' % (region, n), key='%s|%s|%s|p' % (f['q'], region, n))
        ctx.check(free_of(cell, v, S), 'frame', *where, '%s: %s does not use the periodic image of the second body' % (region, n), key='%s|%s|%s|s' % (f['q'], region, n))
        e = eqv(cell, v, exp[n])
        ctx.check(e is None, 'shape', *where, '%s: %s: %s' % (region, n, e), key='%s|%s|%s|v' % (f['q'], region, n))

def l3_sig(M, f, p, ev, cell, kind, exp, where, region):
    """handleSpheresLikeContact(contact,state1,state2,shift2,6dof,normal,point,uN,r1,r2)"""
    ctx = M.ctx; a = ev.args
    if not ctx.check(len(a) == 10, 'frame', *where, 'unexpected update call'): return
    st = [mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0) for i in (2, 3)]
    ctx.check(a[1] is st[0] and a[2] is st[1], 'frame', *where, '%s: the motion is not computed from the states of the two bodies in order' % region, key=f['q'] + region + 'st')
    ctx.check(a[3] is S, 'frame', *where, '%s: the motion is computed with another shift than the given one' % region, key=f['q'] + region + 'sh')
    for n, v in (('normal', a[5]), ('contactPoint', a[6]), ('uN', a[7]), ('refR1', a[8]), ('refR2', a[9])):
        if n not in exp: continue
        if n == 'contactPoint': v = sub(v, P1)
        v = cell(v)
        ctx.check(free_of(cell, v, P1), 'frame', *where, '%s: %s depends on the absolute position of the bodies' % (region, n), key='%s|%s|%s|p' % (f['q'], region, n))
        ctx.check(free_of(cell, v, S), 'frame', *where, '%s: %s does not use the periodic image of the second body' % (region, n), key='%s|%s|%s|s' % (f['q'], region, n))
        e = eqv(cell, v, exp[n])
        ctx.check(e is None, 'shape', *where, '%s: %s: %s' % (region, n, e), key='%s|%s|%s|v' % (f['q'], region, n))

ST = [(k, dict(s, geom=k == 'old')) for k, s in [('new', {'force': 0, 'real': 0}), ('new', {'force': 1, 'real': 0}), ('old', {'force': 0, 'real': 1}), ('old', {'force': 0, 'real': 0}), ('old', {'force': 1, 'real': 0})]]
isgeom = fieldname('geom'); isgeom.ptr = 1
def flags(s, **kw):
    d = {isforce: s['force'], fieldname('phys'): s['real'], isgeom: s['geom']}
    for k, v in kw.items(): d[fieldname(k)] = v
    return d
def half(t): return scale(t, Fr(1, 2))
def sfmt(s): return '%s contact%s' % ('existing' if s['real'] else 'new', ', forced' if s['force'] else '')

def spheres(M, q, op, sig, l3=False, wrap6=False):
    ctx = M.ctx
    for kind in ('new', 'old'):
        f, ps = M.run(q, kind, {op}); where = (f['file'], f['line'], f['q'])
        for k, s in ST:
            if k != kind: continue
            # gap: within the detection range, beyond it, overlapping
            for fac, at, nm in ((1.5, (2, 2, 1), 'within the detection range'), (1.5, (4, 4, 2), 'beyond the detection range'), (1., (1, 1, .5), 'overlapping'), (1., (2, 2, 1), 'apart')):
                cell = Cell(0, at, 1.2, flags=flags(s))
                fq = sy('factor'); cell.num[fq] = fac; h0 = cell.hook
                cell.L.hook = lambda t, h0=h0, fq=fq: Val('s', fq) if t.op == 'ld' and t.args[0].op == 'L.f' and t.args[0].args[1].split('::')[-1] in ('interactionDetectionFactor', 'distFactor') else h0(t)
                d = (sum(x * x for x in at)) ** .5; touch = d < fac * 2.2
                n = times(inv(cell.L.norm(cell.D)), cell.D); dist = cell.L.norm(cell.D); pen = sub(add(RAD1, RAD), dist)
                if not touch and not s['real'] and not s['force']: exp = None
                elif l3: exp = {'normal': n, 'uN': Val('s', neg(pen)), 'contactPoint': times(sub(RAD1, half(pen)), n), 'refR1': Val('s', RAD1), 'refR2': Val('s', RAD)}
                else: exp = {'normal': n, 'penetrationDepth': Val('s', pen), 'contactPoint': times(sub(RAD1, half(pen)), n), 'radius1': Val('s', RAD1), 'radius2': Val('s', RAD), 'spheres': True}
                compare_cell(M, f, ps, cell, kind, exp, where, 'two spheres %s (%s)' % (nm, sfmt(s)), sig)

def walls(M, q, op, sig, l3=False):
    ctx = M.ctx
    for kind in ('new', 'old'):
        for ax in R3:
            for sense in (-1, 0, 1):
                f, ps = M.run(q, kind, {op}, {('arg0', 'Wall::axis'): const(ax), ('arg0', 'Wall::sense'): const(sense)}); where = (f['file'], f['line'], f['q'])
                for k, s in ST:
                    if k != kind: continue
                    for x in (-2, -.5, .5, 2):
                        if sense and x * sense < 0: continue       # the side that does not interact
                        at = [.3, -.4, .7]; at[ax] = x
                        cell = Cell(0, at, 1.2, flags=flags(s, isPeriodic=0)); cell.R = Val('m', [[ONE if i == j else ZERO for j in R3] for i in R3]); cell.D = cell.X
                        touch = abs(x) < 1.2; sg = 1 if x > 0 else -1
                        n = vec(*[sg if i == ax else 0 for i in R3]); dist = scale(X[ax], Fr(sg)); pt = vec(*[ZERO if i == ax else X[i] for i in R3])
                        if not touch and not s['real'] and not s['force']: exp = None
                        elif l3: exp = {'normal': n, 'uN': Val('s', sub(dist, RAD)), 'contactPoint': pt, 'refR1': Val('s', ZERO), 'refR2': Val('s', RAD)}
                        else: exp = {'normal': n, 'penetrationDepth': Val('s', sub(RAD, dist)), 'contactPoint': pt, 'radius1': Val('s', RAD), 'radius2': Val('s', RAD), 'spheres': True}
                        compare_cell(M, f, ps, cell, kind, exp, where, 'wall normal to axis %d, sense %d, sphere %s side (%s)' % (ax, sense, 'positive' if x > 0 else 'negative', sfmt(s)), sig)

def boxes(M, q, op, sig):
    for kind in ('new', 'old'):
        f, ps = M.run(q, kind, {op}); where = (f['file'], f['line'], f['q']); ext = (1.1, 1.3, 1.7)
        for k, s in ST:
            if k != kind: continue
            pts = []
            for z in itertools.product((-1, 0, 1), repeat=3):
                for far in (0, 1):
                    at = [z[i] * (ext[i] + (.41 + .03 * i if not far else 1.9)) if z[i] else (.2, -.3, .25)[i] for i in R3]
                    if any(z) and (far == 0 or sum(abs(c) for c in z) == 1): pts.append((z, at, None))
            for i in R3:
                for sg in (-1, 1):
                    at = [.05, -.07, .06]; at[i] = sg * (ext[i] - .1 * (i + 1)); pts.append(((0, 0, 0), at, (i, sg)))
            if s['force'] or s['geom'] and not s['real']: pts = pts[::4]
            for j, (z, at, ins) in enumerate(pts):
                for rt in (j % 2,):
                    cell = Cell(rt, at, 1.2, ext=ext, flags=flags(s))
                    if ins is None:
                        c = vec(*[scale(EXT[i], Fr(z[i])) if z[i] else X[i] for i in R3]); w = prod(cell.R, minus(cell.X, c)); d = cell.L.norm(w)
                        dn = sum((abs(at[i]) - ext[i]) ** 2 for i in R3 if z[i]) ** .5
                        n = times(inv(d), w); pen = sub(RAD, d); touch = dn < 1.2
                        pt = minus(cell.D, times(sub(RAD, half(pen)), n))
                    else:
                        i, sg = ins; n = prod(cell.R, vec(*[sg if j == i else 0 for j in R3])); gap = sub(EXT[i], scale(X[i], Fr(sg))); pen = add(RAD, gap); touch = True
                        pt = plus(cell.D, times(half(sub(gap, RAD)), n))
                    exp = None if not touch and not s['real'] and not s['force'] else {'normal': n, 'penetrationDepth': Val('s', pen), 'contactPoint': pt, 'radius1': Val('s', RAD), 'radius2': Val('s', RAD)}
                    region = 'sphere %s a box (%s)' % ('inside' if ins else 'outside, at %s %s of' % ({1: 'a face', 2: 'an edge', 3: 'a corner'}[sum(map(abs, z))], z), sfmt(s))
                    compare_cell(M, f, ps, cell, kind, exp, where, region, sig)

def facet_points(tri):
    """interior points of the regions of a facet: face, edges, corners"""
    v = [(float(a), float(b)) for a, b in TRI[tri]]; out = [('face', None, (.11, .07)), ('face', None, tuple(.6 * c + .013 for c in v[1]))]
    for i in R3:
        a, b = v[i], v[(i + 1) % 3]; e = (b[0] - a[0], b[1] - a[1]); l = (e[0] ** 2 + e[1] ** 2) ** .5; n = (e[1] / l, -e[0] / l)
        for t in (.01, .07, .35, .8, .93, .99): out.append(('edge', i, (a[0] + t * e[0] + .37 * n[0], a[1] + t * e[1] + .37 * n[1])))
        c = v[i - 1]; e0 = (a[0] - c[0], a[1] - c[1]); l0 = (e0[0] ** 2 + e0[1] ** 2) ** .5; n0 = (e0[1] / l0, -e0[0] / l0)
        # corner i: within the cone of the normals of its two edges
        for t in (.12, .47, .88):
            w = (t * n[0] + (1 - t) * n0[0], t * n[1] + (1 - t) * n0[1]); out.append(('corner', i, (a[0] + .4 * w[0], a[1] + .4 * w[1])))
    return out
def facets(M, q, op, sig, l3=False):
    for kind in ('new', 'old'):
        f, ps = M.run(q, kind, {op}); where = (f['file'], f['line'], f['q'])
        for k, s in ST:
            if k != kind: continue
            for tri in range(len(TRI)):
                pts = facet_points(tri); main = (s['force'], s['real']) in ((0, 0), (0, 1)) and not (s['geom'] and not s['real'])
                if not main: pts = pts[::4]        # the same geometry: a sample of the regions in the other states of the contact
                pts = [x + (0,) for x in pts]
                if not l3 and main:     # a shrunken facet: its edges move inwards
                    v = [(float(a), float(b)) for a, b in TRI[tri]]; pts.append(('face', None, (.11, .07), .1))
                    for i in R3:
                        a, b = v[i], v[(i + 1) % 3]; e = (b[0] - a[0], b[1] - a[1]); l = (e[0] ** 2 + e[1] ** 2) ** .5
                        for o in (-.06, .2): pts.append(('edge', i, ((a[0] + b[0]) / 2 + o * e[1] / l, (a[1] + b[1]) / 2 - o * e[0] / l), .1))
                for j, (reg, i, (px, py), shr) in enumerate(pts):
                    for z in (.31, -.31, 2.4):
                        for rt in ((0, 1) if reg == 'face' else (j % 2,)):
                            cell = Cell(rt, (px, py, z), 1.2, tri=tri, flags=flags(s), shrink=shr)
                            nz = vec(0, 0, 1); sg = 1 if z > 0 else -1
                            if reg == 'face': c = vec(X[0], X[1], 0)
                            elif reg == 'edge':
                                ne = vec(cell.ne[i][0], cell.ne[i][1], 0); pl = vec(X[0], X[1], 0)
                                exc = sub(cst(cell.icrv), prod(T(ne), pl).e)
                                if not l3: exc = sub(exc, mul(RAD, cell.shrink))
                                c = plus(pl, times(exc, ne))
                            else:
                                c = vec(cell.v[i][0], cell.v[i][1], 0)
                                if not l3: c = minus(c, times(mul(inv(cell.vl[i]), mul(RAD, cell.shrink)), c))
                            w = minus(cell.X, c)
                            if reg == 'face': d = scale(X[2], Fr(sg)); n = prod(cell.R, vec(0, 0, sg)); dn = abs(z)
                            else:
                                d = cell.L.norm(w); n = times(inv(d), prod(cell.R, w))
                                dn = cell.value(d)
                            touch = dn < 1.2
                            if not touch and not s['real'] and not s['force']: exp = None
                            elif l3: exp = {'normal': n, 'uN': Val('s', sub(d, RAD)), 'contactPoint': minus(cell.D, times(d, n)), 'refR1': Val('s', ZERO), 'refR2': Val('s', RAD)}
                            else:
                                pen = sub(RAD, d)
                                exp = {'normal': n, 'penetrationDepth': Val('s', pen), 'contactPoint': minus(cell.D, times(sub(RAD, half(pen)), n)), 'radius1': Val('s', scale(RAD, Fr(2))), 'radius2': Val('s', RAD)}
                            region = 'sphere at %s of %s facet, %s side (%s)' % (reg if i is None else '%s %d' % (reg, i), ('a right-angled', 'an obtuse')[tri], 'positive' if z > 0 else 'negative', sfmt(s))
                            compare_cell(M, f, ps, cell, kind, exp, where, region, sig)


# ---------------------------------------------------------------- motion of a contact
VEL, ANG = 'State::vel', 'State::angVel'
def fld(b, q, k='s'): return mk('ld', mk('L.f', b, q), 0, kind=k)
def drf(i): return mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0)
class Motion(Cell):
    """a cell of the options of the motion update; loads stay symbols"""
    def __init__(self, num, flags): Cell.__init__(self, 0, (1, 1, 1), 1, flags=flags); self.num.update(num)
    def hook(self, t): return None
    def rot(self, q): return Lin.rot(self.L, q)

def lv3(cell, *ts): return [cell.L.vec(t) for t in ts]
def dotp(a, b): return prod(T(a), b).e

def sc_motion(M):
    ctx = M.ctx; f = M.fn('ScGeom::precompute'); setparams(f); where = (f['file'], f['line'], f['q'])
    V = [sy('v1', 'v'), sy('v2', 'v')]; W = [sy('w1', 'v'), sy('w2', 'v')]; P = [sy('p1', 'v'), sy('p2', 'v')]; N0, N, CP, SH = [sy(n, 'v') for n in ('n0', 'n', 'cp', 'sh')]
    DT, PEN = sy('dt'), sy('pen'); H = sy('VH', 'm'); CD = sy('cd', 'v'); r1, r2 = sy('r1'), sy('r2'); PER, NEW, RAT = sy('periodic'), sy('isnew'), sy('ratch')
    th = mk('this')
    def pre(st, eng):
        for i in (0, 1):
            b = mk('param', 'arg%d' % i)
            st.env[eng.field(b, VEL)] = V[i]; st.env[eng.field(b, ANG)] = W[i]; st.env[eng.field(eng.addr(eng.field(b, 'State::se3')), POS)] = P[i]
        sc = mk('param', 'arg2')
        st.env[eng.field(sc, 'Scene::dt')] = DT; st.env[eng.field(sc, 'Scene::isPeriodic')] = PER
        st.env[eng.field(eng.read(eng.field(sc, 'Scene::cell'), st), 'Cell::_vGradTimesPrevH')] = H
        st.env[eng.field(mk('ld', mk('L.d', mk('param', 'arg3')), 0), 'Interaction::cellDist')] = CD
        st.env[mk('L.d', mk('param', 'arg4'))] = N; st.env[mk('L.d', mk('param', 'arg6'))] = SH
        for q, v in (('GenericSpheresContact::normal', N0), ('GenericSpheresContact::contactPoint', CP), ('ScGeom::penetrationDepth', PEN)): st.env[eng.field(th, q)] = v
    rad = {}
    e = engine(M.db, rec_store=lambda l, s: False)
    ps = e.run(f, params={5: NEW, 7: RAT}, pre=pre); ctx.count('functors'); ctx.count('paths', len(ps))
    for new, rat, per in itertools.product((0, 1), repeat=3):
        cell = Motion({}, {lambda y: y is NEW: new, lambda y: y is RAT: rat, lambda y: y is PER: per})
        old = cell.f
        region = '%s contact, %s ratcheting, %s scene' % ('new' if new else 'existing', 'avoiding' if rat else 'with', 'periodic' if per else 'aperiodic')
        sel = pick(ctx, cell, ps, where, region)
        if len(sel) != 1 or sel[0][1]: ctx.undecided('%s, %s: %d paths, %s' % (f['q'], region, len(sel), [show(x)[:120] for x in (sel[0][1] if sel else [])])); continue
        p = sel[0][0]; got = {l.args[1].split('::')[-1]: v for l, v in p.st.env.items() if l.op == 'L.f' and l.args[0] is th}
        n, n0, v1, v2, w1, w2, cp, p1, p2, sh = lv3(cell, N, N0, *V, *W, CP, *P, SH); d = Val('s', DT)
        R = [mk('ld', mk('L.f', th, 'ScGeom::radius%d' % i), 0) for i in (1, 2)]
        R = [next((y for y in subterms(got.get('shearInc', ZERO)) if y.op == 'ld' and fname(y.args[0]).split('::')[-1] in ('radius%d' % i, 'refR%d' % i)), R[i - 1]) for i in (1, 2)]
        img = prod(cell.L(H), cell.L.vec(CD)) if per else zero('v')
        if rat:
            al = mul(add(R[0], R[1]), inv(sub(add(R[0], R[1]), PEN)))
            v = plus(times(al, plus(minus(v2, v1), img)), plus(mcross(w2, times(neg(R[1]), n)), times(mk('c', Fr(-1)), mcross(w1, times(R[0], n)))))
        else:
            v = plus(minus(plus(v2, mcross(w2, minus(cp, plus(p2, sh)))), plus(v1, mcross(w1, minus(cp, p1)))), img)
        want = {'normal': n, 'shearInc': times(DT, minus(v, times(dotp(n, v), n))),
                'orthonormal_axis': zero('v') if new else mcross(n0, n), 'twist_axis': zero('v') if new else times(mul(scale(DT, Fr(1, 2)), dotp(n0, plus(w1, w2))), n0)}
        for k, w in want.items():
            e_ = eqv(cell, got.get(k), w)
            ctx.check(e_ is None, 'motion', *where, '%s: %s: %s' % (region, {'shearInc': 'shear increment', 'orthonormal_axis': 'rotation of the normal', 'twist_axis': 'rotation about the normal'}.get(k, k), e_), key='%s|%s' % (region, k))
    # rotation of tangent vectors
    f = M.fn('ScGeom::rotate'); setparams(f); where = (f['file'], f['line'], f['q']); F = sy('F', 'v')
    def pre(st, eng): st.env[mk('L.d', mk('param', 'arg0'))] = F
    ps = engine(M.db, rec_store=lambda l, s: False).run(f, pre=pre); ctx.count('functors'); ctx.count('paths', len(ps))
    cell = Motion({}, {}); a, b = (mk('ld', mk('L.f', th, 'ScGeom::%s_axis' % x), 0, kind='v') for x in ('orthonormal', 'twist'))
    for p in ps:
        v = p.st.env.get(mk('L.d', mk('param', 'arg0')))
        ax = [next((y for y in subterms(v) if y.op == 'ld' and fname(y.args[0]).endswith('::%s_axis' % x)), None) for x in ('orthonormal', 'twist')] if v is not None else [None]
        if not ctx.check(None not in ax, 'motion', *where, 'a tangent vector does not follow both rotations of the contact'): continue
        Fv, A, Bv = lv3(cell, F, *ax); w = minus(Fv, mcross(Fv, A)); w = minus(w, mcross(w, Bv))
        w2 = minus(Fv, mcross(Fv, Bv)); w2 = minus(w2, mcross(w2, A)); w3 = minus(minus(Fv, mcross(Fv, A)), mcross(Fv, Bv))
        e_ = [eqv(cell, v, x) for x in (w, w2, w3)]
        ctx.check(None in e_, 'motion', *where, 'a tangent vector is not rotated by the two rotations of the contact: %s' % e_[0])

def l3_motion(M):
    ctx = M.ctx; f = M.fn('Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact'); setparams(f); where = (f['file'], f['line'], f['q'])
    V = [sy('v1', 'v'), sy('v2', 'v')]; W = [sy('w1', 'v'), sy('w2', 'v')]; P = [sy('p1', 'v'), sy('p2', 'v')]; N0, N, CP, SH, U, PHI = [sy(n, 'v') for n in ('n0', 'n', 'cp', 'sh', 'u', 'phi')]
    DT, UN, r1, r2 = sy('dt'), sy('uN'), sy('r1'), sy('r2'); H, TR = sy('VH', 'm'), sy('tr', 'm'); CD = sy('cd', 'v'); PER, SIX, RAT, MASK, REN, IT, DF = sy('periodic'), sy('six'), sy('ratch'), sy('mask'), sy('renorm'), sy('iter'), sy('df')
    I = drf(0)
    for kind in ('new', 'old'):
        def pre(st, eng):
            for i in (0, 1):
                b = mk('param', 'arg%d' % (i + 1))
                st.env[eng.field(b, VEL)] = V[i]; st.env[eng.field(b, ANG)] = W[i]; st.env[eng.field(eng.addr(eng.field(b, 'State::se3')), POS)] = P[i]
            for i, v in ((3, SH), (5, N), (6, CP)): st.env[mk('L.d', mk('param', 'arg%d' % i))] = v
            sc = eng.read(eng.field(mk('this'), 'Functor::scene'), st)
            st.env[eng.field(sc, 'Scene::dt')] = DT; st.env[eng.field(sc, 'Scene::isPeriodic')] = PER; st.env[eng.field(sc, 'Scene::iter')] = IT
            st.env[eng.field(eng.read(eng.field(sc, 'Scene::cell'), st), 'Cell::_vGradTimesPrevH')] = H
            st.env[eng.field(I, 'Interaction::cellDist')] = CD
            for q, v in (('noRatch', RAT), ('approxMask', MASK), ('trsfRenorm', REN), ('distFactor', DF)): st.env[eng.field(mk('this'), 'Ig2_Sphere_Sphere_L3Geom::' + q)] = v
            g = eng.field(I, 'Interaction::geom')
            if kind == 'new': st.env[g] = NULL; return
            eng.assume(nonzero(mk('ld', g, 0)), st); g = mk('ld', g, 0)
            for q, v in (('GenericSpheresContact::normal', N0), ('L3Geom::u', U), ('L3Geom::trsf', TR), ('L6Geom::phi', PHI)): st.env[eng.field(g, q)] = v
        ps = engine(M.db, rec_store=lambda l, s: False, opaque={'Indexable::createIndex'}).run(f, params={4: SIX, 7: UN, 8: r1, 9: r2}, pre=pre); ctx.count('functors'); ctx.count('paths', len(ps))
        for six, rat, per, ren, mask, r1v in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2, 4), (0, 1)):
            if kind == 'new' and (mask or per or rat or ren): continue
            if kind == 'old' and (six != per or ren and (mask or not r1v)): continue
            num = {REN: float(ren * 5), IT: 10., r1: float(r1v), DF: 1., UN: -.1, DT: .1}
            cell = Motion(num, {lambda y: y is SIX: six, lambda y: y is RAT: rat, lambda y: y is PER: per, isgeom: kind == 'old'})
            old = cell.f
            def fm(x, old=old, cell=cell, mask=mask, ren=ren):
                if x.op == 'nn' and x.args[0].op == 'app' and x.args[0].args[0] in ('&', '%'):
                    a = x.args[0]
                    if a.args[0] == '%' and REN in subterms(a): return FALSE if ren else None       # a multiple of the period (never asked without a period)
                    if a.args[0] == '&' and MASK in a.args:
                        c = [y for y in a.args[1:] if y.op == 'c']
                        if len(c) == 1: return B(mask & int(c[0].args[0]))
                return old(x)
            cell.f = fm
            region = '%s contact, noRatch=%d, approxMask=%d, %s%s%s%s' % ('new' if kind == 'new' else 'existing', rat, mask, 'periodic' if per else 'aperiodic', ', axes renewed' if ren else '', ', 6 degrees of freedom' if six else '', '' if r1v else ', first shape without radius')
            if kind == 'new':
                for big in ((.1, .9, .3), (.1, .3, .9)):
                    for i in R3: cell.num[mk('comp', N, const(i))] = big[i]
                    cell.memo = {}
                    l3_one(M, f, ps, cell, kind, region, where, locals())
            else: l3_one(M, f, ps, cell, kind, region, where, locals())

def l3_one(M, f, ps, cell, kind, region, where, c):
    ctx = M.ctx; ctx.count('cells')
    sel = pick(ctx, cell, ps, where, region)
    if len(sel) != 1 or sel[0][1]: ctx.undecided('%s, %s: %d paths, %s' % (f['q'], region, len(sel), [show(x)[:120] for x in (sel[0][1] if sel else [])])); return
    p = sel[0][0]; g = mk('L.f', drf(0), 'Interaction::geom'); g = p.st.env.get(g) or mk('ld', g, 0); g = cell(g)
    got = {}
    for l, v in p.st.env.items():
        if l.op == 'L.f' and (l.args[0] is g or cell(l.args[0]) is g):
            v = cell(v)
            if not (v.op == 'ld' and v.args[0] is l): got[l.args[1].split('::')[-1]] = v
    n, n0, v1, v2, w1, w2, cp, p1, p2, sh, u = lv3(cell, c['N'], c['N0'], *c['V'], *c['W'], c['CP'], *c['P'], c['SH'], c['U']); DT = c['DT']
    want = {'normal': n, 'contactPoint': cp, 'refR1': Val('s', c['r1']), 'refR2': Val('s', c['r2'])}
    chk = lambda k, w, t: ctx.check(w is None, 'motion', *where, '%s: %s: %s' % (region, t, w), key='%s|%s|%s' % (f['q'], region, k))
    for k, w in want.items(): chk(k, eqv(cell, got.get(k), w), k)
    if not chk('has', None if 'u' in got and 'trsf' in got else 'not set', 'displacement and local axes'): return
    tr = cell.L.m(got['trsf']); row = lambda i: Val('v', list(tr.e[i]))
    if kind == 'new':
        chk('u', eqv(cell, got['u'], Val('v', [c['UN'], ZERO, ZERO])), 'displacement')
        chk('row0', eqv(cell, row(0), n), 'local x axis')
        a = [cell.value(x) for x in tr.flat()]
        # the other axes: unit normal vectors n x e made orthogonal to the normal, and their vector product
        b = next((i for i in (1, 2) if eqv(cell, row(2), mcross(n, row(1))) is None), None)
        chk('row2', None if b else 'not the vector product of the two others', 'local z axis')
        un = [T(Val('v', [ONE if i == j else ZERO for j in R3])) for i in R3]
        ok = False
        for i in R3:
            w = mcross(n, T(un[i])); w = minus(w, times(dotp(n, w), n))
            if eqv(cell, row(1), times(inv(cell.L.norm(w)), w)) is None:
                ok = abs(cell.value(n.e[i]) or 0) < .8 * max(abs(cell.value(x)) for x in n.e)
        chk('row1', None if ok else 'not a unit vector normal to the contact normal, safely away from it', 'local y axis')
        return
    rat, mask, per, ren, r1v, six = c['rat'], c['mask'], c['per'], c['ren'], c['r1v'], c['six']
    if mask & 2: av = n0
    else:
        av = times(mk('c', Fr(1, 2)), plus(n, n0))
        if not mask & 4: av = times(inv(cell.L.norm(av)), av)
    c1 = times(c['r1'], n) if rat and r1v else minus(cp, p1)
    c2 = times(neg(c['r2']), n) if rat else minus(cp, plus(p2, sh))
    v = minus(plus(v2, mcross(w2, c2)), plus(v1, mcross(w1, c1)))
    if per: v = plus(v, prod(cell.L(c['H']), cell.L.vec(c['CD'])))
    du = times(DT, minus(v, times(dotp(av, v), av)))
    rotv = plus(mcross(n0, n), times(mul(scale(DT, Fr(1, 2)), dotp(av, plus(w1, w2))), av))
    t0 = cell.L(c['TR']); cur = [n] + [minus(Val('v', list(t0.e[i])), mcross(Val('v', list(t0.e[i])), rotv)) for i in (1, 2)]
    if ren:
        x = times(inv(cell.L.norm(n)), n); y = minus(cur[1], times(dotp(cur[1], x), x)); y = times(inv(cell.L.norm(y)), y); z = mcross(x, y); cur = [x, y, z]
    for i in R3:
        r = row(i); e_ = eqv(cell, r, cur[i])
        if e_ is not None and ren and i == 2: e_ = eqv(cell, r, times(inv(cell.L.norm(cur[2])), cur[2]))
        if e_ is not None and ren and i < 2: e_ = eqv(cell, r, times(inv(cell.L.norm(cur[i])), cur[i]))
        chk('t%d' % i, e_, 'local axis %d' % i)
    # local increments by the half-way rotation
    qs = {y for y in subterms(got['u']) if y.op == 'app' and y.args[0] == 'e.slerp'}
    if mask & 1: q = t0
    else:
        if not chk('mid', None if len(qs) == 1 else '%d half-way rotations' % len(qs), 'increment of the displacement'): return
        q = next(iter(qs)); a = q.args[1:]
        ok = len(a) == 3 and a[1].op == 'c' and a[1].args[0] == Fr(1, 2) and {cell.L.rot(a[0]) is not None} and eqv(cell, cell.L.rot(a[0]), t0) is None and eqv(cell, cell.L.rot(a[2]), tr) is None
        chk('mid2', None if ok else 'not between the previous and the current axes', 'half-way rotation')
        q = cell.L.rot(q)
    w = plus(u, prod(q, du)); w = Val('v', [c['UN']] + w.e[1:])
    chk('u', eqv(cell, got['u'], w), 'displacement')
    ph = cell.L.vec(c['PHI'])
    chk('phi', eqv(cell, got.get('phi', c['PHI']), plus(ph, times(DT, prod(q, minus(w2, w1)))) if six else ph), 'relative rotation')

# ---------------------------------------------------------------- relative rotation, reversed calls
def rotations(M):
    ctx = M.ctx; f = M.fn('ScGeom6D::precomputeRotations'); setparams(f); where = (f['file'], f['line'], f['q']); th = mk('this')
    O = [sy('o1', 'q'), sy('o2', 'q')]; I = [sy('i1', 'q'), sy('i2', 'q')]; CR = sy('creep', 'q'); N = sy('n', 'v'); NEW, CP = sy('isnew'), sy('docreep')
    def pre(st, eng):
        for i in (0, 1):
            st.env[eng.field(eng.addr(eng.field(mk('param', 'arg%d' % i), 'State::se3')), 'Se3<double>::orientation')] = O[i]
            st.env[eng.field(th, 'ScGeom6D::initialOrientation%d' % (i + 1))] = I[i]
        st.env[eng.field(th, 'ScGeom6D::twistCreep')] = CR; st.env[eng.field(th, 'GenericSpheresContact::normal')] = N
    ps = engine(M.db, rec_store=lambda l, s: False).run(f, params={2: NEW, 3: CP}, pre=pre); ctx.count('functors'); ctx.count('paths', len(ps))
    for new, cr, nan, ang in itertools.product((0, 1), (0, 1), (0, 1), (.5, 3., 3.3, 6.)):
        if new and (nan or ang != .5): continue
        cell = Motion({}, {lambda y: y is NEW: new, lambda y: y is CP: cr, lambda y: y.op == 'app' and y.args[0] == 'isnan': nan})
        region = 'new contact' if new else 'existing contact%s, angle %g%s' % (' with creep' if cr else '', ang, ' undefined' if nan else '')
        for p in ps:
            for v in list(p.st.env.values()) + p.facts:
                for y in subterms(v):
                    if y.op == 'app' and y.args[0] == 'e.angle': cell.num[y] = ang; cell.num[cell(y)] = ang
                    if y.op in ('ld', 'L.g') and 'PI' in show(y): cell.num[y] = 6.283185307179586 if 'TWO_PI' in show(y) else 3.141592653589793
        cell.memo = {}
        sel = pick(ctx, cell, ps, where, region)
        if len(sel) != 1 or sel[0][1]: ctx.undecided('%s, %s: %d paths' % (f['q'], region, len(sel))); continue
        got = {l.args[1].split('::')[-1]: cell(v) for l, v in sel[0][0].st.env.items() if l.op == 'L.f' and l.args[0] is th}
        chk = lambda c, t: ctx.check(c, 'rotation', *where, '%s: %s' % (region, t), key=region + t)
        if new:
            chk(got['initialOrientation1'] is O[0] and got['initialOrientation2'] is O[1], 'the reference orientations are not those of the two bodies at creation')
            chk(got.get('twist') is ZERO and got.get('bending') is ZERO, 'twist and bending do not start at zero')
            t = got.get('twistCreep'); chk(t is not None and t.op == 'app' and t.args[0] in ('mk_q', 'Identity') and [a.args[0] for a in t.args[1:]] in ([1, 0, 0, 0], []), 'the creep does not start at zero')
            continue
        chk(got['initialOrientation1'] is I[0] and got['initialOrientation2'] is I[1], 'the reference orientations change')
        chk(got['twistCreep'] is CR, 'the creep changes')
        ax = {y for k in ('twist', 'bending') for y in subterms(got.get(k, ZERO)) if y.op == 'app' and y.args[0] == 'e.axis'}; an = {y for k in ('twist', 'bending') for y in subterms(got.get(k, ZERO)) if y.op == 'app' and y.args[0] == 'e.angle'}
        aa = {y.args[1] for y in ax | an}
        if nan and not an and not ax:
            chk(got['twist'] is ZERO and got['bending'] is ZERO, 'an undefined angle is not taken as zero'); continue
        if not chk(len(aa) == 1 and len(ax) == 1, 'twist and bending come from different rotations'): continue
        q = next(iter(aa)); q = q.args[1] if q.op == 'app' and q.args[0] == 'AngleAxis' and len(q.args) == 2 else q
        r = [cell.L.rot(y) for y in O + I + [CR]]; w = prod(prod(r[0], T(r[2])), prod(r[3], T(r[1]))); w = prod(w, r[4]) if cr else w
        e_ = eqv(cell, cell.L.rot(q), w); chk(e_ is None, 'not the rotation of the first body relative to the second since creation: %s' % e_)
        A = cell.L.vec(next(iter(ax))); n = cell.L.vec(N)
        th_ = ZERO if nan else next(iter(an)) if an else None
        if th_ is None: chk(False, 'no angle'); continue
        if ang > 3.1415 and not nan:
            pi2 = [y for y in subterms(got['twist']) if y.op == 'ld' and 'PI' in show(y)]
            if not chk(len(set(pi2)) == 1, 'an angle beyond pi is not reduced'): continue
            th_ = sub(th_, scale(pi2[0], Fr(1) if 'TWO_PI' in show(pi2[0]) else Fr(2)))
        tw = mul(th_, dotp(A, n))
        e_ = eqv(cell, got['twist'], Val('s', tw)); chk(e_ is None, 'twist: %s' % e_)
        e_ = eqv(cell, got['bending'], minus(times(th_, A), times(tw, n))); chk(e_ is None, 'bending: %s' % e_)

COPIED = ('normal', 'contactPoint', 'penetrationDepth', 'shearInc', 'twist_axis', 'orthonormal_axis', 'radius1', 'radius2')
def sixdof(M, cls, base):
    ctx = M.ctx; f = M.fn(cls + '::go'); setparams(f); where = (f['file'], f['line'], f['q']); PR = 'ScGeom6D::precomputeRotations'; OK = sy('made')
    for kind in ('new', 'old'):
        G = sy('G0'); g = mk('L.f', I0(), 'Interaction::geom')
        def hook(eng, e, st):
            a = [eng.rv(x, st) for x in e[5]]
            eng.event(st, Ev('call', q='base', obj=st.this, args=a, line=e[1], node=e))
            if kind == 'new': st.env[g] = G; eng.assume(nonzero(G), st)
            return OK
        def pre(st, eng):
            if kind == 'new': st.env[g] = NULL
            else: eng.assume(nonzero(mk('ld', g, 0)), st)
        e = engine(M.db, rec_store=lambda l, s: False, rec_call=lambda q, *a: q == PR, opaque={PR}); e.hooks[base + '::go'] = hook
        ps = e.run(f, pre=pre); ctx.count('functors'); ctx.count('paths', len(ps))
        for ok, upd, creep in itertools.product((0, 1), repeat=3):
            cell = Motion({}, {lambda y: y is OK: ok, lambda y: y is G: 1, isgeom: kind == 'old', fieldname('updateRotations'): upd, fieldname('creep'): creep})
            region = '%s contact%s' % ('new' if kind == 'new' else 'existing', '' if ok else ' not made')
            sel = pick(ctx, cell, ps, where, region)
            if len(sel) != 1 or sel[0][1]: ctx.undecided('%s, %s: %d paths, %s' % (f['q'], region, len(sel), [show(x)[:120] for x in (sel[0][1] if sel else [])])); continue
            p = sel[0][0]; r = cell(p.val); chk = lambda c, rule, t: ctx.check(c, rule, *where, '%s: %s' % (region, t), key='%s|%s|%s' % (cls, region, t))
            b = [x for x in p.events if x.kind == 'call' and x.q == 'base']
            if not chk(len(b) == 1, 'rotation', 'the geometry is not computed once by %s' % base): continue
            want = [drf(i) for i in range(7)]
            chk(all(x is y for x, y in zip(b[0].args, want)), 'frame', 'shapes, states, shift, force or contact are not passed on unchanged')
            chk(r is B(ok), 'start', 'the result is not that of the 3-degrees-of-freedom functor')
            if not ok: continue
            fin = cell(p.st.env.get(g) or mk('ld', g, 0))
            if kind == 'new':
                if not chk(fin.op == 'newobj' and 'ScGeom6D' in str(fin.args[0]), 'rotation', 'a new contact does not get a geometry with rotations'): continue
                have = {l.args[1].split('::')[-1]: v for l, v in p.st.env.items() if l.op == 'L.f' and l.args[0] is fin}
                for n in COPIED:
                    v = have.get(n); v = cell(v) if v is not None else None
                    chk(v is not None and v.op == 'ld' and v.args[0].op == 'L.f' and v.args[0].args[0] is G and v.args[0].args[1].split('::')[-1] == n, 'rotation', '%s of a new contact is not taken over' % n)
            else: chk(fin.op == 'ld' and fin.args[0] is g, 'rotation', 'an existing contact gets another geometry (its history is lost)')
            rots = [x for x in p.events if x.kind == 'call' and x.q == PR]
            due = upd or 'updateRotations' not in M.text(cls)
            rots = [x for x in rots if all(cell(c) is TRUE for c in (getattr(x, 'conds', None) or []))]
            if not due: continue
            if not chk(len(rots) == 1, 'rotation', '%d updates of the relative rotation' % len(rots)): continue
            a = rots[0].args
            chk(cell(rots[0].obj) is fin, 'rotation', 'the rotations of another geometry are updated')
            chk(a[0] is drf(2) and a[1] is drf(3), 'rotation', 'the rotations are not computed from the two states in order')
            chk(cell(nonzero(a[2])) is B(kind == 'new') if a[2] not in (TRUE, FALSE) else a[2] is B(kind == 'new'), 'rotation', 'a %s contact is taken for the opposite' % kind)

def reverse(M, cls):
    ctx = M.ctx; f = M.fn(cls + '::goReverse'); setparams(f); where = (f['file'], f['line'], f['q']); GO = cls + '::go'
    ps = engine(M.db, rec_store=lambda l, s: False, rec_call=lambda q, *a: q.endswith('::go'), opaque={GO}).run(f); ctx.count('functors'); ctx.count('paths', len(ps))
    chk = lambda c, t: ctx.check(c, 'reverse', *where, t, key=cls + t)
    live = [p for p in ps if p.end == 'return']
    if not chk(len(live) == 1, '%d ways through a reversed call' % len(live)): return
    p = live[0]; ev = [x for x in p.events if x.kind == 'call']
    if not chk(len(ev) == 1 and ev[0].q == GO, 'a reversed call does not lead to one direct call'): return
    a = ev[0].args; w = [drf(i) for i in (1, 0, 3, 2, 4, 5, 6)]; c = I0()
    chk(a[0] is w[0] and a[1] is w[1], 'the shapes are not exchanged'); chk(a[2] is w[2] and a[3] is w[3], 'the states are not exchanged')
    chk(a[4] is neg(mk('ld', mk('L.d', mk('param', 'arg4')), 0, kind='v')), 'the shift is not reversed'); chk(a[5] is w[5] and a[6] is w[6], 'force or contact are not passed on')
    chk(p.val is ev[0].val, 'the result of the direct call is not returned')
    L = lambda q: mk('L.f', c, 'Interaction::' + q); ld = lambda q, k='s': mk('ld', L(q), 0, kind=k)
    chk(p.st.env.get(L('id1')) is ld('id2') and p.st.env.get(L('id2')) is ld('id1'), 'the bodies of the contact are not exchanged')
    chk(p.st.env.get(L('cellDist')) is neg(ld('cellDist', 'v')), 'the cell distance of the contact is not reversed')

def run(ctx):
    db = DB([f for f in FILES if os.path.exists(os.path.join(REPO, f))]); db.require_clean()
    M = Model(ctx, db)
    PRE = 'ScGeom::precompute'; H = 'Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact'
    spheres(M, 'Ig2_Sphere_Sphere_ScGeom::go', PRE, sc_sig)
    spheres(M, 'Ig2_Sphere_Sphere_L3Geom::go', H, l3_sig, l3=True)
    spheres(M, 'Ig2_Sphere_Sphere_L6Geom::go', H, l3_sig, l3=True)
    walls(M, 'Ig2_Wall_Sphere_ScGeom::go', PRE, sc_sig)
    walls(M, 'Ig2_Wall_Sphere_L3Geom::go', H, l3_sig, l3=True)
    boxes(M, 'Ig2_Box_Sphere_ScGeom::go', PRE, sc_sig)
    facets(M, 'Ig2_Facet_Sphere_ScGeom::go', PRE, sc_sig)
    facets(M, 'Ig2_Facet_Sphere_L3Geom::go', H, l3_sig, l3=True)
    sc_motion(M); l3_motion(M); rotations(M)
    for k in ('Sphere_Sphere', 'Facet_Sphere', 'Box_Sphere'): sixdof(M, 'Ig2_%s_ScGeom6D' % k, 'Ig2_%s_ScGeom' % k)
    for k in ('Facet_Sphere_ScGeom', 'Facet_Sphere_ScGeom6D', 'Box_Sphere_ScGeom', 'Box_Sphere_ScGeom6D'): reverse(M, 'Ig2_' + k)
    ctx.floor('cells', 300)
