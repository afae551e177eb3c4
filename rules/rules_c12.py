"""C12: contact detection.  The box functors, the margin, the trigger, the overlap and admission tests are summarised as value-number
terms and evaluated at representatives of every cell of their case distinctions (order types of the interval ends, signs, periods);
the sorting and traversal loops are summarised by a generic iteration whose comparisons, moves and recorded pairs are compared with
the specification for every combination of the conditions."""
import itertools, math
from kit import *
from evalt import *
RULES = {
 'box': 'the box of a body contains its shape (in the coordinates of the cell when periodic), for any position, rotation and skew',
 'margin': 'the box is enlarged on all sides by the margin the body is recorded to have, and the reference position is the current one',
 'trigger': 'every body that has moved by its margin along some axis makes the collider run; so do changes of bodies, contacts to be rebuilt and explicit requests',
 'stored': 'the sorted ends and the copied boxes are those of the bodies, wrapped into the cell with their period; vanished bodies and bodies without box are marked as such',
 'overlap': 'the overlap test is true exactly when the boxes (some images of them when periodic) meet on all three axes, and gives the cell distance of that image',
 'filter': 'clumps, members of one clump, bodies without common mask bit, self-avoiding groups and bodies of other subdomains only are not paired; all others are',
 'pairs': 'whenever a lower end passes below an upper end of another body, the pair is tested and, if admissible and new, recorded once with these two bodies',
 'sorted': 'the lists are sorted: an element moves down exactly past the larger ones, all others keep their order, nothing is lost',
 'initial': 'a full detection sorts all axes and tests every lower end within the box of each body; it happens at the start, after dirty contacts, on request and after many additions',
 'kept': 'only contacts that are not real and whose boxes do not meet are erased',
}
EXPLAIN = 'Gated value-numbering of box functors, collider and triggers; terms evaluated at representatives of all cells of their case distinctions; generic loop iterations compared with the sorting and pairing specification.'
ASSUMES = ['real arithmetic', 'bodies move by translation between runs (rotation of non-spherical bodies is not covered by the margin)', 'no body is larger than half of the periodic cell', 'masks and clump membership of touching bodies are not changed in place']
FILES = ['pkg/common/Bo1_Aabb.cpp', 'pkg/common/Wall.cpp', 'pkg/common/Grid.cpp', 'pkg/common/PFacet.cpp', 'pkg/common/Cylinder.cpp', 'pkg/dem/Tetra.cpp', 'pkg/common/Collider.cpp', 'pkg/common/InsertionSortCollider.cpp',
         'pkg/common/Dispatching.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'core/Body.cpp', 'core/BodyContainer.cpp', 'core/InteractionContainer.cpp', 'core/Cell.cpp', 'core/Scene.cpp', 'core/Interaction.cpp', 'core/Clump.cpp']
R3 = range(3)
EPS = 1e-9
ROTS = [[[1., 0, 0], [0, 1., 0], [0, 0, 1.]], [[2/3, -1/3, 2/3], [2/3, 2/3, -1/3], [-1/3, 2/3, 2/3]], [[2/7, 3/7, 6/7], [6/7, 2/7, -3/7], [-3/7, 6/7, -2/7]]]
HS = [[[4., 0, 0], [0, 5., 0], [0, 0, 6.]], [[4., 3, 0], [0, 5., 0], [0, 0, 6.]], [[4., -2, -2.5], [0, 5., -3.], [0, 0, 6.]], [[4., 1, -2.5], [.5, 5., 2.], [1., -1., 6.]]]
def transp(m): return [[m[j][i] for j in R3] for i in R3]
class CellRep:
    def __init__(s, h):
        s.h = h; cols = transp(h); s.size = [norm(c) for c in cols]
        s.trsf = transp([[x / n for x in c] for c, n in zip(cols, s.size)]); s.un = minv(s.trsf)
        s.shear = any(h[i][j] != 0 for i in R3 for j in R3 if i != j)
        cr = lambda u, v: [u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]]
        n = transp(s.trsf); s.cos = [norm(cr(n[(i+1) % 3], n[(i+2) % 3])) ** 2 for i in R3]
    def get(s, f):
        return {'hSize': s.h, '_size': s.size, '_shearTrsf': s.trsf, '_unshearTrsf': s.un, '_hasShear': s.shear, '_cos': s.cos}.get(f, NotImplemented)

def chain(t):
    """names of the fields from the outermost object to the value, elements as indices; and the root term"""
    out = []
    while True:
        if t.op in ('ld', 'addr', 'L.d'): t = t.args[0]
        elif t.op == 'L.f': out.append(t.args[1].split('::')[-1]); t = t.args[0]
        elif t.op == 'L.e': out.append(t.args[1]); t = t.args[0]
        elif t.op == 'fv': out.append(str(t.args[1]).split('::')[-1]); t = t.args[0]
        else: break
    return list(reversed(out)), t
class Orac:
    """values of the leaves by the names on the way to them"""
    def __init__(s, **k): s.k = k; s.cell = None; s.extra = None
    def __call__(s, t):
        if s.extra is not None:
            r = s.extra(t)
            if r is not NotImplemented: return r
        if t.op not in ('ld', 'param', 'fv', 'L.g'): return NotImplemented
        c, r = chain(t)
        names = [x for x in c if isinstance(x, str)]
        if names:
            f = names[-1]
            if s.cell is not None and 'cell' in names:
                v = s.cell.get(f)
                if v is not NotImplemented: return v
            if c and isinstance(c[-1], Term):
                if f in s.k and isinstance(s.k[f], dict):
                    i = c[-1]
                    if i.op == 'c' and int(i.args[0]) in s.k[f]: return s.k[f][int(i.args[0])]
                return NotImplemented
            for n in range(len(names)):
                key = '.'.join(names[n:])
                if key in s.k: return s.k[key]
        elif r.op == 'param' and r.args[0] in s.k: return s.k[r.args[0]]
        return NotImplemented

class Model:
    def __init__(self, ctx, db): self.ctx = ctx; self.db = db; self.cache = {}
    def fn(self, q):
        f = [f for k, f in self.db.fns.items() if f['q'] == q and f.get('body')]
        if len(f) != 1: raise AnalysisBroken('no unique %s' % q)
        return f[0]
    def run(self, q, opaque=(), rec=(), store=None, **k):
        f = self.fn(q); setparams(f); self.f = f
        op = set(opaque); rc = op | set(rec)
        mw = k.pop('maxwork', None)
        e = engine(self.db, rec_store=store or (lambda l, s: False), rec_call=lambda q, *a: q in rc or q.split('::')[-1] in rc, opaque=op, **k)
        if mw: e.maxwork = mw
        ps = e.run(f)
        self.ctx.count('functions', 1); self.ctx.count('paths', len(ps))
        return f, ps
def feasible(ev, facts):
    """False if a fact is refuted, else True (undecided facts are taken as possible)"""
    for f in facts:
        try:
            if not ev.truth(f): return False
        except Unknown: pass
    return True
def loc_of(p, field, want=None):
    """final values stored in fields of that name: list of (object term, value)"""
    return [(l.args[0], v) for l, v in p.st.env.items() if l.op == 'L.f' and l.args[1].split('::')[-1] == field and v is not None]

# ---------------------------------------------------------------- boxes
def corners(lo, hi): return [[(lo, hi)[b][k] for k, b in enumerate(bits)] for bits in itertools.product((0, 1), repeat=3)]
def boxes(m):
    ctx = m.ctx
    POS = [[1., 2., 3.], [-7., 2.5, 11.]]
    cells = [None] + [CellRep(h) for h in HS]
    VERTS = [{0: [1., 2., .5], 1: [-3., .25, -1.], 2: [.5, -4., 6.], 3: [2., -1., -2.]}, {0: [-1., -2., 3.5], 1: [3., 1.25, 1.], 2: [.5, 4., -6.], 3: [-2.5, 1., 2.]}, {0: [1., 5., .5], 1: [1.5, -4., 5.], 2: [-2., .3, -1.], 3: [7., -7., 8.]}]
    def sphere(per):
        for fac, r in itertools.product((-1., 1.5, .75), (.5, 2.)):
            R = r * (fac if fac > 0 else 1)
            yield dict(radius=r, aabbEnlargeFactor=fac), lambda pos, rot, c, R=R: ([p - R * w for p, w in zip(un(c, pos), wid(c))], [p + R * w for p, w in zip(un(c, pos), wid(c))])
    def un(c, x): return x if c is None else vmul(c.un, x)
    def wid(c): return [1, 1, 1] if c is None else [norm(r) for r in c.un]
    def env(pts): return [min(p[i] for p in pts) for i in R3], [max(p[i] for p in pts) for i in R3]
    def facet(per):
        for v in VERTS: yield dict(vertices=v), lambda pos, rot, c, v=v: env([un(c, vadd(pos, vmul(rot, v[k]))) for k in R3])
    def tetra(per):
        for v in VERTS: yield dict(v=v), lambda pos, rot, c, v=v: env([vadd(pos, vmul(rot, v[k])) for k in range(4)])
    def box(per):
        for x in ([1., 2., 3.], [.3, 4., .1]): yield dict(extents=x), lambda pos, rot, c, x=x: env([vadd(pos, vmul(rot, q)) for q in corners([-y for y in x], x)])
    def wall(per):
        for a in R3: yield dict(axis=a), lambda pos, rot, c, a=a: ([pos[i] if i == a else -1e30 for i in R3], [pos[i] if i == a else 1e30 for i in R3])
    def caps(names, r): return lambda pos, rot, c, n=None: ([min(x[i] for x in names) - r for i in R3], [max(x[i] for x in names) + r for i in R3])
    def grid(per):
        for v in VERTS:
            yield {'node1.state.se3.position': v[0], 'node2.state.se3.position': v[1], 'radius': .5}, caps([v[0], v[1]], .5)
    def pfacet(per):
        for v in VERTS:
            yield {'node1.state.se3.position': v[0], 'node2.state.se3.position': v[1], 'node3.state.se3.position': v[2], 'radius': .5}, caps([v[0], v[1], v[2]], .5)
    def cyl(rotate):
        def g(per):
            for v in VERTS:
                yield dict(segment=v[0], radius=.5), lambda pos, rot, c, v=v: (lambda e: ([x - .5 for x in e[0]], [x + .5 for x in e[1]]))(env([pos, vadd(pos, vmul(rot, v[0]) if rotate else v[0])]))
        return g
    todo = [('Bo1_Sphere_Aabb', sphere, cells), ('Bo1_Facet_Aabb', facet, cells), ('Bo1_Box_Aabb', box, cells), ('Bo1_Wall_Aabb', wall, cells), ('Bo1_Tetra_Aabb', tetra, [None]), ('Bo1_GridConnection_Aabb', grid, [None]),
            ('Bo1_PFacet_Aabb', pfacet, [None]), ('Bo1_Cylinder_Aabb', cyl(True), [None]), ('Bo1_ChainedCylinder_Aabb', cyl(False), [None])]
    for cls, gen, cs in todo:
        f, ps = m.run(cls + '::go')
        for had, c, pos, rot in itertools.product((True, False), cs, POS, ROTS):
            for shape, want in gen(c is not None):
                o = Orac(isPeriodic=c is not None, position=pos, orientation=rot, arg1='bound' if had else None, **shape); o.cell = c
                ev = Eval(o)
                live = [p for p in ps if feasible(ev, p.facts)]
                what = '%s, %s%s' % ('with box' if had else 'first time', 'not periodic' if c is None else 'skewed cell' if c.shear else 'rectangular cell', '')
                if not live: raise AnalysisBroken('%s: no path for a case' % cls)
                for p in live:
                    ctx.count('representatives', 1)
                    if p.end == 'throw':
                        ctx.check(c is not None and c.shear and cls in ('Bo1_Box_Aabb', 'Bo1_Wall_Aabb'), 'box', f['file'], f['line'], f['q'], '%s: no box is made (exception)' % what, key=cls + 'throw'); continue
                    lo, hi = want(pos, rot, c)
                    b = next((v for l, v in p.st.env.items() if l.op == 'L.d' and l.args[0].op == 'param' and l.args[0].args[0] == 'arg1' and v is not None), None)
                    obj = ev.maybe(b) if b is not None else ('bound' if had else None)
                    ctx.check(obj is not None and (not had or obj == 'bound' or isinstance(obj, Term)), 'box', f['file'], f['line'], f['q'], '%s: the body is left without box' % what, key=cls + 'nobox')
                    for nm, ref, sg in (('min', lo, 1), ('max', hi, -1)):
                        vs = [v for x, v in loc_of(p, nm)]
                        if len(vs) != 1: ctx.check(False, 'box', f['file'], f['line'], f['q'], '%s: %s of the box is not set' % (what, nm), key=cls + nm); continue
                        try: v = ev(vs[0])
                        except Unknown as x: ctx.undecided('box', f['file'], f['line'], f['q'], 'cannot evaluate the box: %s' % x); continue
                        for i in R3:
                            ctx.check(sg * (v[i] - ref[i]) <= EPS, 'box', f['file'], f['line'], f['q'], '%s: the shape sticks out of the box (%s, axis %d: %.6g, shape reaches %.6g)' % (what, nm, i, v[i], ref[i]), key='%s%s%s%d' % (cls, what, nm, i))

# ---------------------------------------------------------------- margin and trigger
def margin(m):
    ctx = m.ctx
    f, ps = m.run('BoundDispatcher::processBody', opaque=['BoundFunctor::go', 'getClassIndex', 'getClassName'], rec=['go'])
    go = [e for p in ps for e in p.events if e.kind == 'call' and e.q.split('::')[-1] == 'go']
    ctx.check(bool(go), 'margin', f['file'], f['line'], f['q'], 'no box functor is called')
    MIN, MAX = [1., 2., 3.], [4., 6., 8.]
    n = 0
    for bounded, shape, cached, hasb in itertools.product((0, 1), (True, False), ('functor', None), ('bound', None)):
        for ti, it, last, ref, sw, sd, mf in itertools.product((-1, 0, 50), (7, 0), (0, 5), ([10., 20., 30.], [10.1, 20., 29.5], [12., 20.2, 30.]), (0., .3), (0., .4), (.1, .9)):
            if not (bounded and shape and cached and hasb) and (ti, it, last, sw, sd, mf) != (50, 7, 5, .3, .4, .1): continue
            o = Orac(flags=bounded | 2, shape='shape' if shape else None, boundFunctor=cached, targetInterv=ti, iter=it, lastUpdateIter=last, refPos=ref, sweepLength=sw, sweepDist=sd, minSweepDistFactor=mf, position=[10., 20., 30.])
            o.k.update(min=MIN, max=MAX)
            def extra(t):
                if t.op == 'out': return hasb
                if t.op == 'app' and t.args[0] == 'size': return 3
                if t.op == 'app' and str(t.args[0]).split('::')[-1] == 'getClassIndex': return 1
                if t.op in ('ld', 'addr') and isinstance((chain(t)[0][-1:] or [None])[0], Term) and 'callBacks' in chain(t)[0]: return 'functor'
                return NotImplemented
            o.extra = extra
            ev = Eval(o)
            live = [p for p in ps if p.end != 'throw' and feasible(ev, p.facts)]
            what = 'bounded=%d shape=%s margin before %g, sweepDist %g, targetInterv %d' % (bounded, shape, sw, sd, ti)
            for p in live:
                ctx.count('representatives', 1); n += 1
                calls = [e for e in p.events if e.kind == 'call' and e.q.split('::')[-1] == 'go']
                if not (bounded and shape): continue
                ctx.check(len(calls) == 1, 'margin', f['file'], f['line'], f['q'], '%s: the box functor is called %d times' % (what, len(calls)), key='go')
                if not calls or not hasb: continue
                a = calls[0].args
                ctx.check(len(a) == 4 and chain(a[0])[0][-1:] == ['shape'] and chain(a[1])[0][-1:] == ['bound'] and chain(a[2])[0][-1:] == ['se3'], 'margin', f['file'], calls[0].line, f['q'], 'the box functor is not called with shape, box and placement of the body', key='args')
                try:
                    g = {k: ([ev(v) for x, v in loc_of(p, k)] or [None])[-1] for k in ('min', 'max', 'sweepLength', 'refPos')}
                except Unknown as x: ctx.undecided('margin', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
                s = g['sweepLength'] if g['sweepLength'] is not None else sw
                lo, hi = g['min'] or MIN, g['max'] or MAX
                for i in R3:
                    ctx.check(lo[i] <= MIN[i] - max(s, 0) + EPS and hi[i] >= MAX[i] + max(s, 0) - EPS, 'margin', f['file'], f['line'], f['q'], '%s: recorded margin %.6g, box enlarged by %.6g below and %.6g above on axis %d' % (what, s, MIN[i] - lo[i], hi[i] - MAX[i], i), key='enl%d' % i)
                ctx.check((g['refPos'] or ref) == [10., 20., 30.], 'margin', f['file'], f['line'], f['q'], '%s: the reference position is not the current position' % what, key='ref')
    if n < 100: raise AnalysisBroken('too few cases of processBody')
    f, ps = m.run('BoundDispatcher::action', opaque=['BoundDispatcher::processBody', 'updateScenePtr'])
    ok = False
    for p in ps:
        for l in loops_of(p):
            q = [[e for e in q.events if e.kind == 'call' and e.q.endswith('processBody')] for q in l.paths]
            if not any(q): continue
            ok = True
            full = visited(l.info) is not None or any(x.op == 'app' and x.args[0] == 'size' for x in subterms(l.info['hi'] or ZERO)) and l.info['lo'] is ZERO and l.info['step'] == 1
            ctx.check(full, 'margin', f['file'], l.line, f['q'], 'the boxes of some bodies are not updated (loop range)', key='all')
            for w, c in zip(l.paths, q):
                if c: ctx.check(len(c) == 1 and l.info['iv'] in set(subterms(c[0].args[0])) or l.info.get('cont') is not None, 'margin', f['file'], l.line, f['q'], 'not the body of this iteration is processed', key='which'); continue
                ctx.check(w.end in ('continue', 'fall') and any(absent(x, l.info['iv']) for x in w.facts), 'margin', f['file'], l.line, f['q'], 'an existing body is left out', key='skip')
    ctx.check(ok, 'margin', f['file'], f['line'], f['q'], 'no loop updates the boxes of the bodies')
def inrange(x, info):
    t = x.args[0] if x.op == 'not' else x
    return t.op in ('lt0', 'le0') and info['iv'] is not None and all(y.op in ('poly', 'c', 'iv', 'app', 'addr', 'L.f', 'ld', 'this', 'L.d', 'param', 'lo', 'lh', 'L.size') for y in subterms(t)) and info['iv'] in set(subterms(t))
def absent(x, iv):
    """the fact says that the element iv of the container is empty (or the index is beyond its end)"""
    if x.op == 'not' and x.args[0].op == 'nn': return True
    if x.op == 'or': return all(absent(y, iv) or y.op in ('lt0', 'le0') or y.op == 'not' and y.args[0].op in ('lt0', 'le0') for y in x.args)
    return False

def trigger(m):
    ctx = m.ctx
    f, ps = m.run('NewtonIntegrator::saveMaximaDisplacement')
    n = 0
    for ref, sw, old in itertools.product([[dx, dy, dz] for dx, dy, dz in itertools.product((0, .2, -.2, .7, -.7), repeat=3)], (0., .1, .1999, .3, .6999, .9), (0., .5, 2.)):
        P = [1., 2., 3.]; d = [a - b for a, b in zip(P, [P[i] + ref[i] for i in R3])]
        o = Orac(bound='bound', refPos=[P[i] + ref[i] for i in R3], sweepLength=sw, position=P, maxVelocitySq=old)
        o.extra = lambda t: old if t.op == 'ld' and 'threadMaxVelocitySq' in chain(t)[0] else NotImplemented
        ev = Eval(o)
        for p in ps:
            if not feasible(ev, p.facts): continue
            n += 1
            out = [v for l, v in p.st.env.items() if chain(l)[0] and ('threadMaxVelocitySq' in chain(l)[0] or chain(l)[0][-1] == 'maxVelocitySq') and v is not None and l.op in ('L.e', 'L.f')]
            try: v = max([ev(x) for x in out] + [-1] if out else [old])
            except Unknown as x: ctx.undecided('trigger', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
            ctx.check(v >= old, 'trigger', f['file'], f['line'], f['q'], 'a larger recorded displacement (%g) is lost (%g)' % (old, v), key='lost')
            ctx.check(v > 0, 'trigger', f['file'], f['line'], f['q'], 'a body at rest leaves the record empty', key='zero') if old == 0 else None
            if max(abs(x) for x in d) > sw + EPS and max(abs(x) for x in d) > 0:
                ctx.check(v >= 1, 'trigger', f['file'], f['line'], f['q'], 'a body displaced by (%g,%g,%g) with margin %g does not make the collider run' % (d[0], d[1], d[2], sw), key='moved')
    ctx.count('representatives', n)
    if n < 400: raise AnalysisBroken('too few cases of saveMaximaDisplacement')
    # the collider's decision
    f, ps = m.run('InsertionSortCollider::isActivated')
    for stride, newton, mv, nb, dirty, ds in itertools.product((True, False), ('newton', None), (0., .5, 1., 2.), (4, 6, 8), (True, False), (True, False)):
        o = Orac(strideActive=stride, newton=newton, maxVelocitySq=mv, size=6, dirty=dirty, doSort=ds, fastestBodyMaxDist=.5)
        def extra(t):
            if t.op == 'app' and t.args[0] == 'size': return nb // 2 if 'bodies' in chain(t.args[1])[0] else NotImplemented
            return NotImplemented
        o.extra = extra
        ev = Eval(o)
        must = not stride or newton is None or mv >= 1 or mv == 0 or nb != 6 or dirty or ds
        for p in ps:
            if not feasible(ev, p.facts): continue
            ctx.count('representatives', 1)
            try: r = ev.truth(p.val)
            except Unknown as x: ctx.undecided('trigger', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
            if must: ctx.check(r, 'trigger', f['file'], f['line'], f['q'], 'the collider does not run although %s' % ('there is no margin' if not stride else 'the integrator is unknown' if newton is None else 'a body left its margin (%g)' % mv if mv >= 1 or mv == 0 else 'the number of bodies changed' if nb != 6 else 'the contacts are dirty' if dirty else 'sorting was requested'), key='act%s' % ((stride, newton, mv >= 1, mv == 0, nb != 6, dirty, ds),))
            else: ctx.count('quiet', 1)
    for q, what in (('BodyContainer::insertAtId', 'a body put in the place of a vanished one'), ('InteractionContainer::clear', 'removing all contacts')):
        f, ps = m.run(q)
        for p in ps:
            if p.end == 'throw' or p.val is not None and p.val.op == 'c' and p.val.args[0] < 0: continue
            d = [v for l, v in p.st.env.items() if l.op == 'L.f' and l.args[1].endswith('::dirty') and v is not None]
            ctx.check(bool(d) and d[-1] is TRUE, 'trigger', f['file'], f['line'], f['q'], '%s does not lead to a full detection' % what, key='dirty')
    # the integrator: every moved body is recorded after its motion, the records start at zero and are merged
    f, ps = m.run('NewtonIntegrator::action', opaque=['NewtonIntegrator::saveMaximaDisplacement', 'NewtonIntegrator::leapfrogTranslate', 'NewtonIntegrator::leapfrogSphericalRotate', 'NewtonIntegrator::leapfrogAsphericalRotate', 'NewtonIntegrator::updateEnergy', 'Clump::moveMembers', 'Clump::addForceTorqueFromMembers',
        'NewtonIntegrator::ensureSync', 'NewtonIntegrator::computeAccel', 'NewtonIntegrator::computeAngAccel', 'NewtonIntegrator::set_densityScaling'], store=lambda l, s: chain(l)[0][-1:] == ['maxVelocitySq'] or 'threadMaxVelocitySq' in chain(l)[0])
    seen = 0
    for p, loops in all_paths(ps):
        nm = [e.q.split('::')[-1] for e in p.events if e.kind == 'call']
        if 'leapfrogTranslate' in nm:
            seen += 1
            ctx.check('saveMaximaDisplacement' in nm and max(i for i, x in enumerate(nm) if x == 'saveMaximaDisplacement') > max(i for i, x in enumerate(nm) if x == 'leapfrogTranslate'), 'trigger', f['file'], f['line'], f['q'], 'a body is moved without its displacement being recorded afterwards', key='rec')
            a = [e.args[-1] for e in p.events if e.kind == 'call' and e.q.endswith('saveMaximaDisplacement')]
            t = [e.args[0] for e in p.events if e.kind == 'call' and e.q.endswith('leapfrogTranslate')]
            if a and t: ctx.check(any(x in set(subterms(t[0])) for x in (a[0], mk('ld', a[0], 0))) or chain(t[0])[1] is chain(a[0])[1], 'trigger', f['file'], f['line'], f['q'], 'the displacement of another body is recorded', key='recwho')
    if not seen: raise AnalysisBroken('no translation found in NewtonIntegrator::action')
    for p in ps:
        if p.end == 'throw': continue
        merged = False; order = []
        for e in p.events:
            if e.kind == 'loop':
                c = visited(e.info)
                if c is not None and 'threadMaxVelocitySq' in chain(c)[0]:
                    good = bool(e.paths)
                    for a, b in ((0., .5), (.5, 0.), (2., 1.), (1., 3.)):
                        o = Orac(); o.extra = lambda t: a if t.op in ('lh', 'lo') and any(x.op == 'L.f' and x.args[1].endswith('::maxVelocitySq') for x in subterms(t)) else b if t.op == 'ld' and 'threadMaxVelocitySq' in chain(t)[0] else NotImplemented
                        ev = Eval(o)
                        for q in e.paths:
                            if not feasible(ev, q.facts): continue
                            w = [v for l, v in q.st.env.items() if l.op == 'L.f' and l.args[1].endswith('NewtonIntegrator::maxVelocitySq') and v is not None]
                            v = ev.maybe(w[-1]) if w else a
                            good = good and v is not None and v >= max(a, b)
                    if good: merged = True; order.append('merge')
                if any(x.kind == 'store' and 'threadMaxVelocitySq' in chain(x.obj)[0] and x.val is ZERO for q in e.paths for x in q.events): order.append('reset')
                if any(x.kind == 'call' and x.q.endswith('saveMaximaDisplacement') for q in e.paths for x in q.events): order.append('bodies')
            if e.kind == 'call' and e.q.split('::')[-1] in ('fill', 'assign') and e.obj is not None and 'threadMaxVelocitySq' in chain(e.obj)[0]: order.append('reset')
        ctx.check(merged, 'trigger', f['file'], f['line'], f['q'], 'the records of the threads are not merged', key='merge')
        if 'bodies' in order: order = order[order.index('bodies'):]
        ctx.check('bodies' in order and 'merge' in order and 'reset' not in order[:order.index('merge')], 'trigger', f['file'], f['line'], f['q'], 'the recorded displacements are not merged after the bodies moved (%s)' % order, key='reset')
    ctx.count('moving_paths', seen)

# ---------------------------------------------------------------- overlap and admission
def overlap(m):
    ctx = m.ctx
    def orac(ev, box, **k):
        o = Orac(arg0=5, arg1=9, **k)
        def extra(t):
            if t.op in ('ld', 'addr'):
                c, r = chain(t)
                if len(c) >= 2 and isinstance(c[-1], Term) and c[-2] in ('minima', 'maxima'):
                    i = int(ev[0](c[-1]))
                    if i // 3 in (5, 9): return box[i // 3][c[-2] == 'maxima'][i % 3]
                    return NotImplemented
                if c == [] and r.op == 'param' and r.args[0] in ('arg0', 'arg1'): return o.k[r.args[0]]
            return NotImplemented
        o.extra = extra
        return o
    f, ps = m.run('InsertionSortCollider::spatialOverlap')
    iv = [((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2)), ((1, 2), (0, 3)), ((1, 3), (0, 2)), ((2, 3), (0, 1)), ((0, 1), (0, 1)), ((1, 1), (0, 2)), ((0, 2), (1, 1)), ((0, 0), (1, 1))]
    n = 0
    for a, b, c in itertools.product(iv, repeat=3):
        ax = (a, b, c)
        want = all(x[0] < y[1] and y[0] < x[1] or x == y for x, y in ax)
        if not want: continue
        box = {5: [[float(x[0][k]) for x in ax] for k in (0, 1)], 9: [[float(x[1][k]) for x in ax] for k in (0, 1)]}
        cell = []; ev = Eval(orac(cell, box)); cell.append(ev)
        for p in ps:
            if not feasible(ev, p.facts): continue
            n += 1
            try: r = ev.truth(p.val)
            except Unknown as x: ctx.undecided('overlap', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
            ctx.check(r, 'overlap', f['file'], f['line'], f['q'], 'boxes that overlap are taken for separate (axis intervals %s)' % (ax,), key='ov%s' % (ax.index(next((x for x in ax if x[0] != x[1]), ax[0])),))
    # periodic: an image of the second box meets the first one
    f, ps = m.run('InsertionSortCollider::spatialOverlapPeri')
    DIM = [10., 8., 12.]
    def axis(k, w1, w2, off, per):
        d = DIM[k]; lo = 3.3 + k
        a = (lo, lo + w1 * d); b0 = lo + off * d; b = (b0 + per * d, b0 + per * d + w2 * d)
        ps_ = [q for q in range(-6, 7) if b[0] + q * d < a[1] - 1e-6 * d and b[1] + q * d > a[0] + 1e-6 * d]
        return a, b, ps_
    easy = [axis(k, .2, .2, .05, q) for k, q in zip(R3, (1, -2, 0))]
    cases = [easy]
    for k in R3:
        for w1, w2 in ((.2, .3), (.45, .1), (.1, .45)):
            for off, per in itertools.product([x / 20. + .013 for x in range(-10, 20)], (-2, 0, 1)):
                x = axis(k, w1, w2, off, per)
                cases.append([x if i == k else easy[i] for i in R3])
    for big in (False, True):
        for ax in cases:
            if not all(len(x[2]) == 1 for x in ax): continue
            box = {5: [[x[0][s] for x in ax] for s in (0, 1)], 9: [[x[1][s] for x in ax] for s in (0, 1)]}
            cell = []; o = orac(cell, box, overlapTolerance=1e-7, allowBiggerThanPeriod=big, invSizes=[1 / d for d in DIM], arg3=[0, 0, 0]); o.cell = CellRep([[DIM[0], 0, 0], [0, DIM[1], 0], [0, 0, DIM[2]]])
            ev = Eval(o); cell.append(ev)
            for p in ps:
                if not feasible(ev, p.facts): continue
                n += 1
                what = 'intervals %s' % ', '.join('[%.3g,%.3g] and [%.3g,%.3g] of period %g' % (x[0] + x[1] + (d,)) for x, d in zip(ax, DIM))
                if p.end == 'throw': ctx.check(False, 'overlap', f['file'], f['line'], f['q'], 'exception for boxes smaller than half of the cell: %s' % what, key='pthrow'); continue
                try: r = ev.truth(p.val)
                except Unknown as x: ctx.undecided('overlap', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
                if not ctx.check(r, 'overlap', f['file'], f['line'], f['q'], 'boxes with overlapping images are taken for separate: %s' % what, key='pov'): continue
                out = [v for l, v in p.st.env.items() if l.op == 'L.d' and l.args[0].op == 'param' and l.args[0].args[0] == 'arg3' and v is not None]
                v = ev.maybe(out[-1]) if out else None
                if v is None: ctx.undecided('overlap', f['file'], f['line'], f['q'], 'cannot evaluate the cell distance'); continue
                ctx.check([int(x) for x in v] == [x[2][0] for x in ax], 'overlap', f['file'], f['line'], f['q'], 'cell distance %s of the second body, %s expected: %s' % ([int(x) for x in v], [x[2][0] for x in ax], what), key='pdist')
    ctx.count('representatives', n)
    if n < 500: raise AnalysisBroken('too few overlap cases (%d)' % n)

def filt(m):
    ctx = m.ctx
    f, ps = m.run('Body::getIsSubdomain')
    bit = [1 << k for k in range(8) if any(feasible(Eval(Orac(flags=1 << k)), p.facts) and Eval(Orac(flags=1 << k)).truth(p.val) for p in ps)]
    if len(bit) != 1: raise AnalysisBroken('subdomain flag not found')
    f, ps = m.run('Collider::mayCollide')
    n = 0
    for sub, s1, s2, m1, m2, (c1, c2), (g1, g2, av) in itertools.product((0, 1), (0, 1, 2), (0, 1, 2), (0, 1), (0, 1), ((-1, -1), (7, -1), (-1, 7), (7, 7), (7, 8), (3, -1), (-1, 4), (3, 3), (7, 4), (3, 8)), ((1, 1, 0), (1, 2, 0), (3, 1, 0), (3, 3, 1), (2, 2, 1), (1, 1, 1), (3, 1, 1), (6, 3, 2), (1, 3, 2))):
        if (m1 or m2) and (c1, g1) != (-1, 1): continue
        isclump = c1 == 3 or c2 == 4; same = c1 != -1 and c1 == c2
        want = (sub in (s1, s2)) and not (s1 == s2 and (m1 or m2)) and not isclump and not same and bool(g1 & g2) and not (g1 == g2 and (g1 & av))
        vals = {'arg0': dict(subdomain=s1, clumpId=c1, groupMask=g1, id=3, flags=3 | (bit[0] if m1 else 0)), 'arg1': dict(subdomain=s2, clumpId=c2, groupMask=g2, id=4, flags=3 | (bit[0] if m2 else 0))}
        def orc(t):
            if t.op in ('ld', 'fv', 'param', 'L.g'):
                c, r = chain(t)
                if r.op == 'param' and r.args[0] in vals:
                    if not c: return r.args[0]
                    if c[-1] in vals[r.args[0]]: return vals[r.args[0]][c[-1]]
                if r.op == 'param' and r.args[0] == 'arg2': return sub
                if r.op == 'L.g': return {'ID_NONE': -1, 'avoidSelfInteractionMask': av}.get(r.args[0].split('::')[-1], NotImplemented)
            return NotImplemented
        ev = Eval(orc)
        for p in ps:
            if not feasible(ev, p.facts): continue
            n += 1
            try: r = ev.truth(p.val)
            except Unknown as x: ctx.undecided('filter', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
            why = 'clump members/clumps %d,%d of bodies 3,4' % (c1, c2) if isclump or same or (c1, c2) != (-1, -1) else 'masks %d,%d (no self-interaction of %d)' % (g1, g2, av) if (g1, g2, av) != (1, 1, 0) else 'subdomains %d,%d seen by %d' % (s1, s2, sub)
            ctx.check(r == want, 'filter', f['file'], f['line'], f['q'], 'pair %s although it should%s: %s' % ('admitted' if r else 'refused', '' if want else ' not', why), key='%s%s%s' % (r, why.split(' ')[0], (c1 != -1, c2 != -1, c1 == c2)))
    ctx.count('representatives', n)
    if n < 500: raise AnalysisBroken('too few cases of mayCollide')
def kept(m):
    ctx = m.ctx; S = 'InsertionSortCollider::spatialOverlap'
    f, ps = m.run('InsertionSortCollider::shouldBeErased', opaque=[S, S + 'Peri'])
    for per, ov in itertools.product((True, False), repeat=2):
        def extra(t):
            if t.op == 'app' and str(t.args[0]).split('::')[-1] in ('spatialOverlap', 'spatialOverlapPeri'):
                return ov if str(t.args[0]).endswith('Peri') == per else not ov
            return NotImplemented
        o = Orac(periodic=per); o.extra = extra; ev = Eval(o)
        for p in ps:
            if not feasible(ev, p.facts): continue
            for e in p.events:
                if e.kind == 'call': ctx.check({chain(a)[1].args[0] if chain(a)[1].op == 'param' else None for a in e.args[:2]} == {'arg0', 'arg1'}, 'kept', f['file'], e.line, f['q'], 'the boxes of other bodies are tested', key='ids')
            try: r = ev.truth(p.val)
            except Unknown as x: ctx.undecided('kept', f['file'], f['line'], f['q'], 'cannot evaluate: %s' % x); continue
            ctx.check(not (r and ov), 'kept', f['file'], f['line'], f['q'], 'a contact is erased although the boxes meet (%speriodic)' % ('' if per else 'not '), key='keep%s' % per)
    fs = [f for f in m.db.fns.values() if f['q'].startswith('InteractionContainer::conditionalyEraseNonReal') and f.get('body') and not f.get('dep')]
    if not fs: raise AnalysisBroken('no instance of conditionalyEraseNonReal')
    for f in fs:
        setparams(f)
        sb = {g['q'] for g in m.db.fns.values() if g['q'].endswith('::shouldBeErased')}
        e = engine(m.db, rec_store=lambda l, s: False, rec_call=lambda q, *a: q.split('::')[-1] in ('erase', 'push_back', 'emplace_back', 'shouldBeErased'), opaque=sb | {'InteractionContainer::erase'})
        n = 0
        for p, loops in all_paths(e.run(f)):
            for c in p.events:
                if c.kind != 'call': continue
                nm = c.q.split('::')[-1]
                rec = c.args[0] if nm != 'erase' and c.args else None
                if nm == 'erase' and c.q.startswith('InteractionContainer') and fname(c.args[0]) == 'Interaction::id1': ids = c.args[:2]
                elif rec is not None and rec.op == 'vec3': ids = rec.args[:2]
                else: continue
                n += 1
                ok = False
                for x in p.facts:
                    t = x.args[0] if x.op == 'nn' else x
                    if t.op == 'app' and str(t.args[0]).split('::')[-1] == 'shouldBeErased':
                        a = [y for y in t.args[1:] if isinstance(y, Term)]
                        ok = ok or (ids[0] in a and ids[1] in a)
                ctx.check(ok, 'kept', f['file'], c.line, f['q'], 'a contact is erased without the collider having found its boxes apart', key='cond')
        if not n: raise AnalysisBroken('no erasure found in conditionalyEraseNonReal')
        ctx.count('erasures', n)

# ---------------------------------------------------------------- sorting
BF = ('coord', 'id', 'period', 'isMin', 'hasBB')
def belem(t, p, ev, depth=0):
    """(which element, field) if t is a value of a bound (or of one of its fields); the element is its index, or the index its local copy was taken from"""
    fld = None
    if t.op in ('lh', 'lo') and isinstance(t.args[1], Term): loc, carried = t.args[1], t.op
    elif t.op in ('ld', 'addr', 'fv'): loc, carried = t, None
    else: return None
    while True:
        if loc.op in ('ld', 'addr'): loc = loc.args[0]
        elif loc.op in ('L.f', 'fv'):
            n = str(loc.args[1]).split('::')[-1]
            if fld is None and n in BF: fld = n
            elif n != 'flags': return None
            loc = loc.args[0]
        elif loc.op == 'L.e':
            try: return int(ev(loc.args[1])), fld
            except Unknown: return None
        elif loc.op in ('L.var', 'L.tmp'):
            if carried: return 'carried', fld
            v = p.st.env.get(loc)
            if v is None or depth > 3: return ('carried', fld) if fld else None
            if v.op in ('lh', 'lo'): return 'carried', fld
            r = belem(v, p, ev, depth + 1)
            return (r[0], fld) if r else None
        else: return None
class World:
    """A: the element that travels down (index I), B: the one it is compared with"""
    I, J = 10, 6
    def __init__(s, **k): s.__dict__.update(k); s.p = None
    def oracle(s, outer, inner, bidx):
        def o(t):
            if outer is not None and t is outer.info['iv']: return s.I
            if inner is not None and t is inner.info['iv']: return s.J
            if t.op == 'app' and str(t.args[0]).endswith('VecBounds::norm') or t.op == 'app' and t.args[0] == 'norm' and len(t.args) > 2: return s.ev([x for x in t.args[1:] if isinstance(x, Term)][1])
            if t.op == 'lh' and inner is not None and t.args[0] == inner.info['id']:
                if t.args[1].op == 'L.var': return s.J if not any(x.op == 'L.f' for x in subterms(t.args[1])) else NotImplemented
            if t.op == 'lo' and t.args[1].op == 'L.var' and inner is not None and t.args[0] == inner.info['id']: return s.K
            if t.op in ('ld', 'lh', 'lo', 'fv', 'L.g', 'param'):
                c, r = chain(t.args[1] if t.op in ('lh', 'lo') and isinstance(t.args[1], Term) else t)
                last = c[-1] if c else None
                if last == 'loIdx': return s.lo if inner is None or t.op != 'lh' or t.args[0] == inner.info['id'] else NotImplemented
                if last == 'cellDim': return s.dim
                if last == 'scene': return 'scene'
                if last == 'subdomain': return 77
                if r.op == 'param' and r.args[0] == 'arg3' and not c: return s.collide
                if r.op == 'param' and not c: return r.args[0]
                if last == 'size' and len(c) == 1: return 100
                if isinstance(last, Term) and 'body' in c: return ('body', s.ev(last))
                b = belem(t, s.p, s.ev)
                if b and b[1]:
                    el = s.B if b[0] == bidx else s.A if b[0] in (s.I, 'carried') else s.X.get(b[0]) if hasattr(s, 'X') else None
                    if el is None: return NotImplemented
                    return el[b[1]]
            if t.op == 'app':
                n = str(t.args[0]).split('::')[-1]
                if n == 'getScene': return 'scene'
                if n in ('spatialOverlap', 'spatialOverlapPeri', 'found'):
                    a = [x for x in t.args[1:] if isinstance(x, Term)][1:3]
                    good = {s.ev(x) for x in a} == {s.A['id'], s.B['id']}
                    return (s.found if n == 'found' else s.ov) == good
                if n == 'mayCollide':
                    a = [x for x in t.args[1:] if isinstance(x, Term)]
                    good = {s.ev(x) for x in a[:2]} == {('body', s.A['id']), ('body', s.B['id'])} and s.ev(a[2]) == 77
                    return s.may == good
            return NotImplemented
        s.ev = Eval(o)
        return s.ev
def stepbound(x, info):
    """the fact only says whether the index is still in range"""
    t = x.args[0] if x.op == 'not' else x
    if t.op not in ('lt0', 'le0'): return False
    return not any(y.op == 'L.f' and str(y.args[1]).split('::')[-1] in BF for y in subterms(t)) and any(y is info['iv'] or y.op == 'lh' and y.args[0] == info['id'] for y in subterms(t))
def pairsof(p, ev):
    """pairs recorded on the path: list of ((id, id), how, cell distance)"""
    out = []
    for e in p.events:
        if e.kind != 'call': continue
        n = e.q.split('::')[-1]
        if n == 'insert' and 'InteractionContainer' in e.q:
            a = e.args[-1]
            ids = [next((v for l, v in p.st.env.items() if l.op == 'L.f' and l.args[1] == 'Interaction::' + k and l.args[0] is a), None) for k in ('id1', 'id2')]
            cd = next((v for l, v in p.st.env.items() if l.op == 'L.f' and l.args[1] == 'Interaction::cellDist' and l.args[0] is a), None)
            out.append((tuple(ev.maybe(x) if x is not None else None for x in ids), 'insert', cd, e))
        elif n in ('push_back', 'emplace_back') and e.args:
            a = e.args[-1]; parts_ = [x for x in (a.args if a.op == 'obj' or a.op == 'app' and 'make_pair' in str(a.args[0]) else e.args) if isinstance(x, Term)]
            if len(parts_) == 2: out.append((tuple(ev.maybe(x) for x in parts_), 'list', None, e))
    return out
PRED = ['InsertionSortCollider::spatialOverlap', 'InsertionSortCollider::spatialOverlapPeri', 'Collider::mayCollide', 'InteractionContainer::found', 'InteractionContainer::insert', 'InsertionSortCollider::VecBounds::norm']
def bools(n): return itertools.product((True, False), repeat=n)
def isvec(l): return l.op == 'L.e' and chain(l.args[0])[0][-1:] == ['vec']
def sorting(m):
    for q, per in (('insertionSort', False), ('insertionSortPeri', True), ('insertionSortParallel', False)): sort1(m, 'InsertionSortCollider::' + q, per)
def sort1(m, q, per):
    ctx = m.ctx
    f, ps = m.run(q, opaque=PRED + (['InsertionSortCollider::insertionSort'] if q.endswith('Parallel') else []), rec=['push_back', 'emplace_back'], store=lambda l, s: isvec(l) or l.op == 'L.f' and str(l.args[1]).split('::')[-1] in BF + ('loIdx',) or l.op == 'L.var' and 'bool' in str(l.args), maxwork=60_000_000)
    done = {}
    DIM = 10.
    for p, loops in all_paths(ps):
        for e in p.events:
            if e.kind != 'loop' or not loops: continue
            sh = [(w, x) for w in e.paths for x in w.events if x.kind == 'store' and isvec(x.obj)]
            if not sh or any(y.kind == 'loop' and any(isvec(x.obj) for w2 in y.paths for x in w2.events if x.kind == 'store') for w in e.paths for y in w.events): continue
            outer = loops[-1]
            key = (e.line, outer.line)
            if done.get(key, 0) > (2 if per else 1): continue
            done[key] = done.get(key, 0) + 1
            inner_world(m, f, q, per, outer, e, p)
    if not done: raise AnalysisBroken('no sorting loop found in %s' % q)
    ctx.count('sorting_loops', len(done))
    outer_world(m, f, q, per, ps)
    if q.endswith('Parallel'): parts(m, f, ps)
    if q.endswith('Parallel'):
        for p in ps:
            if p.end == 'throw' or not any(x.kind == 'loop' for x in p.events): continue
            ctx.check(insertloop(p, f, ctx, 'pairs', 'parallel sort'), 'pairs', f['file'], f['line'], f['q'], 'the recorded pairs do not become contacts', key='parins')
    # what follows the inner loop, and the range of the outer one
    for p, loops in all_paths(ps):
        ev_l = [e for e in p.events if e.kind == 'loop' and any(x.kind == 'store' and isvec(x.obj) for w in e.paths for x in w.events)]
        if not loops or not ev_l: continue
        if any(y.kind == 'loop' and any(x.kind == 'store' and isvec(x.obj) for w2 in y.paths for x in w2.events) for e in ev_l for w in e.paths for y in w.events): continue
        e = ev_l[-1]; after = p.events[p.events.index(e) + 1:]
        w = World(A=dict(id=1), B=dict(id=2), lo=3, dim=DIM, collide=True, K=4); w.p = p; ev = w.oracle(loops[-1], e, None)
        st = [x for x in after if x.kind == 'store' and isvec(x.obj)]
        good = False
        for x in st:
            i = ev.maybe(x.obj.args[1]); b = belem(x.val, p, ev)
            good = good or (i in (w.K + 1, w.J + 1) and b is not None and b[0] in (w.I, 'carried'))
        ctx.check(good, 'sorted', f['file'], e.line, f['q'], 'the element that moved down is not put in the place that became free', key='place%d' % e.line)

def lowest(info):
    """smallest index visited by a descending loop"""
    if info['hi'] is None or info['step'] != -1: return None
    return info['hi'] if info['cmp'] == '>=' else add(info['hi'], ONE) if info['cmp'] in ('>', '!=') else None
def insertloop(p, f, ctx, rule, what):
    """the pairs recorded in lists are turned into contacts: all threads, all entries, unless found"""
    for e in p.events:
        if e.kind != 'loop': continue
        for w in e.paths:
            for l in [y for y in w.events if y.kind == 'loop'] + [None]:
                for q in (l.paths if l is not None else [w]):
                    ins = [x for x in q.events if x.kind == 'call' and x.q == 'InteractionContainer::insert']
                    if not ins: continue
                    a = ins[0].args[-1]
                    ids = [next((v for k, v in q.st.env.items() if k.op == 'L.f' and k.args[1] == 'Interaction::' + n and k.args[0] is a), None) for n in ('id1', 'id2')]
                    fl = [x is not None and (fname(x) or '').split('::')[-1] for x in ids]
                    if set(fl) != {'first', 'second'} or base(ids[0]) is not base(ids[1]): continue
                    entry = base(ids[0]); li = l if l is not None else e
                    full = visited(li.info) is not None or li.info['lo'] is ZERO and li.info['step'] == 1 and li.info['cmp'] in ('<', '!=') and any(x.op == 'app' and x.args[0] == 'size' for x in subterms(li.info['hi']))
                    ctx.check(full, rule, f['file'], li.line, f['q'], '%s: not all recorded pairs become contacts' % what, key='all' + what)
                    if l is not None:
                        i = e.info
                        thr = visited(i) is not None or (i['lo'] is ZERO and i['step'] == 1 and i['cmp'] in ('<', '!=') and (fname(i['hi']) or '').endswith('ompThreads') or bool(i.get('sized')) and i['lo'] is ZERO) or i['lo'] is ZERO and i['hi'] is not None and any(x.op in ('ld', 'app', 'ite') and 'hreads' in show(x) for x in subterms(i['hi']))
                        ctx.check(thr, rule, f['file'], e.line, f['q'], '%s: the pairs of some threads are left out' % what, key='thr' + what)
                    bad = [x for x in q.facts if any(y.op == 'app' and str(y.args[0]).split('::')[-1] == 'found' for y in subterms(x)) and not x.op == 'not']
                    ctx.check(not bad, rule, f['file'], li.line, f['q'], '%s: only pairs that exist already are inserted' % what, key='fnd' + what)
                    for q2 in (l.paths if l is not None else e.paths):
                        if q2 is q or any(x.kind == 'call' and x.q == 'InteractionContainer::insert' for x in q2.events): continue
                        okskip = any(x.op == 'nn' and x.args[0].op == 'app' and str(x.args[0].args[0]).split('::')[-1] == 'found' or x.op == 'app' and str(x.args[0]).split('::')[-1] == 'found' for x in q2.facts)
                        ctx.check(okskip and q2.end in ('fall', 'continue'), rule, f['file'], li.line, f['q'], '%s: a new pair is left out' % what, key='skp' + what)
                    return True
    return False
def outer_world(m, f, q, per, ps):
    ctx = m.ctx; n = 0
    shifting = lambda e: e.kind == 'loop' and any(x.kind == 'store' and isvec(x.obj) for w in e.paths for x in w.events)
    for p, loops in all_paths(ps):
        for o in p.events:
            if o.kind != 'loop': continue
            inner = [e for w in o.paths for e in w.events if shifting(e) and not any(shifting(y) for w2 in e.paths for y in w2.events)]
            if not inner: continue
            n += 1
            e = inner[0]
            if per:
                lo_ok = o.info['lo'] is None or o.info['lo'] is ZERO
                ctx.check(lo_ok, 'sorted', f['file'], o.line, f['q'], 'the first elements are not sorted', key='o0')
                for ca, cx, lo in ((1., 2., 3), (-.5, 9.8, 10), (.5, 10.7, 10), (3., 3.5, 3)):
                    W = World(A=dict(coord=ca, id=1, period=0, isMin=True, hasBB=True), B={}, X={9: dict(coord=cx, id=2, period=0, isMin=False, hasBB=True)}, lo=lo, dim=10., collide=True, K=4)
                    for w in o.paths:
                        W.p = w; ev = W.oracle(o, None, None)
                        if not feasible(ev, w.facts): continue
                        ctx.check(any(shifting(x) for x in w.events), 'sorted', f['file'], o.line, f['q'], 'an element (%g%s) below its predecessor (%g) is passed over' % (ca, ', first of the period' if lo == 10 else '', cx), key='oskip')
                continue
            low = lowest(e.info)
            first = low is not None and o.info['lo'] is not None and cdiff(o.info['lo'], low) == 1
            if first:
                hi = o.info['hi']
                rng = o.info['step'] == 1 and o.info['cmp'] in ('<', '!=') and hi is not None and (fname(hi) in ('InsertionSortCollider::VecBounds::size',) or any(x.op == 'app' and x.args[0] == 'size' for x in subterms(hi)) or elem(hi) is not None and elem(low) is not None and elem(hi)[0] is elem(low)[0] and cdiff(elem(hi)[1], elem(low)[1]) == 1)
                ctx.check(rng, 'sorted', f['file'], o.line, f['q'], 'not all elements are sorted (range of the loop)', key='orng%d' % o.line)
                ctx.check(e.info['lo'] is not None and cdiff(o.info['iv'], e.info['lo']) == 1, 'sorted', f['file'], e.line, f['q'], 'the element is not compared with its predecessor first', key='ist%d' % e.line)
                ctx.check(all(w.end in ('fall', 'continue') or any(stepbound(x, o.info) for x in w.facts) for w in o.paths), 'sorted', f['file'], o.line, f['q'], 'the sorting is left early', key='oearly%d' % o.line)
            else:
                # elements may stop at a limit: then the sequential sort must follow
                ctx.count('limited_sorts', 1)
                limited(m, f, ps, p, o, e)
    if not n: raise AnalysisBroken('no outer sorting loop in %s' % q)
    if per: 
        def o5(t):
            if t.op == 'app' and str(t.args[0]).split('::')[-1] == 'norm': return idx5([x for x in t.args[1:] if isinstance(x, Term)][1])
            return 5 if t.op in ('lh', 'lo', 'iv', 'ld', 'param') else NotImplemented
        idx5 = Eval(o5)
        for p, loops in all_paths(ps):
            any5 = Eval(lambda u: 5)
            def o(t):
                if t.op in ('ld', 'lh', 'lo', 'fv'):
                    b = belem(t, p, any5)
                    if b and b[1] in ('coord', 'period'): return 3. if b[1] == 'coord' else 7
                    if t.op == 'ld' and chain(t)[0][-1:] == ['cellDim']: return 10.
                return NotImplemented
            ev = Eval(o)
            by = {}
            for x in p.events:
                if x.kind == 'store' and x.obj.op == 'L.f' and x.obj.args[1].split('::')[-1] in ('coord', 'period'): by.setdefault(x.obj.args[0], {})[x.obj.args[1].split('::')[-1]] = x
            for b, d in by.items():
                c = ev.maybe(d['coord'].val) if 'coord' in d else 3.
                k = ev.maybe(d['period'].val) if 'period' in d else 7
                if c is None or k is None: continue
                ctx.check(abs(c + 10. * k - 73.) < 1e-9, 'sorted', f['file'], list(d.values())[0].line, f['q'], 'coordinate and period of an element do not change together', key='pconst%d' % list(d.values())[0].line)
                el = b.args[0] if b.op == 'addr' else b
                if el.op != 'L.e' or not isvec(el) or any(x.kind == 'store' and isvec(x.obj) for x in p.events) or any(x.kind == 'loop' for x in p.events) or abs(abs(c - 3.) - 10.) > 1e-9: continue
                i, l = idx5.maybe(el.args[1]), next((idx5.maybe(v) for g, v in p.st.env.items() if g.op == 'L.f' and g.args[1].split('::')[-1] == 'loIdx' and v.op != 'lh'), 5)
                if i is None or l is None: continue
                ctx.check(l - i == (1 if c > 3. else 0), 'sorted', f['file'], d['coord'].line, f['q'], 'an element goes to the %s end of the period, but the first place of the period is not moved along' % ('upper' if c > 3. else 'lower'), key='clamp%d' % d['coord'].line)
def limited(m, f, ps, top, o, e):
    """second phase of the parallel sort: a limit that is reached leads to the sequential sort"""
    ctx = m.ctx
    flag = None
    for p in ps:
        c = [x for x in p.events if x.kind == 'call' and x.q == 'InsertionSortCollider::insertionSort']
        lps = [i for i, x in enumerate(p.events) if x.kind == 'loop']
        if not c or not lps or p.events.index(c[-1]) < lps[-1]: continue
        for x in p.facts:
            for y in subterms(x):
                if y.op in ('lo', 'lh') and y.args[1].op == 'L.var' and x.op == 'nn' and x.args[0] is y: flag = y.args[1]
        a = c[-1].args
        ctx.check(chain(a[0])[1].op == 'param' and chain(a[0])[1].args[0] == 'arg0' and (len(a) < 4 or a[3].op == 'param' and a[3].args[0] == 'arg3'), 'sorted', f['file'], c[-1].line, f['q'], 'the sequential sort is called for something else', key='seqargs')
    if not ctx.check(flag is not None, 'sorted', f['file'], o.line, f['q'], 'elements that reach the limit of their part of the list are not sorted further', key='flag'): return
    csize = 20
    def mk_o(K, I):
        def oo(t):
            if t.op == 'lo' and t.args[0] == e.info['id'] and t.args[1].op == 'L.var': return K
            if t.op in ('lo', 'lh') and t.args[0] == o.info['id'] and t.args[1].op == 'L.var' and t.args[1] is not flag: return I
            if t is o.info['iv']: return I
            if t.op == 'ld' and isinstance((chain(t)[0][-1:] or [None])[0], Term) and chain(t)[1].op == 'L.var': return 50
            if t.op in ('lo', 'lh', 'ld') and t is not flag and (t.args[1] if t.op != 'ld' else t.args[0]).op == 'L.var' and 'hunkSize' in show(t): return csize
            if t.op in ('lo', 'lh') and t.args[1] is flag: return False
            return NotImplemented
        return Eval(oo)
    sizes = {y for w in o.paths for x in w.facts for y in subterms(x) if y.op in ('lo', 'lh') and y.args[1].op == 'L.var'}
    low = lowest(e.info); n = 0
    ev0 = mk_o(0, 55); L = ev0.maybe(low) if low is not None else None
    H = ev0.maybe(o.info['hi']) if o.info['hi'] is not None else None
    if L is None or H is None: return ctx.undecided('sorted', f['file'], e.line, f['q'], 'limits of the parallel sort not understood')
    for c in (20, 21):
        csize = c; ev1 = mk_o(0, 55); l1, h1 = ev1.maybe(low), ev1.maybe(o.info['hi'])
        if l1 is not None and h1 is not None: ctx.check(math.floor(h1) <= math.floor(l1) + c, 'sorted', f['file'], o.line, f['q'], 'the ranges that two threads sort at the same time overlap: parts of %d elements, from %+d to %+d about each joint' % (c, l1 - 50, h1 - 50), key='disjoint')
    csize = 20
    for w in o.paths:
        if not any(x is e or x.kind == 'loop' and x.line == e.line for x in w.events): continue
        ev = mk_o(L - 1, 55)
        if not feasible(ev, w.facts): continue
        n += 1
        v = w.st.env.get(flag)
        ctx.check(v is not None and ev.maybe(v) is True, 'sorted', f['file'], e.line, f['q'], 'an element that reached the lower limit is not reported', key='lowlim')
    if not n: ctx.undecided('sorted', f['file'], e.line, f['q'], 'no path for the lower limit')
    # the enclosing iteration: the upper limit
    n = 0
    for p, loops in all_paths(ps):
        if not any(x.kind == 'loop' and x.line == o.line for x in p.events): continue
        def oo(t):
            if t.op == 'lo' and t.args[0] == o.info['id'] and t.args[1].op == 'L.var': return False if t.args[1] is flag else H
            return mk_o(50, H).o(t)
        ev = Eval(oo)
        if not loops or not feasible(ev, p.facts): continue
        n += 1
        v = p.st.env.get(flag)
        ctx.check(v is not None and ev.maybe(v) is True, 'sorted', f['file'], o.line, f['q'], 'a part of the list that was not connected up to its upper limit is not reported', key='uplim')
    if not n: ctx.undecided('sorted', f['file'], o.line, f['q'], 'no path for the upper limit')

def parts(m, f, ps):
    """the parts of the list that threads sort start within the list"""
    ctx = m.ctx; n = 0
    for p, loops in all_paths(ps):
        if not loops or loops[-1].info['hi'] is None: continue
        i = loops[-1].info
        for x in p.events:
            if not (x.kind == 'call' and x.q.split('::')[-1] in ('push_back', 'emplace_back') and x.args and x.obj is not None and root(x.obj).op == 'L.var' and i['iv'] in set(subterms(x.args[-1]))): continue
            for size, thr in itertools.product((2000, 2002, 5000), (2, 7, 45, 64)):
                def o(t):
                    if t.op == 'ld' and chain(t)[0][-1:] == ['ompThreads']: return thr
                    if t.op == 'ld' and chain(t)[0][-1:] == ['size']: return size
                    if t.op == 'idiv': return ev(t.args[0]) // ev(t.args[1])
                    if t is i['iv']: return k
                    return NotImplemented
                k = 0; ev = Eval(o); top = ev.maybe(i['hi'])
                if top is None: continue
                for k in (0, 1, top - 1):
                    ev = Eval(o); v = ev.maybe(x.args[-1])
                    if v is None: continue
                    n += 1
                    ctx.check(0 <= v < size, 'sorted', f['file'], x.line, f['q'], 'part %d of %d of a list of %d starts at %d' % (k, thr, size, v), key='part')
    ctx.count('representatives', n)
def inner_world(m, f, q, per, outer, inner, op_):
    ctx = m.ctx
    w0 = World(A={}, B={}, lo=3, dim=10., collide=True, K=4)
    sh = [(w, x) for w in inner.paths for x in w.events if x.kind == 'store' and isvec(x.obj)]
    w0.p = sh[0][0]; ev = w0.oracle(outer, inner, None)
    b = belem(sh[0][1].val, sh[0][0], ev); s0 = ev.maybe(sh[0][1].obj.args[1])
    if not ctx.check(b is not None and b[0] != 'carried' and s0 == b[0] + 1, 'sorted', f['file'], inner.line, f['q'], 'elements do not move up by one place', key='up%d' % inner.line): return
    bidx = b[0]; n = 0
    geo = []
    for ca, cb in ((1., 2.), (2., 1.), (1., 1.)):
        for same in (False, True): geo.append((ca, cb, same, 3))
    if per: geo = [(ca, cb, same, lo) for ca, cb in ((1., 2.), (2., 1.), (-.5, .2), (-.5, -.7), (.5, 10.7), (.5, 10.2), (.5, 9.)) for same in (False,) for lo in (3, bidx, bidx + 1)]
    for ca, cb, same, lo in geo:
        eff = ca + (10. if per and lo == bidx + 1 else 0.)
        bl = list(bools(8)) if cb > eff else [(a_, b_, True, True, True, True, True, False) for a_, b_ in bools(2)]
        for ma, mb, ha, hb, col, ov, may, fo in bl:
            if cb > eff and (ha, hb, col).count(False) > 1: continue
            A = dict(coord=ca, id=1, period=5, isMin=ma, hasBB=ha); B_ = dict(coord=cb, id=1 if same else 2, period=2, isMin=mb, hasBB=hb)
            if same and ma == mb: continue
            W = World(A=A, B=B_, lo=lo, dim=10., collide=col, ov=ov, may=may, found=fo, K=4)
            if not per and ca == cb and not same: continue
            if per and cb == eff: continue
            move = cb > eff or (not per and same and ca == cb and ma and not mb)
            for w in inner.paths:
                W.p = w; ev = W.oracle(outer, inner, bidx)
                if not feasible(ev, w.facts): continue
                shifts = [x for x in w.events if x.kind == 'store' and isvec(x.obj)]
                if w.end in ('break', 'return') and any(stepbound(x, inner.info) for x in w.facts[-1:]) and not shifts: continue
                if not shifts and w.end == 'break' and per and any(stepbound(x, inner.info) for x in w.facts): 
                    if not any(any(y.op == 'L.f' and str(y.args[1]).endswith('::coord') for y in subterms(x)) and inner.info['id'] in str([z.args[0] for z in subterms(x) if z.op in ('lh',)]) for x in w.facts): continue
                n += 1
                what = 'element %g (%s of body %d), compared with %g (%s of body %d)%s' % (ca, 'lower end' if ma else 'upper end', 1, cb, 'lower end' if mb else 'upper end', B_['id'], ', first of the period at %+d' % (lo - bidx) if per and lo != 3 else '')
                ctx.check(bool(shifts) == move, 'sorted', f['file'], inner.line, f['q'], '%s: %s' % (what, 'does not move below it' if move else 'moves below it'), key='cmp%d%s%s' % (inner.line, move, same))
                if not shifts: continue
                if move and ma and not mb and ha and hb and col and ov and may and not fo and not same:
                    pr = [x for x in pairsof(w, ev) if set(x[0]) == {1, 2}]
                    ctx.check(bool(pr), 'pairs', f['file'], inner.line, f['q'], '%s: the boxes meet, but the pair is not recorded' % what, key='miss%d' % inner.line)
                    for x in pr if per else ():
                        g = x[2]; ok = g is not None and g.op == 'out' and any(y.op == 'app' and str(y.args[0]).endswith('spatialOverlapPeri') and tuple(ev.maybe(z) for z in [u for u in y.args[1:] if isinstance(u, Term)][1:3]) == x[0] for y in subterms(g))
                        ctx.check(ok, 'pairs', f['file'], inner.line, f['q'], 'the cell distance of the new contact is not that found for its two bodies', key='cd')
                for x in pairsof(w, ev):
                    ctx.check(set(x[0]) == {1, 2} or None in x[0] and not may, 'pairs', f['file'], x[3].line, f['q'], '%s: recorded for bodies %s' % (what, x[0]), key='who%d' % inner.line)
                    ctx.check(may, 'pairs', f['file'], x[3].line, f['q'], '%s: the pair is recorded although it may not collide' % what, key='may%d' % inner.line)
                if per:
                    # whole periods are moved between coordinate and period, never lost
                    S = {}
                    for l, v in w.st.env.items():
                        if l.op == 'L.f' and l.args[1].split('::')[-1] in ('coord', 'period') and v.op != 'lh':
                            bb = belem(mk('ld', l, 0), w, ev)
                            if bb and root(l).op == 'L.var': bb = ('carried', bb[1])
                            if bb and bb[0] in (bidx + 1, 'carried'): S[(bb[0], bb[1])] = ev.maybe(v)
                    lo2 = next((ev.maybe(v) for l, v in w.st.env.items() if l.op == 'L.f' and l.args[1].split('::')[-1] == 'loIdx'), lo)
                    ca2, cb2 = S.get(('carried', 'coord'), ca), S.get((bidx + 1, 'coord'), cb)
                    if None not in (lo2, ca2, cb2):
                        d = lambda k: 10. * (lo == bidx + k); d2 = lambda k: 10. * (lo2 == bidx + k)
                        ctx.check(abs(cb2 + d2(1) - ca2 - (cb - ca - d(1))) < 1e-9 and abs(ca2 + d2(0) - (ca + d(0) + d(1))) < 1e-9 and abs(cb2 - d2(2) - (cb - d(1) - d(2))) < 1e-9, 'sorted', f['file'], inner.line, f['q'], '%s: the place of the first element of the period is not moved along (now at %+d)' % (what, lo2 - bidx), key='split')
                        n += 1
                    for el, who, nm in ((B_, bidx + 1, 'larger'), (A, 'carried', 'smaller')):
                        c, k = S.get((who, 'coord'), el['coord']), S.get((who, 'period'), el['period'])
                        if c is None or k is None: continue
                        ctx.check(abs(c + 10. * k - el['coord'] - 10. * el['period']) < 1e-9, 'sorted', f['file'], inner.line, f['q'], '%s: coordinate and period of the %s element do not change together' % (what, nm), key='per%s' % nm)
    ctx.count('representatives', n)
    if n < 40: raise AnalysisBroken('too few cases of the sorting loop in %s (%d)' % (q, n))

# ---------------------------------------------------------------- the run of the collider
def bbaxis(t):
    """axis k if the term is (inside) BB[k]"""
    for x in subterms(t):
        if x.op == 'L.e' and x.args[1].op == 'c' and any(y.op == 'L.f' and str(y.args[1]).endswith('::BB') for y in subterms(x.args[0])): return int(x.args[1].args[0])
    return None
def action(m):
    ctx = m.ctx; I = 'InsertionSortCollider::'
    er = {g['q'] for g in m.db.fns.values() if g['q'].startswith('InteractionContainer::conditionalyEraseNonReal')}
    f, ps = m.run(I + 'action', opaque=PRED + [I + 'insertionSort', I + 'insertionSortPeri', I + 'insertionSortParallel', 'BoundDispatcher::action'] + sorted(er), rec=['push_back', 'emplace_back', 'sort', 'stable_sort', 'memcpy', 'clear', 'copy'],
                  store=lambda l, s: l.op == 'L.e' and any(x.op == 'L.f' and str(x.args[1]).split('::')[-1] in ('minima', 'maxima') for x in subterms(l)), maxwork=60_000_000)
    n = 0; travs = {}; copies = {}
    for nOld, nNew, ds, dirty, perO, per, stc, thr, bound in itertools.product((0, 4, 2000), (4, 3, 50, 150, 1999, 2000, 2003), (False, True), (False, True), (False, True), (False, True), (False, True), (1, 3), (True,)):
        if (ds + dirty + (perO != per) + stc + (thr != 3)) > 1: continue
        o = Orac(isPeriodic=per, periodic=perO, doSort=ds, dirty=dirty, sortThenCollide=stc, ompThreads=thr, verletDist=.1, newton='newton', strideActive=True, sortAxis=0)
        def extra(t):
            if t.op == 'app' and t.args[0] == 'size' and len(t.args) > 1 and 'bodies' in chain(t.args[1])[0]: return nNew
            if t.op == 'app' and t.args[0] == 'idiv': return ev(t.args[1]) // ev(t.args[2])
            if t.op == 'idiv': return ev(t.args[0]) // ev(t.args[1])
            if t.op == 'ld':
                c, r = chain(t)
                if c[-1:] == ['size'] and 'BB' in c: return 2 * nOld
                if c[-1:] == ['doSort'] and 'scene' in c: return False
            return NotImplemented
        o.extra = extra; ev = Eval(o)
        must = ds or dirty or nOld == 0 or nNew - nOld > 100 or nNew < nOld or per != perO
        why = 'requested' if ds else 'dirty contacts' if dirty else 'first run' if nOld == 0 else 'periodicity changed' if per != perO else '%d bodies instead of %d' % (nNew, nOld)
        for p in ps:
            if p.end == 'throw' or not feasible(ev, p.facts): continue
            n += 1
            sorts = {}; kinds = set(); order = []; cleared = {}; pushes = {}
            for e in p.events:
                if e.kind == 'call':
                    nm = e.q.split('::')[-1]
                    if nm in ('insertionSort', 'insertionSortPeri', 'insertionSortParallel', 'sort', 'stable_sort'):
                        ax = bbaxis(e.args[0])
                        if ax is None: continue
                        sorts[ax] = sorts.get(ax, 0) + 1; order.append('sort')
                        if nm in ('sort', 'stable_sort'):
                            kinds.add('full')
                            whole = e.args[0].op == 'it' and e.args[1].op == 'it' and e.args[0].args[1] is ZERO and bbaxis(e.args[1]) == ax and (e.args[1].args[1].op in ('app', 'sum', 'ite', 'lo', 'ld', 'poly'))
                            ctx.check(whole, 'initial', f['file'], e.line, f['q'], 'the full sort does not cover the whole list', key='whole%d' % ax)
                        else:
                            kinds.add('peri' if nm.endswith('Peri') else 'plain')
                            if e.args[-1] is FALSE: kinds.add('nocollide')
                            elif e.args[-1] is not TRUE and ev.maybe(e.args[-1]) is False: kinds.add('nocollide')
                    if nm == 'action': order.append('boxes')
                    if nm == 'clear' and bbaxis(e.obj if e.obj is not None else e.args[0]) is not None: cleared[bbaxis(e.obj if e.obj is not None else e.args[0])] = True
                if e.kind == 'loop':
                    kind = loopkind(e)
                    if kind == 'copy': order.append('copy'); copies[id(e)] = (e, p)
                    if kind == 'trav': order.append('trav'); travs[(e.line, per)] = (e, p)
                    if kind == 'push':
                        ax = [bbaxis(x.obj) for w in e.paths for x in w.events if x.kind == 'call' and x.q.split('::')[-1] in ('push_back', 'emplace_back')]
                        for a in set(ax): pushes[a] = (e, cleared.get(a, False))
            what = '%s%s' % (why, ', periodic' if per else '')
            ctx.check(sorted(sorts) == [0, 1, 2], 'initial', f['file'], f['line'], f['q'], '%s: axes %s are sorted' % (what, sorted(sorts)), key='axes%s' % must)
            ctx.check(order[:2] == ['boxes', 'copy'] and order[2:].count('copy') == 0, 'stored', f['file'], f['line'], f['q'], 'the boxes are not updated and copied before sorting (%s)' % order[:4], key='ord')
            if must:
                ctx.check('full' in kinds and order[-1:] == ['trav'], 'initial', f['file'], f['line'], f['q'], '%s: no full detection' % what, key='full' + why.split(' ')[0])
            elif 'full' in kinds or 'nocollide' in kinds: ctx.check(order[-1:] == ['trav'], 'initial', f['file'], f['line'], f['q'], '%s: the sorted list is not searched for pairs' % what, key='notrav')
            elif not stc: ctx.count('regular', 1)
            if stc and not must: ctx.check('nocollide' not in kinds or 'trav' in order, 'initial', f['file'], f['line'], f['q'], '%s: sorted without detection' % what, key='stc')
            if 'full' not in kinds: ctx.check(('peri' in kinds) == per and ('plain' in kinds) == (not per), 'initial', f['file'], f['line'], f['q'], '%s: the %s sort is used' % (what, 'periodic' if 'peri' in kinds else 'plain'), key='variant%s' % per)
            # the lists have two entries for each body
            grow = nNew != nOld or bool(cleared)
            if grow:
                ctx.check(sorted(pushes) == [0, 1, 2], 'stored', f['file'], f['line'], f['q'], '%s: the lists are not extended' % what, key='grow')
                for a, (e, clr) in pushes.items():
                    lo, hi = (ev.maybe(e.info[k]) if e.info[k] is not None else None for k in ('lo', 'hi'))
                    if lo is None or hi is None: ctx.undecided('stored', f['file'], e.line, f['q'], 'range of the added bodies not understood'); continue
                    ctx.check(lo == (0 if clr else nOld) and hi == nNew and e.info['step'] == 1, 'stored', f['file'], e.line, f['q'], '%s: bodies %d to %d are added to a list which holds %d' % (what, lo, hi, 0 if clr else nOld), key='range%s' % clr)
                    for w in e.paths: pushcheck(ctx, f, e, w)
    ctx.count('representatives', n)
    if n < 100: raise AnalysisBroken('too few runs of the collider (%d)' % n)
    if not {k[1] for k in travs} == {True, False}: raise AnalysisBroken('no search for pairs found')
    for (line, per), (e, p) in travs.items(): traverse(m, f, e, p, per)
    if not copies: raise AnalysisBroken('no copy loop')
    for e, p in copies.values(): copyloop(m, f, e, p)
    inv = 0
    for p in ps:
        if p.end == 'throw': continue
        for l, v in p.st.env.items():
            if l.op == 'L.f' and l.args[1].endswith('::invSizes') and v is not None:
                o = Orac(isPeriodic=True); o.cell = CellRep([[4., 0, 0], [0, 5., 0], [0, 0, 8.]]); ev = Eval(o)
                if not feasible(ev, p.facts): continue
                x = ev.maybe(v)
                if x is None: continue
                inv += 1
                ctx.check(x == [.25, .2, .125], 'stored', f['file'], f['line'], f['q'], 'the inverse cell sizes are wrong', key='inv')
    if not inv: ctx.check(False, 'stored', f['file'], f['line'], f['q'], 'the inverse cell sizes are not updated', key='inv0')

def pushcheck(ctx, f, e, w):
    seen = []
    for x in w.events:
        if x.kind == 'call' and x.q.split('::')[-1] in ('push_back', 'emplace_back'):
            ob = x.args[-1]
            o = next((y for y in subterms(ob) if y.op == 'newobj'), None)
            get = lambda n: next((v for l, v in w.st.env.items() if l.op == 'L.f' and str(l.args[1]).split('::')[-1] == n and root(l) is o), None)
            if o is None: return ctx.undecided('stored', f['file'], x.line, f['q'], 'added entry not understood')
            i, mn = get('id'), get('isMin')
            ctx.check(i is e.info['iv'], 'stored', f['file'], x.line, f['q'], 'the added entry is not that of the body', key='pid')
            pe = get('period')
            if pe is not None: ctx.check(pe is ZERO, 'stored', f['file'], x.line, f['q'], 'the added entry starts in another period', key='pper')
            seen.append(mn)
    ctx.check(len(seen) == 2 and {x is TRUE for x in seen} == {True, False} and {x is FALSE for x in seen} == {True, False}, 'stored', f['file'], e.line, f['q'], 'a body does not get one lower and one upper end in each list', key='pends')
def loopkind(e):
    t = {'trav': False, 'copy': False, 'push': False}
    for w, ls in all_paths(e.paths):
        for x in w.events:
            if x.kind == 'call':
                n = x.q.split('::')[-1]
                if n in ('push_back', 'emplace_back') and bbaxis(x.obj) is not None: t['push'] = True
                if n == 'mayCollide': t['trav'] = True
        for l in w.st.env:
            if l.op == 'L.f' and str(l.args[1]).endswith('Bounds::coord') and bbaxis(l) is not None and w.st.env[l] is not None and w.st.env[l].op not in ('lh', 'lo', 'ld') and root(l).op != 'newobj': t['copy'] = True
    return 'push' if t['push'] else 'trav' if t['trav'] else 'copy' if t['copy'] else None

def traverse(m, f, e, p, per):
    """search of the sorted list: every lower end within the range of a box is tested against it"""
    ctx = m.ctx
    i = e.info
    full = i['lo'] is ZERO and i['step'] == 1 and i['cmp'] in ('<', '!=') and i['hi'] is not None and (cdiff(i['hi'], ZERO) is None)
    o = Orac(); o.extra = lambda t: 50 if t.op == 'app' and t.args[0] == 'size' else 100 if t.op == 'ld' and chain(t)[0][-1:] == ['size'] else NotImplemented
    ctx.check(full and Eval(o).maybe(i['hi']) in (100, None), 'initial', f['file'], e.line, f['q'], 'not all entries are searched', key='trng%s' % per)
    n = 0; inserted = False
    for w in e.paths:
        inner = [x for x in w.events if x.kind == 'loop']
        for ma, ha in bools(2):
            W = World(A=dict(coord=1., id=1, period=0, isMin=ma, hasBB=ha), B={}, lo=0, dim=10., collide=True, K=4); W.p = w; ev = W.oracle(e, None, None)
            if feasible(ev, w.facts) and ma and ha: ctx.check(bool(inner), 'initial', f['file'], e.line, f['q'], 'a lower end is passed over', key='tlow%s' % per)
        for l in inner:
            if l.info['lo'] is not None: ctx.check(cdiff(l.info['lo'], i['iv']) == 1, 'initial', f['file'], l.line, f['q'], 'the search does not start at the next entry', key='tst%s' % per)
            for q in l.paths:
                for same, mb, hb, ov, may, fo in bools(6):
                    W = World(A=dict(coord=1., id=1, period=0, isMin=True, hasBB=True), B=dict(coord=2., id=1 if same else 2, period=0, isMin=mb, hasBB=hb), lo=0, dim=10., collide=True, ov=ov, may=may, found=fo, K=4, J=16)
                    W.p = q; ev = W.oracle(e, l, 16)
                    if not feasible(ev, q.facts): continue
                    if q.end in ('break', 'return') and q.facts and stepbound(q.facts[-1], l.info): continue
                    n += 1
                    pr = pairsof(q, ev)
                    for x in pr:
                        inserted = inserted or x[1] == 'list'
                        ctx.check(set(x[0]) == {1, 2}, 'initial', f['file'], x[3].line, f['q'], 'recorded for bodies %s instead of the two found' % (x[0],), key='twho%s' % per)
                        ctx.check(may, 'initial', f['file'], x[3].line, f['q'], 'a pair is recorded although it may not collide', key='tmay%s' % per)
                        if per:
                            g = x[2]; ok = g is not None and g.op == 'out' and any(y.op == 'app' and str(y.args[0]).endswith('spatialOverlapPeri') and tuple(ev.maybe(z) for z in [u for u in y.args[1:] if isinstance(u, Term)][1:3]) == x[0] for y in subterms(g))
                            ctx.check(ok, 'initial', f['file'], l.line, f['q'], 'the cell distance of the new contact is not that found for its two bodies', key='tcd')
                    if not same:
                        ctx.check(q.end in ('fall', 'continue'), 'initial', f['file'], l.line, f['q'], 'the search stops before the upper end of the body', key='tend%s' % per)
                        if mb and hb and ov and may and not fo: ctx.check(bool(pr), 'initial', f['file'], l.line, f['q'], 'a lower end within the box of a body, the boxes meet: the pair is not recorded', key='tmiss%s' % per)
    if n < 16: raise AnalysisBroken('search for pairs not understood')
    ctx.count('representatives', n)
    if inserted: ctx.check(insertloop(p, f, ctx, 'initial', 'full detection'), 'initial', f['file'], e.line, f['q'], 'the recorded pairs do not become contacts', key='tins')

def copyloop(m, f, e, p):
    ctx = m.ctx
    i = e.info
    full = i['lo'] is ZERO and i['step'] == 1 and i['cmp'] in ('<', '!=') and i['hi'] is not None
    ctx.check(full, 'stored', f['file'], e.line, f['q'], 'not all entries are updated', key='crng')
    DIM = [4., 5., 8.]; MIN, MAX, POS = [-3., 7., 30.5], [-1.5, 9.25, 33.], [-2.2, 8.1, 31.]
    copied = {}
    for hasb, bv, mn, per, init in bools(5):
        o = Orac(isPeriodic=per, sortThenCollide=False); o.cell = CellRep([[DIM[0], 0, 0], [0, DIM[1], 0], [0, 0, DIM[2]]])
        o.k.update({'periodic': per, 'bound.min': MIN, 'bound.max': MAX, 'position': POS, 'doSort': init, 'dirty': False})
        def extra(t):
            if t is i['iv']: return 10
            if t.op in ('ld', 'addr', 'lh', 'lo', 'fv'):
                c, r = chain(t.args[1] if t.op in ('lh', 'lo') else t)
                if c and isinstance(c[-1], Term) and 'body' in c: return 'body' if hasb else None
                if c and c[-1] == 'bound' and 'body' in c: return 'bound' if bv else None
                if 'BB' in c:
                    k = bbaxis(t)
                    if c[-1] == 'axis': return k
                    if c[-1] == 'cellDim': return DIM[k] if k is not None else NotImplemented
                    if c[-1] == 'size': return 100
                    if c[-1] == 'isMin': return mn
                    if c[-1] == 'hasBB': return bv
                    if c[-1] == 'period': return [0, 2, -1][k]
                    if c[-1] == 'id': return 5
                    if c[-1] == 'coord': return 77.
            if t.op == 'app' and t.args[0] == 'size': return 50
            if t.op == 'sizeof' or t.op == 'app' and t.args[0] == 'sizeof': return 8
            return NotImplemented
        o.extra = extra
        ev = Eval(o)
        if not feasible(ev, p.facts): continue
        for w in e.paths:
            if not feasible(ev, w.facts): continue
            ctx.count('representatives', 1)
            val = {}
            for l, v in w.st.env.items():
                if l.op == 'L.f' and str(l.args[1]).split('::')[-1] in BF and bbaxis(l) is not None and v is not None:
                    b = belem(mk('ld', l, 0), w, ev)
                    if b and b[0] == 10: val[(bbaxis(l), b[1])] = v
            for k in R3:
                what = '%s%s end, axis %d%s%s' % ('' if bv else 'body without box, ', 'lower' if mn else 'upper', k, ', periodic' if per else '', ', full detection' if init else '')
                if not hasb:
                    h = val.get((k, 'hasBB'))
                    ctx.check(h is not None and ev.maybe(h) is not None and not ev.maybe(h), 'stored', f['file'], e.line, f['q'], 'the ends of a vanished body are still tested', key='cgone'); continue
                raw = (MIN if mn else MAX)[k] if bv else POS[k]
                pe = [0, 2, -1][k]
                c = ev.maybe(val[(k, 'coord')]) if (k, 'coord') in val else None
                q = ev.maybe(val[(k, 'period')]) if (k, 'period') in val else pe
                h = ev.maybe(val[(k, 'hasBB')]) if (k, 'hasBB') in val else None
                if c is None or q is None: ctx.undecided('stored', f['file'], e.line, f['q'], 'coordinate not understood: %s' % what); continue
                ctx.check(h is not None and bool(h) == bv, 'stored', f['file'], e.line, f['q'], '%s: wrongly marked as %s box' % (what, 'without' if bv else 'with'), key='chas')
                if not per: ctx.check(abs(c - raw) < 1e-9, 'stored', f['file'], e.line, f['q'], '%s: coordinate %g instead of %g' % (what, c, raw), key='craw%s%s' % (mn, k))
                else:
                    z = (raw - c) / DIM[k]
                    ctx.check(abs(z - round(z)) < 1e-9, 'stored', f['file'], e.line, f['q'], '%s: coordinate %g is not that of an image of %g' % (what, c, raw), key='cper%s%s' % (init, k))
                    if init: ctx.check(-1e-9 <= c <= DIM[k] + 1e-9, 'stored', f['file'], e.line, f['q'], '%s: coordinate %g is not within the cell' % (what, c), key='cwrap%d' % k)
            if hasb and bv:
                got = set()
                for x in w.events:
                    if x.kind == 'call' and x.q.split('::')[-1] == 'memcpy' and len(x.args) == 3:
                        d, s_ = chain(x.args[0])[0], chain(x.args[1])[0]
                        nm = next((y for y in d if y in ('minima', 'maxima')), None); src = next((y for y in reversed(s_) if y in ('min', 'max')), None)
                        if nm is None: continue
                        ok = src is not None and nm.startswith(src) and isinstance(d[-1], Term) and ev.maybe(d[-1]) == 15 and ev.maybe(x.args[2]) == 24
                        ctx.check(ok, 'stored', f['file'], x.line, f['q'], 'the %s of another body, the other corner or a part of it are copied' % nm, key='cmem' + nm)
                        if ok: got |= {(nm, k) for k in R3}
                    if x.kind == 'store':
                        c = chain(x.obj)[0]; nm = next((y for y in c if y in ('minima', 'maxima')), None)
                        k = ev.maybe(c[-1]) if isinstance(c[-1], Term) else None; v = ev.maybe(x.val)
                        if nm and k is not None and v is not None:
                            ctx.check(k // 3 == 5 and v == (MIN if nm == 'minima' else MAX)[int(k) % 3], 'stored', f['file'], x.line, f['q'], 'wrong value in the copied boxes', key='cst' + nm)
                            got.add((nm, int(k) % 3))
                copied.setdefault((per, init, mn), []).append(len(got) == 6)
    for per, init in {k[:2] for k in copied}:
        ctx.check(any(all(copied.get((per, init, mn), [False])) for mn in (True, False)), 'stored', f['file'], e.line, f['q'], 'the copied boxes are not updated', key='cbox')

def run(ctx):
    db = DB([f for f in FILES if os.path.exists(os.path.join(REPO, f))]); db.require_clean()
    m = Model(ctx, db)
    boxes(m); margin(m); trigger(m); overlap(m); filt(m); kept(m); sorting(m); action(m)
