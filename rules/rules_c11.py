"""C11: the life cycle of a contact.  One generic iteration of the loop over the contacts is summarised with the functors as unknown
operations (their results and what they leave in the contact are free); for every combination of the conditions it depends on, the
order and arguments of the functor calls and the state the contact is left in are compared with the specified life cycle."""
import itertools
from kit import *
RULES = {
 'all': 'every contact of the container is handled exactly once per step by one loop over the whole container, with dispatchers and callbacks knowing the current scene',
 'pair': 'geometry is evaluated for the two bodies the contact names, in its order, with the periodic shift of its own cell distance (none without periodicity)',
 'swap': 'when the functor wants the shapes the other way round, bodies, ids and cell distance are exchanged together, and never on a contact that already has geometry or physics',
 'order': 'geometry, then physics with the two materials, then the law with exactly this geometry and physics, each once; nothing after a refused geometry',
 'dead': 'a contact of a vanished body, of bodies of other subdomains only, without geometry any more, or given up by its law is reset; no functor is called for the first two',
 'skipped': 'clumps, bodies without shape, pairs without functor and potential contacts no longer seen by the collider are left alone',
 'created': 'the step of creation is noted when and only when the contact was not real before',
 'cache': 'the remembered functors are those the dispatchers chose for these very types, and a missing one is not mistaken for a found one',
 'callbacks': 'callbacks run for exactly the contacts that are real afterwards, each activated one once',
 'reset': 'a reset contact has no geometry, physics or remembered functors, is not marked as created, and is active and eligible again',
 'single': 'the separate dispatchers and the explicit creation of a contact follow the same life cycle',
}
EXPLAIN = 'Gated value-numbering of one generic iteration of the loops over the contacts; functor calls are opaque with free results and effects; comparison with a decision table over all combinations of the conditions (finite abstract domain).'
ASSUMES = ['functors only change the contact they are given (C04, C05, C10)', 'the containers are consistent (C01, C02)']
FILES = ['pkg/common/InteractionLoop.cpp', 'pkg/common/Dispatching.cpp', 'core/Interaction.cpp', 'core/InteractionContainer.cpp', 'core/Body.cpp', 'core/BodyContainer.cpp', 'core/Scene.cpp', 'core/Cell.cpp', 'pkg/dem/Shop_02.cpp']
R3 = range(3)
A = 'Interaction::(anonymous struct)::'

class Ops(set):
    def __contains__(s, q):
        n = q.split('::')[-1]
        return n in ('getFunctor2D', 'updateScenePtr', 'getClassName', 'getClassIndex', 'stepInit', 'go', 'getSize', 'getFunctor1D') or n == 'operator()' and 'Dispatcher' in q
class Hooks(dict):
    """the functors: free results, free effect on the contact"""
    def __bool__(s): return True
    def get(s, q, d=None): return s.hit if q.split('::')[-1] in ('go', 'getFunctor2D') or (q.endswith('operator()') and 'Dispatcher' in q) else None
    def __contains__(s, q): return s.get(q) is not None
    def hit(s, eng, e, st):
        q, on, an = e[3], e[4], e[5]; n = q.split('::')[-1]
        if on is None: return None
        obj = eng.strip(eng.rv(on, st) if e[8] or on[0] == 'this' else eng.addr(eng.lv(on, st)))
        args = [eng.rv(x, st) for x in an]
        what = kind_of(q, args)
        if n == 'getFunctor2D':
            ev = Ev('call', q='find:' + what, obj=obj, args=args[:2], line=e[1], node=e); eng.event(st, ev)
            if len(an) > 2 and what == 'geom': eng.write(eng.lv(an[2], st), sym('swap'), st, e[1], e)
            return sym('new:' + what)
        ev = Ev('call', q='go:' + what, obj=obj, args=args, line=e[1], node=e); eng.event(st, ev)
        I = args[-1]
        g, p = eng.field(I, 'Interaction::geom'), eng.field(I, 'Interaction::phys')
        if what == 'geom': st.env[g] = sym('geom:go')
        elif what == 'phys': st.env[p] = sym('phys:go')
        else: st.env[g] = sym('geom:law'); st.env[p] = sym('phys:law')
        return sym('ret:' + what) if what != 'phys' else mk('void')
def sym(n): return mk('sym', n)
def kind_of(q, args):
    t = re.sub(r'[^A-Za-z]+', ' ', q.split('::go')[0].split('::getFunctor')[0].split('::operator')[0]).split()
    if 'Shape' in t: return 'geom'
    if 'Material' in t: return 'phys'
    if 'IGeom' in t and 'IPhys' in t: return 'law'
    raise AnalysisBroken('unknown functor call ' + q[:80])
class World:
    """a choice of all conditions"""
    NAMES = ['per', 'run', 'seen', 'geom', 'phys', 'b1', 'b2', 'own1', 'own2', 'clump1', 'clump2', 'exists', 'shape1', 'shape2', 'cg', 'cp', 'cl', 'ng', 'np', 'nl', 'swap', 'rg', 'rl', 'alive']
    def __init__(s, I, SC, **k):
        s.I = I; s.SC = SC; s.v = k; s.memo = {}
    def body(s, t):
        """1/2 if t is the first/second body of the contact at entry"""
        if t.op != 'ld' or t.args[0].op != 'L.e': return 0
        i = t.args[0].args[1]
        if i.op == 'ld' and i.args[0].op == 'L.f' and i.args[0].args[0] is s.I and i.args[1] == 0: return {'Interaction::id1': 1, 'Interaction::id2': 2}.get(i.args[0].args[1], 0)
        return 0
    def ofbody(s, t, q):
        """1/2 if t is the field q of that body"""
        return s.body(t.args[0].args[0]) if t.op == 'ld' and t.args[0].op == 'L.f' and t.args[0].args[1] == q else 0
    def __call__(s, t): return subst(t, s.f, s.memo)
    def f(s, x):
        v = s.v
        if x.op == 'nn':
            y = s(x.args[0])
            if y.op == 'ite': return None
            if y is s.I: return TRUE
            b = s.body(y)
            if b: return B(v['b%d' % b])
            b = s.ofbody(y, 'Body::shape')
            if b: return B(v['shape%d' % b])
            if y.op == 'ld' and y.args[0].op == 'L.f':
                l = y.args[0]; q = l.args[1]
                if l.args[0] is s.I and q in ('Interaction::geom', 'Interaction::phys'): return B(v[q[13:]])
                if q.startswith(A) and root(l.args[0]) is root(s.I): return B(v[{'geom': 'cg', 'phys': 'cp', 'constLaw': 'cl', 'geomExists': 'exists'}[q[len(A):]]])
                if q == 'Scene::isPeriodic': return B(v['per'])
            if y.op == 'sym':
                n = y.args[0]
                if n.startswith('new:'): return B(v['n' + {'geom': 'g', 'phys': 'p', 'law': 'l'}[n[4:]]])
                if n == 'swap': return B(v['swap'])
                if n == 'geom:go': return B(v['rg'] or v['geom'])
                if n == 'phys:go': return TRUE
                if n in ('geom:law', 'phys:law'): return B(v['alive'])
                if n.startswith('ret:'): return B(v['r' + n[4]])
        if x.op == 'ld' and x.args[0].op == 'L.f' and x.args[1] == 0:
            q = x.args[0].args[1]; o = x.args[0].args[0]
            b = s.body(o)
            if q == 'InteractionContainer::iterColliderLastRun': return const({0: -1, 1: 7, 2: 9}[v['run']])
            if q == 'Scene::iter': return const(9)
            if q == 'Interaction::iterLastSeen' and o is s.I: return const(9 if v['seen'] else 8)
            if q == 'Scene::subdomain': return const(3)
            if b and q == 'Body::subdomain': return const(3 if v['own%d' % b] else 4 + b)
            if b and q == 'Body::clumpId': return const(10 + b if v['clump%d' % b] else 30 + b if v.get('member') else -1)
            if b and q == 'Body::id': return const(10 + b)
        if x.op in ('ld', 'L.g') and show(x).endswith('Body::ID_NONE)'): return const(-1)
        return None

def shows(v): return ', '.join('%s=%d' % (k, v[k]) for k in sorted(v))
def worlds():
    """base situations, all deviations in up to two conditions, and all combinations along the chain of functors"""
    real = dict(per=0, run=0, seen=1, geom=1, phys=1, b1=1, b2=1, own1=1, own2=1, clump1=0, clump2=0, exists=1, shape1=1, shape2=1, cg=1, cp=1, cl=1, ng=1, np=1, nl=1, swap=0, rg=1, rl=1, alive=1)
    new = dict(real, geom=0, phys=0, cg=0, cp=0, cl=0)
    out = {}
    def put(v): out[shows(v)] = v
    for b in (real, new, dict(real, per=1, own2=0), dict(new, per=1, swap=1, own1=0), dict(new, run=2, seen=0), dict(real, run=2, seen=0)):
        put(b)
        ks = list(b)
        alt = lambda k: [x for x in ((0, 1, 2) if k == 'run' else (0, 1)) if x != b[k]]
        for i, k in enumerate(ks):
            for x in alt(k):
                put(dict(b, **{k: x}))
                for m in ks[:i]:
                    for y in alt(m): put(dict(b, **{k: x, m: y}))
    for per, g, p, cg, cp, cl, swap, rg, rl, alive in itertools.product((0, 1), repeat=10): put(dict(real, per=per, geom=g, phys=p, cg=cg, cp=cp, cl=cl, swap=swap, rg=rg, rl=rl, alive=alive))
    for s1, s2, o1, o2, c1, c2, e, g in itertools.product((0, 1), repeat=8): put(dict(real, shape1=s1, shape2=s2, own1=o1, own2=o2, clump1=c1, clump2=c2, exists=e, geom=g, phys=g, member=1))
    return list(out.values())

def stripref(t):
    """a reference argument as the pointer it was made from"""
    while True:
        if t.op == 'addr': t = t.args[0]; continue
        if t.op == 'ld' and t.args[0].op == 'L.d': t = t.args[0].args[0]; continue
        if t.op == 'L.d': t = t.args[0]; continue
        return t

def expected_geom(v):
    real = v['geom'] and v['phys']
    x = dict(end=None, calls=[], reset=False, swap=False, made=False, callbacks=False, exists=v['exists'], listed=False)
    if v['run'] == 2 and not real and not v['seen']: x['free'] = True; return x
    if not v['b1'] or not v['b2']: x['reset'] = True; return x
    if not v['shape1'] or not v['shape2']: return x
    if not v['cg']:
        x['calls'].append('find:geom')
        if not v['ng']: x['exists'] = None; return x
        if v['swap']:
            if v['geom'] or v['phys']: x['end'] = 'throw'; return x
            x['swap'] = True
    x['calls'].append('go:geom')
    if not v['rg']: x['reset'] = bool(real)
    return x
def expected_phys(v):
    x = dict(end=None, calls=[], reset=False, swap=False, made=False, callbacks=False, exists=v['exists'], listed=False)
    if v['geom']: x['calls'] = ['go:phys']; x['made'] = not v['phys']
    return x
def expected_law(v):
    x = dict(end=None, calls=[], reset=False, swap=False, made=False, callbacks=False, exists=v['exists'], listed=False)
    if v['geom'] and v['phys']:
        x['calls'] = ['find:law'] + (['go:law'] if v['nl'] else []); x['reset'] = bool(v['nl'] and not v['rl'])
    return x
def expected(v):
    """the specified life cycle: dict of what has to be seen"""
    real = v['geom'] and v['phys']
    x = dict(end=None, calls=[], reset=False, swap=False, made=False, callbacks=False, exists=v['exists'], listed=False)
    if v['run'] == 2 and not real and not v['seen']: x['free'] = True; return x
    if not v['b1'] or not v['b2'] or not (v['own1'] or v['own2']): x['reset'] = True; return x
    if v['clump1'] or v['clump2'] or not v['exists'] or not v['shape1'] or not v['shape2']: return x
    if not v['cg']:
        x['calls'].append('find:geom')
        if not v['ng']: x['exists'] = 0; return x
        if v['swap']:
            if v['geom'] or v['phys']: x['end'] = 'throw'; return x
            x['swap'] = True
    x['calls'].append('go:geom')
    if not v['rg']: x['reset'] = bool(real); return x
    if not v['cp']:
        x['calls'].append('find:phys')
        if not v['np']: x['end'] = 'throw'; return x
    x['calls'].append('go:phys'); x['made'] = not real
    if not v['cl']:
        x['calls'].append('find:law')
        if not v['nl']: x['end'] = 'throw'; return x
    x['calls'].append('go:law')
    if not v['rl']: x['reset'] = True; return x
    x['callbacks'] = bool(v['alive'])
    return x

def run(ctx):
    db = DB([f for f in FILES if os.path.exists(os.path.join(REPO, f))]); db.require_clean()
    reset_rule(ctx, db)
    loop_rule(ctx, db)
    for d, ex, fix in (('IGeom', expected_geom, dict(own1=1, own2=1, clump1=0, clump2=0, exists=1)), ('IPhys', expected_phys, dict(b1=1, b2=1, np=1, cp=0)), ('Law', expected_law, dict(cl=0))): single(ctx, db, d, ex, fix)
    explicit(ctx, db)

def mkengine(db, **k):
    return engine(db, opaque=Ops(), hooks=Hooks(), rec_store=lambda l, s: False, rec_call=lambda q, o, a, n, s: q.split('::')[-1] in ('updateScenePtr', 'stepInit', 'push_back', 'emplace_back', 'erase', 'requestErase', 'insert') or q in ('icall', 'exit'), maxpaths=40000, **k)

def loop_rule(ctx, db):
    fs = db.fn('InteractionLoop::action')
    if len(fs) != 1: raise AnalysisBroken('no unique InteractionLoop::action')
    f = fs[0]; where = (f['file'], f['line'], f['q'])
    e = mkengine(db); tops = e.run(f); ctx.count('functions', 1 + e.stats['inlined'])
    W = worlds(); done = {}
    for tp in tops:
        if tp.end == 'throw': continue
        main = [x for x in tp.events if x.kind == 'loop' and any(y.kind == 'call' and y.q == 'go:geom' for q, _ in all_paths(x.paths) for y in q.events)]
        if not ctx.check(len(main) == 1, 'all', *where, 'the contacts are not handled by exactly one loop (%d found)' % len(main)): continue
        L = main[0]; where = (f['file'], L.line, f['q'])
        I = contact(L)
        ctx.check(covers(L.info, n=lambda t: is_size(t, I)) or visited(L.info) is not None and is_intrs(visited(L.info)), 'all', *where, 'the loop does not run over all contacts (from %s to %s)' % (show(L.info['lo']) if L.info['lo'] is not None else None, show(L.info['hi']) if L.info['hi'] is not None else None))
        ctx.check(any(x is L.info['iv'] for x in subterms(I)), 'all', *where, 'the contact handled is not the visited one')
        top_rule(ctx, where, f, tp, L)
        for v in W:
            w = World(I, None, **v)
            if any(w(x) is FALSE for x in tp.facts): continue
            done[shows(v)] = done.get(shows(v), 0) + 1
            one(ctx, where, w, L)
    miss = [v for v in W if shows(v) not in done]
    if miss: raise AnalysisBroken('%d situations have no path' % len(miss))
    ctx.count('situations', len(W)); ctx.floor('situations', 1000)

def single(ctx, db, d, exp, fix):
    fs = db.fn(d + 'Dispatcher::action')
    if len(fs) != 1: raise AnalysisBroken('no unique %sDispatcher::action' % d)
    f = fs[0]; what = {'IGeom': 'geom', 'IPhys': 'phys', 'Law': 'law'}[d]
    e = mkengine(db); n = 0
    for tp in e.run(f):
        if tp.end == 'throw': continue
        main = [x for x in tp.events if x.kind == 'loop' and any(y.kind == 'call' and y.q == 'go:' + what for q, _ in all_paths(x.paths) for y in q.events)]
        where = (f['file'], f['line'], f['q'])
        if not ctx.check(len(main) == 1, 'single', *where, 'the contacts are not handled by exactly one loop (%d found)' % len(main)): continue
        L = main[0]; where = (f['file'], L.line, f['q'])
        c = {y.args[-1] for q, _ in all_paths(L.paths) for y in q.events if y.kind == 'call' and y.q == 'go:' + what}
        if len(c) != 1: raise AnalysisBroken('the contact handled is not unique in ' + f['q'])
        I = c.pop()
        ctx.check(covers(L.info, n=lambda t: is_size(t, I)) or visited(L.info) is not None and is_intrs(visited(L.info)), 'single', *where, 'the loop does not run over all contacts')
        ctx.check(any(x is L.info['iv'] for x in subterms(I)), 'single', *where, 'the contact handled is not the visited one')
        ctx.check(any(x.kind == 'call' and x.q.endswith('updateScenePtr') and x.obj is mk('this') for x in tp.events[:tp.events.index(L)]), 'single', *where, 'the functors do not get the current scene')
        for v in worlds():
            if any(v[k] != y for k, y in fix.items()): continue
            w = World(I, None, **v)
            if any(w(x) is FALSE for x in tp.facts): continue
            n += 1; one(ctx, where, w, L, exp, lambda r: 'single')
    if n < 40: raise AnalysisBroken('only %d situations of %sDispatcher::action' % (n, d))
    ctx.count('situations', n)

def explicit(ctx, db):

    f = uniq(db, 'IGeomDispatcher::explicitAction'); where = (f['file'], f['line'], f['q']); setparams(f)
    e = mkengine(db); n = 0
    P = [mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0) for i in (0, 1)]
    ps = e.run(f)
    def body(t): return next((i + 1 for i in (0, 1) if t is P[i] or t is mk('param', 'arg%d' % i)), 0)
    def of(t, q):
        t = stripref(t)
        return body(t.args[0].args[0]) if t.op == 'ld' and t.args[0].op == 'L.f' and t.args[0].args[1] == q else 0
    for per, force, s1, s2, ng, swap, rg in itertools.product((0, 1), repeat=7):
        def at(x):
            if x.op == 'nn':
                y = x.args[0]
                b = of(y, 'Body::shape')
                if b: return B((s1, s2)[b - 1])
                if y.op == 'sym' and y.args[0] == 'new:geom': return B(ng)
                if y.op == 'sym' and y.args[0] == 'swap': return B(swap)
                if y.op == 'sym' and y.args[0] == 'ret:geom': return B(rg)
                if is_field(y, 'isPeriodic'): return B(per)
                if y.op == 'param' and y.args[0] == 'arg2' or y.op == 'ld' and y.args[0].op == 'L.d' and y.args[0].args[0] is mk('param', 'arg2'): return B(force)
            if x.op == 'param' and x.args[0] == 'arg2': return B(force)
            return None
        memo = {}; w = lambda t: subst(t, at, memo)
        txt = 'periodic=%d, forced=%d, shapes %d %d, functor %s, reverse order %d, geometry created %d:' % (per, force, s1, s2, 'found' if ng else 'missing', swap, rg)
        found = s1 and s2 and ng; thr = force and (not found or not rg)
        live = [p for p in ps if all(w(x) is not FALSE for x in p.facts)]
        if not ctx.check(bool(live), 'single', *where, txt + ' no way through the function'): continue
        for p in live:
            n += 1
            if not ctx.check((p.end == 'throw') == bool(thr), 'single', *where, '%s the request is %s' % (txt, 'refused' if p.end == 'throw' else 'not refused')) or thr: continue
            I = p.val
            go = [y for y in p.events if y.kind == 'call' and y.q == 'go:geom']
            fi = [y for y in p.events if y.kind == 'call' and y.q == 'find:geom']
            if not ctx.check(len(go) == bool(found), 'single', *where, '%s the geometry functor is called %d times' % (txt, len(go))): continue
            val = lambda q, k=None: w(p.st.env.get(mk('L.f', I, 'Interaction::' + q), mk('ld', mk('L.f', I, 'Interaction::' + q), 0, kind=k)))
            ids = [b for b in (1, 2)]
            if found and swap: ids = [2, 1]
            def idof(t): return body(t.args[0].args[0]) if t.op == 'ld' and t.args[0].op == 'L.f' and t.args[0].args[1] == 'Body::id' else 0
            ctx.check([idof(val('id1')), idof(val('id2'))] == ids, 'single', *where, txt + ' the contact is of other bodies')
            for y in fi: ctx.check([of(w(t), 'Body::shape') for t in y.args] == [1, 2] and y.obj is mk('this'), 'single', *where, txt + ' the functor is looked up for other shapes')
            for y in go:
                a = [w(t) for t in y.args]
                ctx.check([of(t, 'Body::shape') for t in a[:2]] == ids and [of(t, 'Body::state') for t in a[2:4]] == ids, 'single', *where, txt + ' the functor gets other shapes or states')
                ctx.check(w(y.obj) is sym('new:geom') and nonzero(a[5]) is B(force) and a[6] is I, 'single', *where, txt + ' another functor is called, or with another contact or option')
                cd = val('cellDist', 'v')
                ctx.check(a[4] is mul(hs(w, a[4]), cd) or not per and a[4] is ZERO, 'single', *where, '%s the periodic shift is not that of the contact' % txt)
                cds = [w(comp(cd, const(i))) for i in R3]
                ctx.check(all(cell_ok(c, i, per, found and swap, P) for i, c in enumerate(cds)), 'single', *where, '%s the cell distance (%s) is not that of the closest image' % (txt, show(cds[0])[:160]))
    ctx.count('explicit_cases', n); ctx.floor('explicit_cases', 64)
    phys_explicit(ctx, db)
def hs(w, t):
    h = {x for x in subterms(t) if x.op == 'ld' and is_field(x, 'hSize')}
    return h.pop() if len(h) == 1 else ZERO
def cell_ok(c, i, per, swapped, P):
    if not per: return c is ZERO
    k, t = (1, c) if swapped else (-1, neg(c))
    if t.op != 'app' or t.args[0] not in ('floor', 'round', 'lround') or len(t.args) != 2:
        return False
    d = sub(t.args[1], const(Fraction(1, 2))) if t.args[0] == 'floor' else t.args[1]
    # component i of inverse(hSize)*(pos2-pos1)
    pos = lambda b: lambda x: x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[1].endswith('::position') and any(y is P[b] or y is mk('param', 'arg%d' % b) for y in subterms(x))
    a, b = sy3('p1'), sy3('p2')
    def f(x):
        if pos(0)(x): return a
        if pos(1)(x): return b
        return None
    d = subst(d, f); inv_ = {x for x in subterms(d) if x.op == 'app' and x.args[0] == 'e.inverse'}
    if len(inv_) != 1: return False
    m = inv_.pop()
    return is_field(m.args[1], 'hSize') and sub(d, comp(mul(m, sub(b, a)), const(i))) is ZERO
def sy3(n): return mk('sym', n, kind='v')
def uniq(db, q):
    fs = [f for f in db.fn(q) if f.get('body')]
    if len(fs) != 1: raise AnalysisBroken('no unique ' + q)
    return fs[0]

def phys_explicit(ctx, db):
    f = uniq(db, 'IPhysDispatcher::explicitAction'); where = (f['file'], f['line'], f['q']); setparams(f)
    ps = mkengine(db).run(f)
    par = lambda i: mk('param', 'arg%d' % i)
    isp = lambda t, i: t is par(i) or t.op == 'ld' and t.args[0] is mk('L.d', par(i))
    for g, cp, np in itertools.product((0, 1), repeat=3):
        def at(x):
            if x.op == 'nn':
                y = x.args[0]
                if is_field(y, 'Interaction::geom'): return B(g)
                if fname(y) == A + 'phys': return B(cp)
                if y.op == 'sym' and y.args[0] == 'new:phys': return B(np)
            return None
        w = lambda t: subst(t, at)
        thr = not g or not cp and not np
        txt = 'geometry %d, functor %s:' % (g, 'remembered' if cp else 'found' if np else 'missing')
        for p in [p for p in ps if all(w(x) is not FALSE for x in p.facts)]:
            if not ctx.check((p.end == 'throw') == bool(thr), 'single', *where, '%s the request is %s' % (txt, 'refused' if p.end == 'throw' else 'not refused')) or thr: continue
            go = [y for y in p.events if y.kind == 'call' and y.q == 'go:phys']
            if cp: continue          # only called for new contacts, see Shop::createExplicitInteraction
            ctx.check(len(go) == 1 and all(isp(t, i) for i, t in enumerate(go[0].args)) and w(go[0].obj) is sym('new:phys'), 'single', *where, txt + ' the functor is not called once with the two materials and the contact')
    # the scripting operation
    s = uniq(db, 'Shop::createExplicitInteraction'); where = (s['file'], s['line'], s['q']); setparams(s)
    GA, PA, INS, FIND = 'IGeomDispatcher::explicitAction', 'IPhysDispatcher::explicitAction', 'InteractionContainer::insert', 'InteractionContainer::find'
    op = {GA, PA, INS, FIND, 'Body::byId'}
    def mkc(eng, e, st):
        ev = Ev('call', q=GA, obj=eng.rv(e[4], st), args=[eng.rv(x, st) for x in e[5]], line=e[1], node=e); eng.event(st, ev)
        I = mk('newobj', 'Interaction', e[1], 7)
        st.env[eng.field(I, 'Interaction::id1')] = ite(nonzero(sym('swap')), mk('param', 'arg1'), mk('param', 'arg0'))
        st.env[eng.field(I, 'Interaction::id2')] = ite(nonzero(sym('swap')), mk('param', 'arg0'), mk('param', 'arg1'))
        return I
    e = engine(db, opaque=op, rec_store=lambda l, s: False, rec_call=lambda q, *a: q in op, hooks={GA: mkc, PA: lambda eng, e, st: (eng.event(st, Ev('call', q=PA, obj=eng.rv(e[4], st), args=[eng.rv(x, st) for x in e[5]], line=e[1], node=e)), mk('void'))[1]})
    n = 0
    for p in e.run(s):
        if p.end == 'throw': continue
        ga, pa, ins = ([y for y in p.events if y.kind == 'call' and y.q == q] for q in (GA, PA, INS))
        if p.val is not None and (p.val is NULL or p.val is ZERO) : continue
        if not ctx.check(len(ga) == 1 and len(pa) == 1 and len(ins) == 1, 'single', *where, 'an explicitly created contact does not get its geometry, its physics and its place in the container once each'): continue
        I = p.val; n += 1
        for sw in (0, 1):
            if any(subst(x, lambda t: B(sw) if t.op == 'nn' and t.args[0] is sym('swap') else None) is FALSE for x in p.facts): continue
            w = World(I, None)
            def which(t, q):
                t = subst(subst(stripref(t), lambda x: B(sw) if x.op == 'nn' and x.args[0] is sym('swap') else None), same_ids)
                ids = {x.args[0] for x in subterms(t) if x.op == 'param' and x.args[0] in ('arg0', 'arg1')}
                fl = not q or any(x.op == 'L.f' and x.args[1] == q for x in subterms(t))
                return ids.pop() if fl and len(ids) == 1 else None
            ctx.check([which(t, '') for t in ga[0].args[:2]] == ['arg0', 'arg1'], 'single', *where, 'the geometry is asked for other bodies')
            ctx.check([which(t, 'Body::material') for t in pa[0].args[:2]] == (['arg1', 'arg0'] if sw else ['arg0', 'arg1']) and pa[0].args[2] is I, 'single', *where, 'the physics is asked for other materials than those of the contact, in its order (%s)' % ('reversed' if sw else 'as given'))
        ctx.check(is_field(p.st.env.get(mk('L.f', I, 'Interaction::iterMadeReal'), ZERO), 'Scene::iter'), 'single', *where, 'the step of creation of an explicitly created contact is not noted')
        ctx.check(ins[0].args[0] is I, 'single', *where, 'another contact is put into the container')
        refused = any(x.op == 'not' and x.args[0].op == 'nn' and 'find' in show(x) or x.op == 'same' and 'find' in show(x) for x in p.facts) or any('InteractionContainer::find' in repr(y) for x in p.facts for y in subterms(x) if y.op == 'app')
        ctx.check(refused, 'single', *where, 'an existing contact is not looked for before creating one')
    if not n: raise AnalysisBroken('no contact is created by Shop::createExplicitInteraction')
def same_ids(x):
    if x.op == 'eq0':
        ps = {y.args[0] for y in subterms(x) if y.op == 'param'}
        if ps == {'arg0', 'arg1'}: return FALSE
    return None

def is_intrs(t): return any(x.op == 'L.f' and x.args[1] in ('InteractionContainer::linIntrs', 'Scene::interactions') for x in subterms(t))
def is_size(t, I): return (is_field(t, 'currSize') or t.op == 'app' and t.args[0] == 'size') and is_intrs(t)
def contact(L):
    c = {y.args[-1] for q, _ in all_paths(L.paths) for y in q.events if y.kind == 'call' and y.q == 'go:geom'}
    if len(c) != 1: raise AnalysisBroken('the contact handled is not unique')
    return c.pop()

def top_rule(ctx, where, f, tp, L):
    th = mk('this'); pre = tp.events[:tp.events.index(L)]
    SC = mk('ld', mk('L.f', th, 'Engine::scene'), 0)
    for d in ('geomDispatcher', 'physDispatcher', 'lawDispatcher'):
        o = mk('ld', mk('L.f', th, 'InteractionLoop::' + d), 0)
        ctx.check(any(x.kind == 'call' and x.q.endswith('updateScenePtr') and x.obj is o for x in pre) and tp.st.env.get(mk('L.f', o, 'Engine::scene')) is SC, 'all', *where, 'the functors of %s do not get the current scene before the loop' % d)
    cb = mk('addr', mk('L.f', th, 'InteractionLoop::callbacks'))
    fill = [x for x in pre if x.kind == 'loop' and any(y.kind == 'call' and y.q.endswith('stepInit') for q in x.paths for y in q.events)]
    ctx.check(len(fill) == 1 and visited(fill[0].info) is not None and fname(visited(fill[0].info)) == 'InteractionLoop::callbacks', 'callbacks', *where, 'the callbacks are not initialised by one loop over all of them')
    for x in fill[:1]:
        for q in x.paths:
            ini = [y for y in q.events if y.kind == 'call' and y.q.endswith('stepInit')]; psh = [y for y in q.events if y.kind == 'call' and y.q.split('::')[-1] in ('push_back', 'emplace_back')]
            ok = len(ini) == 1 and len(psh) == 1 and psh[0].args[0] is ini[0].val and q.end in ('fall', 'continue')
            ok = ok and any(l.op == 'L.f' and l.args[1] == 'IntrCallback::scene' and v is SC for l, v in q.st.env.items())
            ctx.check(ok, 'callbacks', *where, 'initialisation of a callback: its scene is not set or not exactly its own function is remembered')

def one(ctx, where, w, L, exp=expected, R=lambda r: r):
    v = w.v; x = exp(v); I = w.I
    txt = 'in the situation (%s)' % short_world(v)
    ps = [p for p in L.paths if all(w(t) is not FALSE for t in p.facts)]
    if not ctx.check(bool(ps), R('order'), *where, txt + ' no way through the loop is left'): return
    for p in ps:
        fld = lambda q: w(p.st.env.get(mk('L.f', I, q), mk('ld', mk('L.f', I, q), 0)))
        fc = mk('addr', mk('L.f', I, 'Interaction::functorCache'))
        cache = lambda n: w(p.st.env.get(mk('L.f', fc, A + n), mk('ld', mk('L.f', fc, A + n), 0)))
        ev = [y for y in p.events if y.kind == 'call' and y.q.startswith(('go:', 'find:'))]
        inl = [y for y in p.events if y.kind in ('loop', 'inloop') for q in y.paths for z in q.events if z.kind == 'call' and z.q.startswith(('go:', 'find:'))]
        ctx.check(not inl, R('order'), *where, txt + ' functors are called in a nested loop')
        got = [y.q for y in ev]
        rule = 'order' if x['calls'] and got and x['calls'][0] == got[0] else 'dead' if x['reset'] else 'skipped' if not x['calls'] else 'order'
        if not ctx.check(got == x['calls'] or x['end'] == 'throw' and p.end == 'throw' and [y for y in got if y.startswith('go:')] == [y for y in x['calls'] if y.startswith('go:')], R(rule), *where, '%s the calls are [%s] instead of [%s]' % (txt, ' '.join(got), ' '.join(x['calls']))): continue
        if not ctx.check((p.end == 'throw') == (x['end'] == 'throw'), R('order'), *where, '%s the step %s' % (txt, 'is aborted by an exception' if p.end == 'throw' else 'goes on')): continue
        if p.end == 'throw': continue
        ctx.check(p.end in ('fall', 'continue'), R('all'), *where, txt + ' the loop over the contacts is left')
        first = (2, 1) if x['swap'] else (1, 2)
        for y in ev:
            a = [w(t) for t in y.args]
            if y.q == 'find:geom':
                ctx.check([w.ofbody(t, 'Body::shape') for t in a] == [1, 2], R('cache'), *where, txt + ' the geometry functor is looked up for other shapes')
                ctx.check((is_field(y.obj, 'geomDispatcher') or exp is not expected and y.obj is mk('this')), R('cache'), *where, txt + ' the geometry functor is not looked up in the geometry dispatcher')
            elif y.q == 'find:phys':
                ctx.check(sorted(w.ofbody(t, 'Body::material') for t in a) == [1, 2], R('cache'), *where, txt + ' the physics functor is looked up for other materials')
                ctx.check((is_field(y.obj, 'physDispatcher') or exp is not expected and y.obj is mk('this')), R('cache'), *where, txt + ' the physics functor is not looked up in the physics dispatcher')
            elif y.q == 'find:law':
                ctx.check(is_now(a[0], I, 'geom') and is_now(a[1], I, 'phys'), R('cache'), *where, txt + ' the law is looked up for other types than those of the contact')
                ctx.check((is_field(y.obj, 'lawDispatcher') or exp is not expected and y.obj is mk('this')), R('cache'), *where, txt + ' the law is not looked up in the law dispatcher')
            else:
                what = y.q[3:]; k = {'geom': 'cg', 'phys': 'cp', 'law': 'cl'}[what]; nm = {'law': 'constLaw'}.get(what, what)
                o = w(y.obj)
                if o is mk('this') and exp is not expected: o = None      # the dispatcher called as a whole
                want = mk('ld', mk('L.f', fc, A + nm), 0) if v[k] else sym('new:' + what)
                ctx.check(o is None or o is want, R('cache'), *where, '%s the %s functor called is not the %s one' % (txt, what, 'remembered' if v[k] else 'one just found'))
                ctx.check(a[-1] is I, R('pair'), *where, '%s the %s functor gets another contact' % (txt, what))
            if y.q == 'go:geom':
                ctx.check(tuple(w.ofbody(stripref(t), 'Body::shape') for t in a[:2]) == first, R('swap' if v['swap'] and not v['cg'] else 'pair'), *where, '%s the geometry functor gets the shapes of bodies %s' % (txt, [w.ofbody(stripref(t), 'Body::shape') for t in a[:2]]))
                ctx.check(tuple(w.ofbody(stripref(t), 'Body::state') for t in a[2:4]) == first, R('swap' if v['swap'] and not v['cg'] else 'pair'), *where, '%s the geometry functor gets the states of bodies %s' % (txt, [w.ofbody(stripref(t), 'Body::state') for t in a[2:4]]))
                ctx.check(shift_ok(a[4], v['per'], x['swap'], I), R('pair'), *where, '%s the periodic shift is %s' % (txt, show(a[4])[:100]))
                ctx.check(nonzero(a[5]) is FALSE, R('pair'), *where, txt + ' the creation of the geometry is forced')
            elif y.q == 'go:phys':
                ctx.check(tuple(w.ofbody(t, 'Body::material') for t in a[:2]) == first, R('order'), *where, txt + ' the physics functor gets other materials')
            elif y.q == 'go:law':
                ctx.check(is_now(a[0], I, 'geom') and is_now(a[1], I, 'phys'), R('order'), *where, txt + ' the law gets another geometry or physics')
        gone = lambda q: w(nonzero(fld('Interaction::' + q))) is FALSE
        if x.get('free'): ctx.check(gone('geom') or gone('phys'), R('skipped'), *where, txt + ' the contact becomes real')
        elif x['reset']:
            ctx.check(gone('geom') and gone('phys'), R('dead'), *where, txt + ' the contact keeps its geometry or physics')
            if x['calls'] or v['geom']: ctx.check(all(w(nonzero(cache(n))) is FALSE for n in ('geom', 'phys', 'constLaw')), R('dead'), *where, txt + ' the contact keeps remembered functors')
        else:
            last = x['calls'][-1] if x['calls'] else ''
            g = sym('geom:law') if last == 'go:law' else sym('geom:go') if 'go:geom' in x['calls'] else None
            ph = sym('phys:law') if last == 'go:law' else None
            if g is not None and (v['rg'] or v['geom']): ctx.check(fld('Interaction::geom') is g, R('order'), *where, txt + ' the geometry is changed or lost')
            if ph is not None: ctx.check(fld('Interaction::phys') is ph, R('order'), *where, txt + ' the physics is changed or lost')
            if g is None and v['geom'] and v['phys']: ctx.check(not gone('geom') and not gone('phys'), R('skipped'), *where, txt + ' the contact is reset')
            ex = w(nonzero(cache('geomExists')))
            if x['exists'] is not None: ctx.check(ex is B(x['exists']), R('cache'), *where, '%s the pair is %smarked as having a functor' % (txt, '' if ex is TRUE else 'not '))
            for n, k, fi in (('geom', 'cg', 'find:geom'), ('phys', 'cp', 'find:phys'), ('constLaw', 'cl', 'find:law')):
                c = cache(n); new = sym('new:' + {'constLaw': 'law'}.get(n, n)); old = mk('ld', mk('L.f', fc, A + n), 0)
                ok = (c is new or w(nonzero(c)) is FALSE) if fi in x['calls'] else (c is w(old) or w(nonzero(c)) is FALSE)
                ctx.check(ok, R('cache'), *where, '%s another %s functor is remembered' % (txt, n))
            made = fld('Interaction::iterMadeReal'); old = mk('ld', mk('L.f', I, 'Interaction::iterMadeReal'), 0)
            ctx.check(made is (const(9) if x['made'] else old) or not x['calls'] and not (v['geom'] and v['phys']), R('created'), *where, '%s the step of creation becomes %s' % (txt, show(made)[:60]))
        i1, i2, cd = fld('Interaction::id1'), fld('Interaction::id2'), fld('Interaction::cellDist')
        o = lambda q: mk('ld', mk('L.f', I, 'Interaction::' + q), 0)
        ids = (o('id2'), o('id1')) if x['swap'] else (o('id1'), o('id2'))
        ctx.check(i1 is ids[0] and i2 is ids[1], R('swap'), *where, '%s the contact is of bodies (%s, %s)' % (txt, show(i1)[-12:], show(i2)[-12:]))
        ctx.check(w(sub(cd, neg(o('cellDist')) if x['swap'] else o('cellDist'))) is ZERO, R('swap'), *where, '%s the cell distance becomes %s' % (txt, show(cd)[-80:]))
        cbs = [(y, q, z) for y in p.events if y.kind == 'loop' for q in y.paths for z in q.events if z.kind == 'call' and z.q == 'icall']
        loose = [z for z in p.events if z.kind == 'call' and z.q == 'icall']
        ctx.check(not loose, R('callbacks'), *where, txt + ' callbacks run outside a loop over all of them')
        if not x['callbacks']: ctx.check(not cbs, R('callbacks'), *where, txt + ' callbacks run for a contact that is not real')
        else:
            ls = {id(y): y for y, q, z in cbs}
            if ctx.check(len(ls) == 1, R('callbacks'), *where, txt + ' the callbacks do not run'):
                y = next(iter(ls.values())); iv = y.info['iv']
                ctx.check(cov_callbacks(y.info), R('callbacks'), *where, txt + ' not all callbacks run')
                for q in y.paths:
                    c = [z for z in q.events if z.kind == 'call' and z.q == 'icall']
                    fp = [t for t in q.facts if t.op == 'nn' or t.op == 'not' and t.args[0].op == 'nn']
                    inactive = any(t.op == 'not' and t.args[0].op == 'nn' and any(u is iv for u in subterms(t)) and 'callbackPtrs' in show(t) for t in q.facts)
                    ctx.check(len(c) == (0 if inactive else 1) and q.end in ('fall', 'continue'), R('callbacks'), *where, '%s a callback runs %d times' % (txt, len(c)))
                    for z in c:
                        ctx.check(z.args[-1] is I and any(u is iv for u in subterms(z.args[0])) and any(u.op == 'L.f' and u.args[1] == 'InteractionLoop::callbacks' for u in subterms(z.args[0])) and any(u is iv for u in subterms(z.obj)), R('callbacks'), *where, txt + ' a callback gets another contact or another callback object')
        ctx.count('paths')

def cov_callbacks(info):
    c = visited(info)
    if c is not None: return fname(c) == 'InteractionLoop::callbacks' or 'callbackPtrs' in show(c)
    return covers(info, n=lambda t: t.op == 'app' and t.args[0] == 'size' and (fname(t.args[1]) == 'InteractionLoop::callbacks' or 'callbackPtrs' in show(t.args[1])))
def is_now(t, I, q):
    return t.op == 'sym' and t.args[0].startswith(q + ':') or t.op == 'ld' and t.args[0] is mk('L.f', I, 'Interaction::' + q)
def shift_ok(t, per, swapped, I):
    if not per: return t is ZERO
    h = mk('ld', mk('L.f', mk('ld', mk('L.f', mk('ld', mk('L.f', mk('this'), 'Engine::scene'), 0), 'Scene::cell'), 0), 'Cell::hSize'), 0, kind='m')
    c = mk('ld', mk('L.f', I, 'Interaction::cellDist'), 0, kind='v')
    want = mul(h, c)
    return t is (neg(want) if swapped else want)
def short_world(v):
    d = dict(real=('real' if v['geom'] and v['phys'] else 'geometry only' if v['geom'] else 'physics only' if v['phys'] else 'potential'))
    s = [d['real'], 'periodic' if v['per'] else 'not periodic']
    for k, t in (('b1', 'first body gone'), ('b2', 'second body gone'), ('own1', 'first body of another subdomain'), ('own2', 'second body of another subdomain'), ('exists', 'known to have no functor'), ('shape1', 'first body without shape'), ('shape2', 'second body without shape'),
                 ('cg', 'geometry functor to be found'), ('cp', 'physics functor to be found'), ('cl', 'law to be found'), ('ng', 'no geometry functor'), ('np', 'no physics functor'), ('nl', 'no law'), ('rg', 'geometry refused'), ('rl', 'law gives up'), ('alive', 'reset by the law'), ('seen', 'not seen by the collider')):
        if not v[k]: s.append(t)
    for k, t in (('clump1', 'first body a clump'), ('clump2', 'second body a clump'), ('swap', 'reverse order asked for')):
        if v[k]: s.append(t)
    s.append(('no unseen-removal', 'collider did not run', 'collider ran')[v['run']])
    return '; '.join(s)

def reset_rule(ctx, db):
    for q in ('Interaction::reset', 'InteractionContainer::requestErase'):
        for f in db.fn(q):
            e = engine(db, rec_store=lambda l, s: False, rec_call=lambda *a: False, opaque={'InteractionContainer::find'})
            for p in e.run(f):
                if p.end == 'throw': continue
                objs = {l.args[0] for l in p.st.env if l.op == 'L.f' and l.args[1] == 'Interaction::geom'}
                w = (f['file'], f['line'], f['q'])
                if not objs and f['q'].endswith('requestErase') and any(x.op in ('not',) and x.args[0].op == 'nn' for x in p.facts): continue    # no such contact
                if not ctx.check(len(objs) == 1, 'reset', *w, 'the geometry is not removed'): continue
                I = objs.pop(); fc = mk('addr', mk('L.f', I, 'Interaction::functorCache'))
                val = lambda l: p.st.env.get(l, mk('ld', l, 0))
                for l, want, what in ([(mk('L.f', I, 'Interaction::' + n), FALSE, n) for n in ('geom', 'phys')] + [(mk('L.f', fc, A + n), FALSE, 'remembered functor ' + n) for n in ('geom', 'phys', 'constLaw')] + [(mk('L.f', fc, A + 'geomExists'), TRUE, 'mark of existing functors'), (mk('L.f', I, 'Interaction::isActive'), TRUE, 'mark of an active contact')]):
                    ctx.check(nonzero(val(l)) is want, 'reset', *w, '%s becomes %s' % (what, show(val(l))[:60]))
                m = val(mk('L.f', I, 'Interaction::iterMadeReal'))
                ctx.check(m.op == 'c' and m.args[0] < 0, 'reset', *w, 'the step of creation becomes %s' % show(m)[:60])
                ctx.count('paths')
