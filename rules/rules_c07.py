"""C07: the equations of motion.  The per-body iteration of NewtonIntegrator::action is summarised with every helper expanded; the
summarised end values of the body's state are compared, case by case over the flags they depend on, with the leap-frog scheme."""
import itertools
from kit import *
RULES = {
 'visited': 'every body slot is visited by one loop over the whole body table, and exactly the empty slots, clump members, bodies of other subdomains and subdomain markers are left untouched',
 'loads': 'the force and torque used are the summed ones of that very body, read after a clump received the loads of its members (and nothing else is added)',
 'linear': 'velocity and position follow the leap-frog scheme: acceleration is force/mass plus gravity on free axes and zero on blocked ones, damped and scaled as documented, position advances by the new velocity times the time step (plus the prescribed displacement)',
 'angular': 'spherical bodies: angular velocity advances by torque/inertia on free axes and not at all on blocked ones; the orientation is rotated by angular velocity times the time step (and the prescribed rotation) and stays normalised',
 'aspherical': 'aspherical bodies without blocked rotation: angular momentum and quaternion follow the documented two-stage scheme, the orientation stays normalised; the scheme is used only when asked for',
 'members': 'the members of a clump are moved once, after the clump itself has its final position, orientation and velocities',
 'macro': 'the velocity gradient change of the periodic cell is taken over once per step and remembered',
}
EXPLAIN = ('Gated value-numbering of one generic iteration of the body loop in NewtonIntegrator::action with all helper functions expanded; for every choice of the flags the values are gated by (periodic, homothety level, blocked axes, damping, '
           'scaling, mask, clump role, sphericity, prescribed motion) the normal forms of the new state are compared component by component with the specified scheme.')
ASSUMES = ['real arithmetic (no rounding)', 'the summed loads are right (C03)', 'Eigen implements vector, quaternion and axis-angle operations as documented', 'Mathr::Sign is the sign function']

N = 'NewtonIntegrator'
FILES = ['pkg/dem/NewtonIntegrator.cpp', 'core/State.cpp', 'core/Body.cpp', 'core/Cell.cpp', 'core/Clump.cpp', 'core/Scene.cpp', 'core/BodyContainer.cpp']
OBS = {'Clump::moveMembers', 'Clump::addForceTorqueFromMembers', 'ForceContainer::getForce', 'ForceContainer::getTorque', 'ForceContainer::sync', 'ForceContainer::addForceUnsynced', 'ForceContainer::addTorqueUnsynced',
       'ForceContainer::addForce', 'ForceContainer::addTorque', 'NewtonIntegrator::updateEnergy'}
OP = OBS | {N + '::saveMaximaDisplacement', N + '::saveMaximaVelocity', 'ForceContainer::getMove', 'ForceContainer::getRot', 'ForceContainer::getMoveRotUsed', 'Cell::getSize', 'Body::maskCompatible'}
STATEQ = {'pos': None, 'ori': None, 'vel': 'State::vel', 'angVel': 'State::angVel', 'angMom': 'State::angMom'}
TH = mk('this')
SC = mk('ld', mk('L.f', TH, 'Engine::scene'), 0)
CELL = mk('ld', mk('L.f', SC, 'Scene::cell'), 0)
def ld(o, q, kind=None): return mk('ld', mk('L.f', o, q), 0, kind=kind)
def sym(n, k='s'): return mk('sym', n, kind=k)

def app(x, nm): return x.op == 'app' and isinstance(x.args[0], str) and (x.args[0] == nm or x.args[0].endswith('::' + nm) or x.args[0].startswith(nm + '('))
def canon(t):
    """equal spellings: |v| as a root of a scalar product, rotation by quaternion or by its matrix, conjugate as inverse"""
    def f(x):
        if x.op == 'app' and x.args[0] == 'norm': y = canon(x.args[1]); return mk('app', 'sqrt', dot(y, y))
        if x.op == 'app' and x.args[0] == 'e.toRotationMatrix': return canon(x.args[1])
        if x.op == 'app' and x.args[0] == 'e.inverse' and x.args[1].kind == 'q': return mk('app', 'e.conjugate', canon(x.args[1]), kind='q')
        if x.op == 'normalized' and x.kind == 'v': y = canon(x.args[0]); return div(y, mk('app', 'sqrt', dot(y, y)))
        return None
    return subst(t, f)
def c3(t): return [canon(comp(t, const(i))) for i in range(3)]
def c4(t): return [canon(comp(t, const(i))) for i in range(4)]

class Iter:
    pass
def run(ctx):
    db = DB([f for f in FILES if os.path.exists(os.path.join(REPO, f))]); db.require_clean()
    fs = db.fn(N + '::action')
    if not fs: raise AnalysisBroken('no ' + N + '::action')
    fn = fs[0]
    def rec(q, o, a, n, s):
        if q in ('Clump::moveMembers',):
            for l, v in list(s.env.items()):
                if l.op == 'L.f': s.env[mk('L.f', mk('snapof', l), 'snap')] = v
        return q in OBS
    e = engine(db, opaque=OP, rec_store=lambda l, s: False, rec_call=rec, maxpaths=40000, maxsize=4000)
    tops = e.run(fn)
    where = (fn['file'], fn['line'], fn['q'])
    ctx.count('functions', 1 + e.stats['inlined']); ctx.count('top_paths', len(tops))
    seen = False
    for tp in tops:
        if tp.end == 'throw': continue
        main = [l for l in loops_of(tp) if any(x.kind == 'call' and x.q == 'ForceContainer::getForce' for q, _ in all_paths(l.paths) for x in q.events)]
        if not ctx.check(len(main) == 1, 'visited', *where, 'the bodies are not moved by exactly one loop (%d found)' % len(main)): continue
        L = main[0]; seen = True
        ctx.check(covers(L.info, n=lambda t: t.op == 'app' and t.args[0] == 'size') or L.info['kind'] == 'range' or (L.info['lo'] is not None and L.info['lo'].op == 'it'), 'visited', *where, 'the loop does not run over the whole body table (from %s to %s)' % (L.info['lo'], L.info['hi']))
        pre = [x for x in tp.events[:tp.events.index(L)] if x.kind == 'call' and x.q == 'ForceContainer::sync']
        ctx.check(len(pre) >= 1, 'loads', *where, 'the loads are not summed before the bodies are moved')
        body_loop(ctx, where, L, tp)
        macro(ctx, where, tp)
    if not seen: raise AnalysisBroken('no loop over the bodies found in ' + N + '::action')
    ctx.floor('cases', 400)

def macro(ctx, where, tp):
    gr = lambda q: ld(CELL, 'Cell::' + q)
    for per, chg, nxt in itertools.product((0, 1), (0, 1), (0, 1)):
        case = Case((lambda x: x is ld(SC, 'Scene::isPeriodic'), B(per)), (lambda x: x is gr('velGradChanged'), B(chg)), (lambda x: x.op == 'nn' and x.args[0] is gr('nextVelGrad'), B(nxt)))
        if not case.feasible(tp.facts): continue
        env = lambda o, q: case(tp.st.env.get(mk('L.f', o, q), ld(o, q)))
        eff = gr('nextVelGrad') if chg or nxt else gr('velGrad')
        ctx.count('cases')
        ctx.check(env(CELL, 'Cell::velGrad') is eff, 'macro', *where, 'periodic=%d, change requested=%d: the velocity gradient of the cell becomes %s' % (per, chg or nxt, show(env(CELL, 'Cell::velGrad'))[:100]))
        if chg or nxt: ctx.check(env(CELL, 'Cell::nextVelGrad') is ZERO and nonzero(env(CELL, 'Cell::velGradChanged')) is FALSE, 'macro', *where, 'the request to change the velocity gradient stays pending')
        want = eff if per else ld(TH, N + '::prevVelGrad')
        ctx.check(env(TH, N + '::prevVelGrad') is want, 'macro', *where, 'periodic=%d: the remembered velocity gradient becomes %s' % (per, show(env(TH, N + '::prevVelGrad'))[:100]))
        if per: ctx.check(env(CELL, 'Cell::prevVelGrad') is eff, 'macro', *where, 'the cell remembers %s as previous velocity gradient' % show(env(CELL, 'Cell::prevVelGrad'))[:100])

def find_body(L):
    """(body, state) terms of the iteration"""
    for q in L.paths:
        for l in q.st.env:
            if l.op == 'L.f' and l.args[1] == 'State::vel' and l.args[0].op == 'ld' and fname(l.args[0]) == 'Body::state': return base(l.args[0]), l.args[0]
    return None, None

def body_loop(ctx, where, L, tp):
    b, s = find_body(L)
    if b is None: raise AnalysisBroken('no body velocity is stored in the body loop')
    ctx.check(any(x is L.info['iv'] for x in subterms(b)), 'visited', *where, 'the body moved (%s) is not the visited one' % show(b)[:100])
    ID = ld(b, 'Body::id')
    se3 = mk('addr', mk('L.f', s, 'State::se3'))
    loc = {'pos': mk('L.f', se3, 'Se3<double>::position'), 'ori': mk('L.f', se3, 'Se3<double>::orientation'), 'vel': mk('L.f', s, 'State::vel'), 'angVel': mk('L.f', s, 'State::angVel'), 'angMom': mk('L.f', s, 'State::angMom')}
    S0 = {k: sym(k, 'q' if k == 'ori' else 'v') for k in loc}
    FRC = mk('addr', mk('L.f', SC, 'Scene::forces'))
    def of_body(x, nm):
        a = x.args
        return app(x, nm) and len(a) >= 3 and a[2] is ID
    isbyid = lambda t: t is b or (t.op == 'ld' and t.args[0].op == 'L.e' and t.args[0].args[1] is ID)
    SYMS = [(lambda x, k=k, l=l: x.op == 'ld' and x.args[0] is l and x.args[1] == 0, S0[k]) for k, l in loc.items()]
    SYMS += [(lambda x: of_body(x, 'ForceContainer::getForce'), sym('F', 'v')), (lambda x: of_body(x, 'ForceContainer::getTorque'), sym('M', 'v')), (lambda x: of_body(x, 'ForceContainer::getMove'), sym('move', 'v')),
             (lambda x: of_body(x, 'ForceContainer::getRot'), sym('rot', 'v'))]
    def fields(o, names):
        return [(lambda x, t=ld(o, q): x is t, v) for q, v in names]
    mass, dens, damp, dt = sym('mass'), sym('dens'), sym('damping'), sym('dt')
    inert, grav, pvg = sym('inertia', 'v'), sym('gravity', 'v'), sym('prevVelGrad', 'm')
    vg, nvg = sym('velGrad', 'm'), sym('nextVelGrad', 'm')
    SYMS += fields(s, [('State::mass', mass), ('State::densityScaling', dens), ('State::inertia', inert)]) + fields(TH, [(N + '::damping', damp), (N + '::gravity', grav), (N + '::prevVelGrad', pvg)]) + fields(SC, [('Scene::dt', dt)]) + fields(CELL, [('Cell::velGrad', vg), ('Cell::nextVelGrad', nvg)])
    def case(clump=-1, sub=0, flags=1, per=0, homo=0, exact=0, blocked=0, ds=0, damped=0, used=0, mask=-1, compat=0, chg=0, rot=0, energy=0):
        P = [(lambda x: x.op == 'nn' and x.args[0] is ld(CELL, 'Cell::nextVelGrad'), B(chg)), (lambda x: x.op == 'nn' and of_body(x.args[0], 'ForceContainer::getRot'), B(rot)), (lambda x: x is ld(CELL, 'Cell::velGradChanged'), B(chg)),
             (lambda x: x.op == 'nn' and x.args[0] is b, TRUE),
             (lambda x: x is ID, const(5)), (lambda x: x is ld(b, 'Body::clumpId'), const(clump)), (lambda x: x.op == 'ld' and x.args[0].op == 'L.g' and str(x.args[0].args[0]).endswith('Body::ID_NONE'), const(-1)),
             (lambda x: x is ld(b, 'Body::flags'), const(flags)), (lambda x: x is ld(b, 'Body::subdomain'), const(sub)), (lambda x: x is ld(SC, 'Scene::subdomain'), const(0)),
             (lambda x: x is ld(SC, 'Scene::isPeriodic'), B(per)), (lambda x: x is ld(CELL, 'Cell::homoDeform'), const(homo)), (lambda x: x is ld(TH, N + '::exactAsphericalRot'), B(exact)), (lambda x: x is ld(s, 'State::blockedDOFs'), const(blocked)),
             (lambda x: x is ld(TH, N + '::densityScaling'), B(ds)), (lambda x: x is ld(s, 'State::isDamped'), B(damped)), (lambda x: app(x, 'ForceContainer::getMoveRotUsed'), B(used)), (lambda x: x is ld(TH, N + '::mask'), const(mask)),
             (lambda x: app(x, 'Body::maskCompatible') and isbyid(x.args[1]), B(compat)), (lambda x: x is ld(SC, 'Scene::trackEnergy'), B(energy))]
        c = Case(*(P[:4] + SYMS + P[4:]))
        c.lab = ' '.join('%s=%s' % kv for kv in dict(clump=clump, sub=sub, flags=flags, periodic=per, homoDeform=homo, exactAsphericalRot=exact, blockedDOFs=blocked, densityScaling=ds, isDamped=damped, moveRotUsed=used, mask=mask, compatible=compat, velGradChange=chg, rot=rot).items() if kv[1] not in (0, -1))
        return c
    end = lambda q, c, k: canon(c(q.st.env.get(loc[k], mk('ld', loc[k], 0, kind=S0[k].kind))))
    untouched = lambda q, c: all(end(q, c, k) is S0[k] for k in loc) and not any(x.kind == 'call' and x.q in OBS for x in q.events)
    paths = [q for q in L.paths if q.end != 'throw']
    ctx.count('iteration_paths', len(paths))
    for q in paths: ctx.check(q.end in ('fall', 'continue'), 'visited', *where, 'the loop over the bodies is left early')
    # empty slots
    for q in paths:
        if bnot(nonzero(b)) in q.facts: ctx.check(not any(l.op == 'L.f' for l in q.st.env if root(l) is root(b)) or untouched(q, case()), 'visited', *where, 'an empty slot is used as a body')
        else: ctx.check(nonzero(b) in q.facts or L.info['kind'] == 'range' or L.info['lo'].op == 'it', 'visited', *where, 'a slot is used without testing that it holds a body')
    live = [q for q in paths if bnot(nonzero(b)) not in q.facts]
    # who is skipped
    def role(cl, sd, flags=None):
        return Case(*([(lambda x: x.op == 'nn' and x.args[0] is b, TRUE), (lambda x: x is ID, const(5)), (lambda x: x is ld(b, 'Body::clumpId'), const(cl)), (lambda x: x.op == 'ld' and x.args[0].op == 'L.g' and str(x.args[0].args[0]).endswith('Body::ID_NONE'), const(-1)),
                       (lambda x: x is ld(b, 'Body::subdomain'), const(sd)), (lambda x: x is ld(SC, 'Scene::subdomain'), const(0))] + ([(lambda x: x is ld(b, 'Body::flags'), const(flags))] if flags is not None else []) + SYMS))
    for clump, sd, flags in itertools.product((-1, 5, 7, 0), (0, 1, 2), (1, 3, 4, 5, 0)):
        c = role(clump, sd, flags); c.lab = 'clumpId=%d subdomain=%d flags=%d, id=5' % (clump, sd, flags)
        skip = clump not in (-1, 5) or sd != 0 or flags & 4
        fe = [q for q in live if c.feasible(q.facts)]
        ctx.count('cases')
        if not fe: ctx.undecided('no path for ' + c.lab); continue
        for q in fe:
            moved = any(x.kind == 'call' and x.q == 'ForceContainer::getForce' for x in q.events)
            if skip: ctx.check(untouched(q, c), 'visited', *where, 'a body that must not be moved here (%s) is moved' % c.lab)
            else: ctx.check(moved, 'visited', *where, 'a body that must be moved (%s) is skipped' % c.lab)
    # restrict to moved bodies: standalone, or clump
    c0 = case(); moved = {}
    for cl in (-1, 5):
        r0 = role(cl, 0)
        moved[cl] = [q for q in live if r0.feasible(q.facts) and any(x.kind == 'call' and x.q == 'ForceContainer::getForce' for x in q.events)]
    # loads of clumps; members moved last
    for cl, ps in moved.items():
        for q in ps:
            calls = [x for x in q.events if x.kind == 'call' and x.q in OBS]
            names = [x.q.split('::')[-1] for x in calls]
            gi = [i for i, n in enumerate(names) if n in ('getForce', 'getTorque')]
            ctx.check(all(calls[i].args[0] is ID and calls[i].obj is FRC for i in gi), 'loads', *where, 'loads of another body are used')
            adds = [x for x in calls if x.q.split('::')[-1].startswith('add') and x.q.startswith('ForceContainer')]
            mem = [i for i, n in enumerate(names) if n == 'addForceTorqueFromMembers']
            mv = [i for i, n in enumerate(names) if n == 'moveMembers']
            if cl == -1:
                ctx.check(not adds and not mem and not mv, 'loads', *where, 'a body that is no clump is handled as a clump')
                continue
            if not ctx.check(len(mem) == 1 and mem[0] < min(gi), 'loads', *where, 'the loads of the members are not gathered once before the clump\'s loads are read'): continue
            M = calls[mem[0]]
            ctx.check(M.args[0] is s and M.args[1] is SC and M.args[2] is ZERO and M.args[3] is ZERO, 'loads', *where, 'the loads of the members are gathered into something that is not zero or not of this clump')
            outs = {}
            for x in adds:
                kind = 'F' if 'Force' in x.q.split('::')[-1] else 'T'
                outs.setdefault(kind, []).append(x)
            okk = all(len(outs.get(k, [])) == 1 and calls.index(outs[k][0]) < min(gi) and outs[k][0].args[0] is ID and outs[k][0].args[1].op == 'out' and outs[k][0].args[1].args[0].args[0].startswith('Clump::addForceTorqueFromMembers') and slot(outs[k][0].args[1]) == i for k, i in (('F', 2), ('T', 3)))
            ctx.check(okk and len(adds) == 2, 'loads', *where, 'the gathered force and torque are not each added once to the clump before its loads are read (%s)' % ', '.join(names))
            if ctx.check(len(mv) == 1 and calls[mv[0]].args[0] is b_addr(calls[mv[0]].args[0], b), 'members', *where, 'the members of the clump are moved %d times' % len(mv)):
                d0 = lambda k: mk('ld', loc[k], 0, kind=S0[k].kind)
                late = [k for k in loc if q.st.env.get(loc[k], d0(k)) is not q.st.env.get(mk('L.f', mk('snapof', loc[k]), 'snap'), d0(k))]
                ctx.check(not late, 'members', *where, 'the members are moved before the clump has its final %s' % ', '.join(late))
    H = Fraction(1, 2)
    def sign(x): return mk('app', 'Sign', x)
    def damp2(a, v): return sub(a, mul(mul(a, damp), sign(mul(a, add(v, scale(mul(dt, a), H))))))
    # linear motion
    def dV(chg): return sub(nvg if chg else vg, pvg)
    def matvec(m, v): return c3(mul(m, v))
    F3, G3, V3 = (c3(sym(n, 'v')) for n in ('F', 'gravity', 'vel'))
    def lin_expect(per, homo, blocked, ds, damped, used, mask, compat, chg):
        fl = c3(sub(S0['vel'], mul(pvg, S0['pos']))) if per else V3
        if blocked != 63:
            a = [ZERO if blocked >> i & 1 else add(div(F3[i], mass), G3[i]) for i in range(3)]
            if ds: a = [mul(x, dens) for x in a]
            if damped: a = [damp2(x, v) for x, v in zip(a, fl)]
            if per and homo > 1: a = [add(x, y) for x, y in zip(a, matvec(pvg, S0['vel']))]
            v = [add(x, mul(dt, y)) for x, y in zip(V3, a)]
        elif per and homo > 1: v = [add(x, mul(dt, y)) for x, y in zip(V3, matvec(pvg, S0['vel']))]
        else: v = V3
        p1 = add(S0['pos'], sym('move', 'v')) if used else S0['pos']
        if per and homo: v = [add(x, y) for x, y in zip(v, matvec(dV(chg), p1))]
        if mask <= 0 or compat: p = [add(x, mul(dt, y)) for x, y in zip(c3(p1), v)]
        else: p = c3(p1)
        return [canon(x) for x in v], [canon(x) for x in p]
    BLK = (0, 63, 1, 2, 4, 7, 8, 16, 32, 56, 62)
    def linear(ps, combos):
        for per, homo, blocked, ds, damped, used, mask, compat, chg in combos:
            c = case(clump=cl, per=per, homo=homo, blocked=blocked, ds=ds, damped=damped, used=used, mask=mask, compat=compat, chg=chg)
            free = Case(*[x for x in c.pairs])     # rotational switches stay open
            c2 = loosen(c, b)
            fe = [q for q in ps if c2.feasible(q.facts)]
            ctx.count('cases')
            if not fe: ctx.undecided('no path for ' + c.lab); continue
            ev, ep = lin_expect(per, homo, blocked, ds, damped, used, mask, compat, chg)
            done = set()
            for q in fe:
                v, p = q.st.env.get(loc['vel'], mk('ld', loc['vel'], 0, kind='v')), q.st.env.get(loc['pos'], mk('ld', loc['pos'], 0, kind='v'))
                if (v, p) in done: continue
                done.add((v, p))
                gv, gp = c3(c2(v)), c3(c2(p))
                diff(ctx, 'linear', where, c.lab, 'velocity', gv, ev); diff(ctx, 'linear', where, c.lab, 'position', gp, ep)
    def loosen(c, b):
        skip = ('flags', 'exact')
        return Case(*[pv for pv in c.pairs if not any(pv[0](t) for t in (ld(TH, N + '::exactAsphericalRot'),)) and not (pv[0](ld(b, 'Body::flags'))) and not pv[0](mk('nn', mk('app', 'ForceContainer::getRot', FRC, ID)))])
    for cl in (-1, 5):
        ps = moved[cl]
        if cl == -1:
            # displacement-free: all couplings of cell, blocking, damping, scaling
            linear(ps, [(per, homo, bl, ds, dm, 0, -1, 0, 0) for per, homo in ((0, 0), (0, 2), (1, 0), (1, 1), (1, 2)) for bl in BLK for ds in (0, 1) for dm in (0, 1)])
        linear(ps, [(per, homo, bl, 0, 1, used, mask, compat, chg) for per, homo in ((0, 0), (1, 0), (1, 2)) for bl in (0, 63, 5) for used in (0, 1) for mask, compat in ((-1, 0), (0, 0), (1, 0), (1, 1), (3, 0)) for chg in (0, 1)])
    # angular motion
    M3, I3, W3 = c3(sym('M', 'v')), c3(inert), c3(S0['angVel'])
    def spin(chg):
        d = dV(chg); g = lambda i, j: scale(sub(comp(d, mk('ij', const(i), const(j))), comp(d, mk('ij', const(j), const(i)))), H)
        return [neg(g(1, 2)), g(0, 2), neg(g(0, 1))]
    def angular(ps, cl, combos):
        for per, homo, exact, asph, blocked, ds, damped, used, rot, mask, compat, chg in combos:
            c = case(clump=cl, per=per, homo=homo, flags=3 if asph else 1, exact=exact, blocked=blocked, ds=ds, damped=damped, used=used, rot=rot, mask=mask, compat=compat, chg=chg)
            fe = [q for q in ps if c.feasible(q.facts)]
            ctx.count('cases')
            if not fe: ctx.undecided('no path for ' + c.lab); continue
            two = exact and asph and not blocked & 56
            ok = mask <= 0 or compat
            r = sym('rot', 'v'); rn = mk('app', 'sqrt', dot(r, r))
            qrot = mk('app', 'AngleAxis', rn, div(r, rn), kind='q')
            done = set()
            for q in fe:
                w, o, m = (q.st.env.get(loc[k], mk('ld', loc[k], 0, kind=S0[k].kind)) for k in ('angVel', 'ori', 'angMom'))
                key = (w, o, m, tuple(f for f in q.facts if any(app(x, 'Engine') for x in ())))
                w, o, m = canon(c(w)), canon(c(o)), canon(c(m))
                facts = [canon(c(f)) for f in q.facts]
                rule = 'aspherical' if two else 'angular'
                if not ctx.check(o.op == 'normalized' and o.kind == 'q', rule, *where, '%s: the orientation is left without normalisation' % c.lab): continue
                o = o.args[0]
                if used and rot and (two or ok):
                    qm = qmul(o); good = qm is not None and qm[0] is qrot
                    if not ctx.check(good, rule, *where, '%s: the prescribed rotation is not applied (orientation %s)' % (c.lab, show(o)[:160])): continue
                    o = qm[1]
                elif any(x is r for x in subterms(o)): ctx.bad(rule, *where, '%s: a prescribed rotation is applied although none is due' % c.lab); continue
                else: ctx.ok(rule)
                if not two:
                    ew = W3
                    if blocked != 63:
                        a = [ZERO if blocked >> (3 + i) & 1 else div(M3[i], I3[i]) for i in range(3)]
                        if ds: a = [mul(x, dens) for x in a]
                        if damped: a = [damp2(x, v) for x, v in zip(a, W3)]
                        ew = [add(x, mul(dt, y)) for x, y in zip(W3, a)]
                    if per and homo: ew = [add(x, y) for x, y in zip(ew, spin(chg))]
                    ew = [canon(x) for x in ew]; gw = c3(w)
                    if not diff(ctx, rule, where, c.lab, 'angular velocity', gw, ew): continue
                    ctx.check(m is S0['angMom'], rule, *where, '%s: the angular momentum of a spherical integration changes' % c.lab)
                    n2 = canon(dot(w, w)); turn = nonzero(n2)
                    for spins in (True, False):
                        if n2 is ZERO and spins or (bnot(turn) if spins else turn) in facts: continue
                        og = pick(o, turn, spins)
                        if not spins or not ok:
                            ctx.check(og is S0['ori'], rule, *where, '%s: the body is turned although it %s' % (c.lab, 'is masked out' if spins else 'does not spin'))
                            continue
                        an = mk('app', 'sqrt', n2)
                        qm = qmul(og); good = qm is not None and qm[1] is S0['ori'] and qm[0].op == 'app' and qm[0].args[0] == 'AngleAxis'
                        if good:
                            g = qm[0]; good = g.args[1] is mul(dt, an) and c3(g.args[2]) == c3(div(w, an))
                        ctx.check(good, rule, *where, '%s: the orientation is not turned by angular velocity times time step (%s)' % (c.lab, show(og)[:200]))
                else:
                    MM = [mk_i for mk_i in M3]
                    if blocked != 63 and damped: MM = [sub(x, mul(mul(x, damp), sign(mul(x, y)))) for x, y in zip(M3, W3)]
                    Mv = sym('M', 'v') if not damped else mk('vec3', *MM)
                    A = mk('app', 'e.conjugate', S0['ori'], kind='q')
                    L0 = S0['angMom']
                    ln = add(L0, scale(mul(dt, Mv), H)); lh = add(L0, mul(dt, Mv))
                    if not diff(ctx, rule, where, c.lab, 'angular momentum', c3(m), c3(lh)): continue
                    sc = (lambda x: mul(x, dens)) if ds else (lambda x: x)
                    wn = [sc(div(x, y)) for x, y in zip(c3(mul(A, ln)), I3)]
                    wh = [sc(div(x, y)) for x, y in zip(c3(mul(A, lh)), I3)]
                    O4 = c4(S0['ori'])
                    qh = [add(x, scale(mul(dt, y), H)) for x, y in zip(O4, dotq(wn, O4))]
                    qn = [canon(add(x, mul(dt, y))) for x, y in zip(O4, dotq(wh, qh))]
                    if not diff(ctx, rule, where, c.lab, 'orientation', c4(o), qn): continue
                    # angular velocity in the global frame: the new orientation applied to the local one
                    ms = [x for x in subterms(w) if x.op == 'mul' and x.args[0].kind == 'q']
                    tops = [x for x in ms if not any(y is not x and any(z is x for z in subterms(y)) for y in ms)]
                    good = bool(tops)
                    if good:
                        # w is linear in rotated vectors: sum of c * (Q * v); all Q equal
                        Q = {t.args[0] for t in tops}
                        good = len(Q) == 1 and c4(next(iter(Q))) == qn
                        loc_w = subst(w, lambda x: x.args[1] if x in tops else None) if good else None
                        good = good and diff(ctx, rule, where, c.lab, 'local angular velocity', c3(loc_w), [canon(x) for x in wh])
                    ctx.check(good, rule, *where, '%s: the angular velocity is not the new orientation applied to the local angular velocity' % c.lab)
    PH = ((0, 0), (0, 2), (1, 0), (1, 1), (1, 2))
    angular(moved[-1], -1, [(per, homo, 0, 0, bl, ds, dm, 0, 0, -1, 0, 0) for per, homo in PH for bl in BLK for ds in (0, 1) for dm in (0, 1)])
    angular(moved[-1], -1, [(per, homo, 0, 1, 0, 0, 1, used, rot, mask, compat, chg) for per, homo in ((0, 0), (1, 1)) for used, rot in ((0, 0), (1, 0), (1, 1), (0, 1)) for mask, compat in ((-1, 0), (0, 0), (1, 0), (1, 1)) for chg in (0, 1)])
    for cl in (-1, 5):
        angular(moved[cl], cl, [(per, homo, ex, asph, bl, ds, dm, used, rot, -1, 0, 0) for per, homo in ((0, 0), (1, 2)) for ex, asph in ((0, 1), (1, 0), (1, 1)) for bl in (0, 1, 7, 8, 16, 32, 63) for ds in (0, 1) for dm in (0, 1) for used, rot in ((0, 0), (1, 0), (1, 1))])
    ctx.sample('%s:%d: %d iteration paths; standalone %d, clump %d' % (where[0], L.line, len(paths), len(moved[-1]), len(moved[5])))

def qmul(t):
    a = t.args[1:] if t.op == 'app' and t.args[0] == 'qmul' else t.args if t.op == 'qmul' else None
    return a if a and len(a) == 2 else None
def pick(t, cond, v):
    """t with the condition decided"""
    if cond.op == 'not': cond, v = cond.args[0], not v
    return subst(t, lambda x: B(v) if x is cond else None)
def dotq(w, q):
    x, y, z, s = q; h = Fraction(1, 2)
    f = lambda *t: scale(sum_(t), h)
    return [f(mul(s, w[0]), neg(mul(z, w[1])), mul(y, w[2])), f(mul(z, w[0]), mul(s, w[1]), neg(mul(x, w[2]))), f(neg(mul(y, w[0])), mul(x, w[1]), mul(s, w[2])), f(neg(mul(x, w[0])), neg(mul(y, w[1])), neg(mul(z, w[2])))]
def sum_(ts):
    a = ZERO
    for t in ts: a = add(a, t)
    return a
def diff(ctx, rule, where, lab, what, got, want):
    bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g is not w and not same_damped(g, w)]
    if not bad: ctx.ok(rule); return True
    i, g, w = bad[0]
    ctx.bad(rule, *where, '%s: component %d of the new %s is %s instead of %s' % (lab or 'plain body', i, what, show(g)[:220], show(w)[:220]), key='%s|%s' % (rule, what))
    return False
def same_damped(g, w):
    """equal with and without damping (a vanishing coefficient may be short-cut)"""
    d = sym('damping'); z = lambda t: subst(t, lambda x: ZERO if x is d else None)
    return pick(g, nonzero(d), True) is w and z(g) is z(w)
def slot(o):
    """which reference argument an out() value is of"""
    n = [x for x in o.args if isinstance(x, int)]
    return n[0] if n else None
def b_addr(t, b): return t if t is b or (t.op == 'addr' and t.args[0].op == 'L.e') or any(x is b for x in subterms(t)) or root(t) is root(b) else None
