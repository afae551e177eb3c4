"""C05: contact forces act at one shared point (angular momentum of the pair)."""
from laws import *
from rules_c04 import weights, interaction_ids
RULES = {
 'angular': 'on every loading path the torques applied by a law equal those of its forces acting at one shared contact point plus self-cancelling moments: sum(T) + sum(x_i x F_i) == 0 in normal form, or, for branches written with lever arms, sum(T) == (arm1+arm2) n x F1 with arm1+arm2 the current distance (radius1+radius2-penetrationDepth, resp. refR1+refR2+u_n)',
}
EXPLAIN = ('Value-numbering over every contact law: per path, the vector sum of all torque operands plus position-cross-force of the loaded bodies is reduced to polynomial normal form over cross products and must vanish (positions shifted by the periodic image offset of the interaction are accepted).')
ASSUMES = ['the contact normal points from body 1 to body 2 and the centre distance is radius1+radius2-penetrationDepth (sphere-like contact geometry) for laws written with lever arms',
           'facet-of-nodes contacts (id5 set) carry no torque on the three nodes by design: the node forces are weighted barycentrically; that path is exempt']
# paths exempt by design: (law, predicate on ids)
NOPBC = set()
LUBRICATION = {'Law2_ScGeom_ImplicitLubricationPhys', 'Law2_ScGeom_ElectrostaticPhys'}   # not claimed: the direction of the normal force comes out of an iterative solver, and with a negative gap the law itself warns that shear and torque are skipped
def exempt(name, ids): return name in LUBRICATION or name == 'Law2_ScGridCoGeom_FrictPhys_CundallStrack' and any(fieldname(i) == 'id5' for i in ids)

def canon_pos(t, ids):
    """positions of the loaded bodies get one value number each"""
    memo = {}
    def f(x):
        if x.op == 'ld' and x.args[0].op == 'L.f' and fieldname(x) == 'position':
            own = [i for i in ids if any(y is i for y in subterms(x))]
            if len(own) == 1: return mk('pos', own[0], kind='v')
        return None
    return subst(t, f, memo)
def has_field(t, names):
    return any(x.op in ('ld', 'fv') and fieldname(x) in names for x in subterms(t))
def cross_args(T):
    out = set()
    for c, mon in poly_items(T):
        for x in mon:
            if x.op == 'cross': out.update(x.args)
    return out

def aperiodic(facts):
    return any(f.op == 'not' and f.args[0].op == 'nn' and fieldname(f.args[0].args[0]) == 'isPeriodic' for f in facts)
def residual(evs, m, facts=(), name=''):
    F = {}; T = ZERO
    for e in evs:
        if e.q == FORCE: F[e.args[0]] = add(F.get(e.args[0], ZERO), e.args[1])
        else: T = add(T, e.args[1])
    ids = list(F)
    T = canon_pos(red(T, m), ids)
    F = {i: canon_pos(red(v, m), ids) for i, v in F.items()}
    f1 = [i for i in ids if fieldname(i) == 'id1']
    ca = cross_args(T)
    P = {p.args[0]: p for p in ca if p.op == 'pos'}
    res = []
    if P:
        R = T
        for i, p in P.items(): R = add(R, cross(p, F[i]))
        if zero_by_cases(R):
            if aperiodic(facts) or name in NOPBC: return None
            return [mk('str', 'unshifted')], T, F, f1
        # the image offset of body 2
        for x in cross_args(R):
            if has_field(x, ('cellDist',)):
                for i in ids:
                    if fieldname(i) == 'id2' and add(R, cross(x, F[i])) is ZERO: return None
        res.append(R)
    return res, T, F, f1

def geom_field(evs, name):
    c = {}
    for e in evs:
        for a in e.args:
            for x in subterms(a):
                if x.op in ('ld', 'fv') and fieldname(x) == name: c[x] = c.get(x, 0) + 1
    return max(c, key=lambda k: c[k]) if c else None

def run(ctx):
    files = law_files(); db = DB(files); db.require_clean()
    todo = [(l, f) for l in sorted(db.subclasses('LawFunctor')) for f in db.fn(l + '::go')[:1]]
    ctx.setc('translation_units', len(files))
    for name, f in todo:
        try: ls, eng = loads(db, f)
        except (Unsupported, TooMany) as e: ctx.undecided('%s: %s' % (name, e)); continue
        ctx.count('functions'); ctx.count('paths', len(ls))
        for p, evs in ls:
            fo = [e for e in evs if e.q == FORCE]
            if not fo: continue
            ctx.count('loading_paths')
            if exempt(name, [e.args[0] for e in fo]): ctx.count('exempt_paths'); continue
            m = eqsub(p.facts)
            r = residual(evs, m, p.facts, name)
            if r is None: ctx.ok('angular'); ctx.count('by_positions'); continue
            res, T, F, f1 = r
            ok = False
            # force side: all first-body ids (id1 or nodes of it) share F = sum over the side carrying +f; take normal from the operands
            n = geom_field(evs, 'normal')
            d = None
            r1, r2, pd = geom_field(evs, 'radius1'), geom_field(evs, 'radius2'), geom_field(evs, 'penetrationDepth')
            if r1 is not None and r2 is not None and pd is not None: d = sub(add(r1, r2), pd)
            q1, q2, u = geom_field(evs, 'refR1'), geom_field(evs, 'refR2'), geom_field(evs, 'u')
            cands = []
            side1 = side_force(F, f1)
            for F1 in side1:
                if n is not None:
                    c = cross(n, F1)
                    if d is not None: cands.append(mul(red(d, m), c))
                    if c is ZERO: cands.append(ZERO)
                if q1 is not None and q2 is not None and u is not None:
                    cands.append(('L3', F1, add(add(q1, q2), comp(u, ZERO))))
            for c in cands:
                if isinstance(c, tuple):
                    if l3(T, c[1], red(c[2], m)): ok = True
                elif zero_by_cases(sub(T, c)): ok = True
            if ok: ctx.ok('angular'); ctx.count('by_lever_arms')
            else:
                w = fo[-1]
                ctx.bad('angular', w.file, w.line, name, 'torques are not those of the applied forces at one shared point: residual %s' % show(res[0] if res else T)[:400], key='angular|' + name)
    ctx.floor('functions', 26); ctx.floor('loading_paths', 80)

def side_force(F, f1):
    """candidate resultants on the first body (its own id, or the pair of nodes standing for it)"""
    out = []
    for i in f1: out.append(F[i])
    ids = list(F)
    # nodes of a side: (1-r)f and r f
    for a in range(len(ids)):
        for b in range(a + 1, len(ids)):
            out.append(add(F[ids[a]], F[ids[b]]))
    return out
def l3(T, F1, d):
    """T == d * (axis x F1) for some axis vector occurring in T"""
    for x in cross_args(T):
        if zero_by_cases(sub(mul(d, cross(x, F1)), T)): return True
    return False
