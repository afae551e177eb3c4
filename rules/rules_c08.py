"""C08: a clump is one rigid body.  The functions that assemble, load, move, extend and shrink clumps are summarised with helpers
expanded; their end values are compared component by component with the mechanics of a rigid aggregate."""
import itertools
from kit import *
from lin import *
from evalt import Eval, Unknown
RULES = {
 'follow': 'members are placed by the rigid motion of the clump: position and orientation from the clump\'s and the stored relative ones, velocity of the rigid body field at that position, angular velocity of the clump; every member, and the collider is told of the displacement',
 'gather': 'force and torque handed to a clump are the sum over all members of their force, and of their torque plus the moment of their force about the clump\'s centre',
 'assemble': 'mass, centre, principal inertia and axes of a clump are those of its members together (the axes being a proper rotation), and the stored relative placements reproduce the members\' present placement; the clump starts at rest and is flagged aspherical exactly when its principal moments differ',
 'join': 'a body joins a clump completely (listed there, and knows it) or is refused without any change; all members of an absorbed clump change over, and the absorbed clump keeps none',
 'leave': 'a body leaves a clump completely (no longer listed, free) or is refused without any change',
 'regroup': 'the scripting operations on clumps treat every body given, refresh the properties of the clumps whose members changed, and remove clumps that were absorbed or emptied',
}
EXPLAIN = ('Gated value-numbering of the clump functions with helpers expanded; loops over the members are summarised as sums over all members; vectors, matrices and rotations are compared entry by entry in a polynomial normal form.')
ASSUMES = ['real arithmetic', 'Eigen\'s eigen-decomposition returns orthonormal eigenvectors of the symmetric matrix given and their eigenvalues', 'loads of a body are right (C03)', 'overlapping members: the integration grid itself is not judged, only what each grid cell contributes']
FILES = ['core/Clump.cpp', 'core/Body.cpp', 'core/BodyContainer.cpp', 'core/State.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/Integrator.cpp', 'py/wrapper/yadeWrapper.cpp']
POS, ORI = 'Se3<double>::position', 'Se3<double>::orientation'
def sym(n, k='s'): return mk('sym', n, kind=k)
EL, EID, MB = sym('element'), sym('memberId'), sym('memberBody')
def ld(o, q, kind=None): return mk('ld', mk('L.f', o, q), 0, kind=kind)
def se3(state, q, kind): return ld(mk('addr', mk('L.f', state, 'State::se3')), q, kind)

def member_loops(e, M=None):
    """{lid: (info, paths)} of the loops visiting every element of a member table"""
    out = {}
    for lid, runs in e.loopruns.items():
        info, paths = runs[-1]
        c = visited(info)
        if c is None or fname(c) != 'Clump::members' or (M is not None and c is not M): continue
        out[lid] = (info, paths)
    return out
class Abstract:
    """terms of an iteration over all members: the visited entry, its id, its body; sums over all members"""
    def __init__(self, lids, M): self.lids = set(lids); self.M = M; self.m1 = {}; self.m2 = {}; self.m3 = {}
    def __call__(self, t):
        I = sym('i')
        def f1(x):
            if x.op == 'iv' and x.args[0] in self.lids: return I
            if x.op in ('sum',) and x.args[0] in self.lids: return mk('sum', 'members', self(x.args[1]), kind=x.kind)
            return None
        t = subst(t, f1, self.m1)
        def f2(x):
            if x.op == 'addr' and x.args[0].op == 'L.e' and x.args[0].args[1] is I and x.args[0].args[0] is self.M: return EL
            if x.op == 'it' and x.args[1] is I and x.args[0] is self.M: return EL
            return None
        t = subst(t, f2, self.m2)
        def f3(x):
            if x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[0] is EL and x.args[0].args[1].endswith('::first'): return EID
            if x.op == 'ld' and x.args[0].op == 'L.e' and x.args[0].args[1] is not I:
                y = x.args[0].args[1]
                if y is EID or (y.op == 'ld' and y.args[0].op == 'L.f' and y.args[0].args[0] is EL and y.args[0].args[1].endswith('::first')): return MB
            return None
        return subst(t, f3, self.m3)
def relse3(q, kind):
    """relative placement stored in the visited entry: matched by shape"""
    def p(x): return x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[1] == q and x.args[0].args[0].op == 'addr' and x.args[0].args[0].args[0].op == 'L.f' and x.args[0].args[0].args[0].args[0] is EL and x.args[0].args[0].args[0].args[1].endswith('::second')
    return p
def same(ctx, L, got, want, k, rule, where, msg):
    ctx.count('comparisons')
    try:
        g = {'v': L.vec, 'm': L.m, 's': lambda t: Val('s', L.sc(t))}[k](got); w = {'v': L.vec, 'm': L.m, 's': lambda t: Val('s', L.sc(t))}[k](want)
    except Shape as ex: ctx.undecided('%s: %s' % (msg, ex)); return
    for i, (x, y) in enumerate(zip(g.flat(), w.flat())):
        if not ctx.check(x is y, rule, *where, '%s%s: got %s, expected %s' % (msg, '' if k == 's' else ' (entry %d)' % i, show(x)[:160], show(y)[:160])): return
def qsame(a, b):
    """the same rotation: quaternion terms compared by their rotation matrices"""
    L = Lin(); return [x for x in L.rot(a).flat()] == [x for x in L.rot(b).flat()]

def run(ctx):
    db = DB([f for f in FILES if os.path.exists(os.path.join(REPO, f))]); db.require_clean()
    follow(ctx, db); gather(ctx, db); join(ctx, db); leave(ctx, db); assemble(ctx, db); regroup(ctx, db)
    ctx.floor('comparisons', 25)

def find_M(e):
    for lid, runs in e.loopruns.items():
        c = runs[-1][0].get('cont')
        if c is not None and fname(c) == 'Clump::members': return c
    return None
def newval(p, ab, loc):
    """end value on path p of the location that abstracts to loc"""
    for l, v in p.st.env.items():
        if l.op in ('L.f',) and ab(mk('ld', l, 0)) is mk('ld', loc, 0): return ab(v)
    return None
def follow(ctx, db):
    fs = db.fn('Clump::moveMembers')
    if not fs: raise AnalysisBroken('no Clump::moveMembers')
    for fn in fs:
        where = (fn['file'], fn['line'], fn['q'])
        OPQ = {q for q in db.byq if q.endswith('::saveMaximaDisplacement')} if hasattr(db, 'byq') else {'NewtonIntegrator::saveMaximaDisplacement', 'Integrator::saveMaximaDisplacement'}
        e = engine(db, rec_store=lambda l, s: False, rec_call=lambda q, *a: q.endswith('saveMaximaDisplacement'), opaque=OPQ)
        tops = e.run(fn); ctx.count('functions')
        M = find_M(e)
        if not ctx.check(M is not None, 'follow', *where, 'no loop over the members'): continue
        CB = mk('ld', mk('L.d', mk('param', 'arg0')), 0); CS = ld(CB, 'Body::state')
        ctx.check(root(M) is root(CB), 'follow', *where, 'the members moved are not those of the clump given')
        loops = member_loops(e, M)
        if not ctx.check(len(loops) >= 1, 'follow', *where, 'the loop over the members does not visit all of them'): continue
        for tp in tops: ctx.check(tp.end in ('fall', 'return'), 'follow', *where, 'the function may end without moving the members')
        ab = Abstract(loops, M); L = Lin()
        MS = ld(MB, 'Body::state')
        cpos, cori, cvel, cav = se3(CS, POS, 'v'), se3(CS, ORI, 'q'), ld(CS, 'State::vel', 'v'), ld(CS, 'State::angVel', 'v')
        for lid, (info, paths) in loops.items():
            for p in paths:
                if not ctx.check(p.end in ('fall', 'continue'), 'follow', *where, 'the loop over the members is left early'): continue
                rp, ro = sym('relPos', 'v'), sym('relOri', 'q')
                C = Case((relse3(POS, 'v'), rp), (relse3(ORI, 'q'), ro))
                arm = bilinear('mul', cori, rp)
                want = {mk('L.f', mk('addr', mk('L.f', MS, 'State::se3')), POS): ('position', add(cpos, arm), 'v'),
                        mk('L.f', MS, 'State::vel'): ('velocity', add(cvel, cross(cav, arm)), 'v'),
                        mk('L.f', MS, 'State::angVel'): ('angular velocity', cav, 'v')}
                for loc, (nm, w, k) in want.items():
                    v = newval(p, ab, loc)
                    if not ctx.check(v is not None, 'follow', *where, 'a member keeps its %s on some path' % nm): continue
                    same(ctx, L, C(v), w, k, 'follow', where, 'new %s of a member' % nm)
                v = newval(p, ab, mk('L.f', mk('addr', mk('L.f', MS, 'State::se3')), ORI))
                ctx.count('comparisons')
                ctx.check(v is not None and qsame(C(v), mk('app', 'qmul', cori, ro, kind='q')), 'follow', *where, 'new orientation of a member: %s' % show(v)[:160])
                # nothing else of the member or of the clump
                for l in p.st.env:
                    a = ab(mk('ld', l, 0)).args[0] if l.op == 'L.f' else l
                    if l.op == 'L.f' and a not in want and l.args[1] != ORI and (root(a) is MB or root(a) is root(CB)): ctx.check(False, 'follow', *where, 'also changes %s' % show(a)[:100])
                told = [x for x in p.events if x.kind == 'call' and x.q.endswith('saveMaximaDisplacement')]
                integ = bnot(nonzero(mk('param', 'arg2'))) in p.facts
                if not integ: ctx.check(any(ab(a) is MB or (a.op == 'addr' and ab(mk('ld', a.args[0], 0)) is MB) for x in told for a in x.args), 'follow', *where, 'the displacement of a member is not reported to the integrator')

def gather(ctx, db):
    for fn in db.fn('Clump::addForceTorqueFromMembers') or [None]:
        if fn is None: raise AnalysisBroken('no Clump::addForceTorqueFromMembers')
        where = (fn['file'], fn['line'], fn['q'])
        e = engine(db, rec_store=lambda l, s: False, rec_call=lambda q, *a: False, opaque={'ForceContainer::getForce', 'ForceContainer::getTorque'})
        tops = e.run(fn); ctx.count('functions')
        M = find_M(e)
        if not ctx.check(M is not None and root(M).op == 'this', 'gather', *where, 'no loop over the members of this clump'): continue
        loops = member_loops(e, M)
        if not ctx.check(len(loops) >= 1, 'gather', *where, 'the loop over the members does not visit all of them'): continue
        for lid, (info, paths) in loops.items():
            for p in paths: ctx.check(p.end in ('fall', 'continue'), 'gather', *where, 'the loop over the members is left early')
        ab = Abstract(loops, M)
        f, t, mp = sym('f', 'v'), sym('t', 'v'), sym('mpos', 'v')
        def isload(nm): return lambda x: x.op == 'app' and str(x.args[0]).split('(')[0] == 'ForceContainer::' + nm and any(y is EID or (y.op == 'addr' and ab(mk('ld', y.args[0], 0)) is EID) for y in x.args[1:] if isinstance(y, Term))
        CSt = mk('param', 'arg0'); cpos = se3(CSt, POS, 'v')
        F, T_ = (mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0, kind='v') for i in (2, 3))
        C = Case((isload('getForce'), f), (isload('getTorque'), t), (lambda x: x is se3(ld(MB, 'Body::state'), POS, 'v'), mp))
        def hook(x):
            if x.op == 'sum' and x.args[0] == 'members':
                r = L(C(x.args[1])); return r.map(lambda y: mk('sum', 'members', y))
            return None
        L = Lin(hook)
        def total(x0, d):
            r = L(d)
            return [add(a, mk('sum', 'members', b)) for a, b in zip(L.vec(x0).e, r.e)]
        for tp in tops:
            for loc, x0, d, nm in ((mk('L.d', mk('param', 'arg2')), F, f, 'force'), (mk('L.d', mk('param', 'arg3')), T_, add(t, cross(sub(mp, cpos), f)), 'torque')):
                ctx.count('comparisons')
                v = tp.st.env.get(loc)
                if not ctx.check(v is not None, 'gather', *where, 'the %s of the clump is not changed' % nm): continue
                got = [flatsum(y) for y in L.vec(ab(v)).e]
                ctx.check(got == [flatsum(y) for y in total(x0, d)], 'gather', *where, 'the %s of the clump becomes %s' % (nm, show(ab(v))[:200]))
def flatsum(t):
    """sums over the members are linear: one sum per monomial, constants taken out"""
    def f(x):
        if x.op == 'sum' and x.args[0] == 'members':
            r = ZERO
            for c, m in poly_items(flatsum(x.args[1])): r = add(r, scale(mk('sum', 'members', from_items({m: Fraction(1)})), c))
            return r
        return None
    return subst(t, f)

# ------------------------------------------------------------------ membership
def mem_events(p):
    return [x for x in p.events if x.kind in ('store', 'call', 'loop')]
def is_members(loc): return fname(loc) == 'Clump::members'
def inserts(x, ab=None):
    """(member table, id) if the event puts an entry into a member table"""
    if x.kind == 'store' and x.obj.op == 'L.e' and is_members(x.obj.args[0]): return x.obj.args[0], x.obj.args[1]
    if x.kind == 'call' and x.obj is not None and is_members(x.obj) and x.q.split('::')[-1] in ('insert', 'emplace', 'insert_or_assign', 'operator[]', 'try_emplace'):
        a = x.args[0]
        if a.op == 'obj': a = a.args[2]
        return x.obj, a
    return None
def rec_engine(db, calls=(), opaque=()):
    return engine(db, opaque=set(opaque), rec_store=lambda l, s: (l.op == 'L.e' and is_members(l.args[0])) or (l.op == 'L.f' and (l.args[1] in ('Body::clumpId', 'Body::flags') or is_members(l))),
                  rec_call=lambda q, o, a, n, s: (o is not None and is_members(o) and q.split('::')[-1] not in ('size', 'count', 'begin', 'end', 'empty', 'find')) or q in calls)
def changes(p):
    for q, _ in all_paths([p]):
        for x in q.events:
            if x.kind in ('store', 'call'): yield x
NONE = lambda x: (x.op == 'ld' and x.args[0].op == 'L.g' and str(x.args[0].args[0]).endswith('ID_NONE')) or (x.op == 'L.g' and str(x.args[0]).endswith('ID_NONE')) or x is const(-1)
def join(ctx, db):
    names = ['Clump::add', 'Clump::addNonSpherical']
    for nm in names:
        for fn in db.fn(nm) or []:
            where = (fn['file'], fn['line'], fn['q']); ctx.count('functions')
            e = rec_engine(db)
            tops = e.run(fn)
            C_, S = (mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0) for i in (0, 1))
            CM = mk('addr', mk('L.f', ld(C_, 'Body::shape'), 'Clump::members')); SM = mk('addr', mk('L.f', ld(S, 'Body::shape'), 'Clump::members'))
            sid, cid, scl = ld(S, 'Body::id'), ld(C_, 'Body::id'), ld(S, 'Body::clumpId')
            # representatives: subject id 5, its clumpId: none / own id (a clump) / another
            for present, cl in itertools.product((0, 1), (-1, 5, 7)):
                case = Case((lambda x: x.op == 'app' and str(x.args[0]).split('::')[-1].startswith(('count', 'has')) and any(y is CM for y in x.args[1:] if isinstance(y, Term)), const(present)),
                            (lambda x: x is sid, const(5)), (lambda x: x is scl, const(cl)), (lambda x: x.op == 'ld' and x.args[0].op == 'L.g' and str(x.args[0].args[0]).endswith('ID_NONE'), const(-1)), (lambda x: x is ld(C_, 'Body::clumpId'), const(9)), (lambda x: x is cid, const(9)))
                fe = [p for p in tops if case.feasible(p.facts)]
                lab = 'body %s, %s' % ('already listed' if present else 'not listed', {-1: 'standing alone', 5: 'being a clump itself', 7: 'being member of a clump'}[cl])
                ctx.count('cases')
                if not fe: ctx.undecided('%s: no path for a %s' % (nm, lab)); continue
                refuse = present or cl == 7 or (cl == 5 and nm != 'Clump::add')
                for p in fe:
                    ch = list(changes(p))
                    if refuse:
                        ctx.check(p.end == 'throw', 'join', *where, '%s: not refused' % lab)
                        ctx.check(not ch or p.end != 'throw', 'join', *where, '%s: refused after something was changed already (line %s)' % (lab, ch[0].line if ch else 0))
                        continue
                    if not ctx.check(p.end != 'throw', 'join', *where, '%s: refused' % lab): continue
                    ins = [inserts(x) for x in p.events if inserts(x)]
                    own = [x for x in p.events if x.kind == 'store' and x.obj is mk('L.f', S, 'Body::clumpId')]
                    ctx.check(any(x.kind == 'store' and x.obj is mk('L.f', C_, 'Body::clumpId') and case(x.val) is case(cid) for x in p.events), 'join', *where, '%s: the clump is not marked as one' % lab)
                    if cl == -1:
                        ctx.check(any(m is CM and case(i) is const(5) for m, i in ins), 'join', *where, '%s: not entered into the clump\'s member table' % lab)
                        ctx.check(any(case(x.val) is const(9) for x in own), 'join', *where, '%s: does not learn the id of its clump' % lab)
                    else:
                        lps = [l for l in loops_of(p) if l.info.get('cont') is SM]
                        good = False
                        for l in lps:
                            ab = Abstract({l.info['id']}, SM)
                            ok = l.info['id'] in member_loops(e, SM)
                            for q in l.paths:
                                if q.end == 'throw': continue
                                i2 = [inserts(x) for x in q.events if inserts(x)]
                                ok = ok and q.end in ('fall', 'continue') and any(m is CM and ab(i) is EID for m, i in i2) and any(x.kind == 'store' and fname(x.obj) == 'Body::clumpId' and ab(base(x.obj)) is MB and case(x.val) is const(9) for x in q.events)
                            good = good or ok
                        ctx.check(good, 'join', *where, '%s: not every member of the absorbed clump changes over' % lab)
                        pos = max([p.events.index(l) for l in lps] or [-1])
                        ctx.check(any(x.kind == 'call' and x.obj is SM and x.q.split('::')[-1] in ('clear', 'swap') for x in p.events[pos:]) or any(x.kind == 'store' and x.obj is SM.args[0] for x in p.events[pos:]), 'join', *where, '%s: the absorbed clump still lists the members it lost, so that erasing it would release them' % lab)
                        ctx.check(not own or all(False for _ in own), 'join', *where, '%s: the absorbed clump itself becomes a member' % lab)
def leave(ctx, db):
    for fn in db.fn('Clump::del') or []:
        where = (fn['file'], fn['line'], fn['q']); ctx.count('functions')
        e = rec_engine(db); tops = e.run(fn)
        C_, S = (mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0) for i in (0, 1))
        CM = mk('addr', mk('L.f', ld(C_, 'Body::shape'), 'Clump::members')); sid = ld(S, 'Body::id')
        n = 0
        for p in tops:
            er = [x for x in p.events if x.kind == 'call' and x.obj is CM and x.q.split('::')[-1] == 'erase']
            key = lambda a: a is sid or (a.op == 'it' and any(y is sid for y in subterms(a))) or (a.op == 'app' and 'find' in str(a.args[0]) and any(y is sid for y in subterms(a))) or (a.op == 'addr' and mk('ld', a.args[0], 0) is sid)
            other = [x for x in changes(p) if x.kind == 'call' and is_members(x.obj) and x not in er]
            own = [x for x in p.events if x.kind == 'store' and fname(x.obj) == 'Body::clumpId']
            ctx.check(not other, 'leave', *where, 'also changes the member table by %s' % [x.q for x in other][:1])
            ctx.check(all(base(x.obj) is S for x in own), 'leave', *where, 'another body is released')
            if p.end == 'throw': ctx.check(not own, 'leave', *where, 'a refused body is released nevertheless'); continue
            n += 1
            ctx.check(len(er) == 1 and key(er[0].args[0]), 'leave', *where, 'the body is not taken off the member table')
            ctx.check(len(own) >= 1 and NONE(own[-1].val), 'leave', *where, 'the body is not set free')
        ctx.check(n >= 1 and any(p.end == 'throw' for p in tops), 'leave', *where, 'removing a body that is no member is not refused')
        # erase() reports the number of entries taken: 1 must be accepted, 0 refused
        for cnt in (0, 1):
            ev = Eval(lambda x: cnt if x.op == 'app' and str(x.args[0]).split('::')[-1] in ('erase', 'count') else cnt if x.op in ('hv', 'ret', 'call') and 'erase' in show(x) else NotImplemented)
            ends = set()
            for p in tops:
                try:
                    if all(ev.truth(f) for f in p.facts if any(y.op == 'app' and str(y.args[0]).split('::')[-1] in ('erase', 'count') for y in subterms(f))): ends.add(p.end == 'throw')
                except Unknown: ends = {True, False}; break
            ctx.count('comparisons')
            ctx.check((cnt == 0) in ends or not ends, 'leave', *where, 'a body that %s is %s' % (('is no member', 'accepted') if cnt == 0 else ('is a member', 'refused')))
            if len(ends) == 1: ctx.check(ends == {cnt == 0}, 'leave', *where, 'a body that %s is %s' % (('is no member', 'accepted') if cnt == 0 else ('is a member', 'refused')))

# ------------------------------------------------------------------ assembling
def eigen_of(t):
    """(matrix, which) of an eigen-decomposition result"""
    for x in subterms(t):
        if x.op == 'app' and str(x.args[0]) in ('e.eigenvectors', 'e.eigenvalues') and len(x.args) >= 2: yield x
def decomposed(x):
    """the matrix an eigen-decomposition was made of"""
    o = x.args[1]
    for y in ([o] + list(o.args if isinstance(o, Term) else [])):
        if isinstance(y, Term) and y.op == 'app' and 'SelfAdjointEigenSolver' in str(y.args[0]) and len(y.args) >= 2: return next((z for z in y.args[1:] if isinstance(z, Term) and z.kind == 'm'), y.args[1])
    return o
def assemble(ctx, db):
    for nm in ('Clump::updateProperties', 'Clump::updatePropertiesNonSpherical'):
        for fn in db.fn(nm) or []:
            where = (fn['file'], fn['line'], fn['q']); ctx.count('functions')
            e = engine(db, rec_store=lambda l, s: False, rec_call=lambda *a: False)
            tops = e.run(fn); e.again = (db, fn)
            C_ = mk('ld', mk('L.d', mk('param', 'arg0')), 0); CS = ld(C_, 'Body::state'); CM = mk('addr', mk('L.f', ld(C_, 'Body::shape'), 'Clump::members'))
            loops = member_loops(e, CM)
            ab = Abstract(loops, CM)
            loc = lambda q: mk('L.f', CS, 'State::' + q)
            S3 = mk('addr', mk('L.f', CS, 'State::se3')); LP, LO = mk('L.f', S3, POS), mk('L.f', S3, ORI)
            ns = nm_ = 0
            for tp in tops:
                if tp.end == 'throw': continue
                env = lambda l: tp.st.env.get(l)
                if any(x is bnot(nonzero(sub(mk('app', 'size', CM, 0), ONE))) or (x.op == 'eq0' and 'size' in show(x)) for x in tp.facts) or any(l.op == 'L.f' and any(y.op == 'it' and y.args[0] is CM and y.args[1] is ZERO for y in subterms(l)) for l in tp.st.env):
                    ns += 1; single(ctx, where, tp, CM, CS, LP, LO, loc); continue
                nm_ += 1
                several(ctx, where, e, tp, CM, CS, LP, LO, loc, ab, loops, C_)
            ctx.check(ns >= 1 and nm_ >= 1, 'assemble', *where, 'the cases of one and of several members are not both treated')
def single(ctx, where, tp, CM, CS, LP, LO, loc):
    el = mk('it', CM, ZERO)
    def isfirst(x): return x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[1].endswith('::first') and any(y is CM for y in subterms(x)) and any(y is ZERO for y in subterms(x))
    def f(x):
        if x.op == 'ld' and x.args[0].op == 'L.e' and isfirst(x.args[0].args[1]): return MB
        return None
    MS = ld(MB, 'Body::state')
    g = lambda l: subst(tp.st.env.get(l, mk('ld', l, 0)), f)
    ctx.count('comparisons', 6)
    for l, w, n in ((LP, se3(MS, POS, 'v'), 'position'), (LO, se3(MS, ORI, 'q'), 'orientation'), (loc('mass'), ld(MS, 'State::mass'), 'mass'), (loc('inertia'), ld(MS, 'State::inertia', 'v'), 'inertia')):
        ctx.check(g(l) is w, 'assemble', *where, 'a single member: the %s of the clump becomes %s' % (n, show(g(l))[:120]))
    rel = {l.args[1]: v for l, v in tp.st.env.items() if l.op == 'L.f' and l.args[1] in (POS, ORI) and any(y is CM for y in subterms(l)) and not any(y is MB for y in subterms(l)) and root(l) is root(CM) and l not in (LP, LO)}
    ctx.check(rel.get(POS) is ZERO, 'assemble', *where, 'a single member: its relative position is not zero')
    ctx.check(rel.get(ORI) is not None and rel[ORI].op == 'app' and rel[ORI].args[0] == 'Identity', 'assemble', *where, 'a single member: its relative orientation is not the identity')
def several(ctx, where, e, tp, CM, CS, LP, LO, loc, ab, loops, C_):
    full = lambda l: ab(tp.st.env.get(l, mk('ld', l, 0)))
    dec = [decomposed(x) for x in eigen_of(tp.st.env.get(LO, ZERO))]
    if not ctx.check(bool(dec), 'assemble', *where, 'the axes of the clump are not taken from an eigen-decomposition of its inertia'): return
    # members overlapping or not: the gate of the totals
    mass = tp.st.env.get(loc('mass'))
    if not ctx.check(mass is not None, 'assemble', *where, 'the mass is not set'): return
    gates = [mass.args[0]] if mass.op == 'ite' else [None]
    for val in ((TRUE, FALSE) if gates[0] is not None else (None,)):
        pick = Case((lambda x: gates[0] is not None and x is gates[0], val))
        m1 = pick(mass) if gates[0] is not None else mass
        ov = any(x.op in ('sumif', 'sumx') for x in subterms(m1)) or m1.op not in ('sum',) or m1.args[0] not in loops
        (overlapping if ov else plain)(ctx, where, e, tp, CM, CS, LP, LO, loc, ab, loops, C_, pick)
    if gates[0] is not None: overlap_test(ctx, where, e, CM, gates[0])
    J = pickall = dec[0]
    # principal values and axes belong to one decomposition; the axes are made a proper rotation
    ctx.check(len({x.id for x in dec}) == 1, 'assemble', *where, 'axes from different matrices')
    iv = [decomposed(x) for x in eigen_of(tp.st.env.get(loc('inertia'), ZERO))]
    ctx.check(bool(iv) and iv[0] is J, 'assemble', *where, 'the principal moments are not those of the decomposed inertia')
    V = next(x for x in eigen_of(tp.st.env.get(LO)) if x.args[0] == 'e.eigenvectors') if any(x.args[0] == 'e.eigenvectors' for x in eigen_of(tp.st.env.get(LO))) else None
    if ctx.check(V is not None, 'assemble', *where, 'the axes are not the eigenvectors'):
        L = Lin(); X = leaf(sym('V', 'm'), 'm')
        f = subst(tp.st.env.get(LO), lambda x: sym('V', 'm') if x is V else None)
        ctx.count('comparisons')
        while f.op == 'normalized' or (f.op == 'app' and f.args[0] == 'as_q'): f = f.args[-1] if f.op == 'app' else f.args[0]
        det = mk('app', 'e.determinant', sym('V', 'm'))
        def proper(t, sg):
            """t equals V with an even (sg>0) / odd (sg<0) number of columns negated"""
            r = L(t)
            if r.k != 'm': return False
            n = 0
            for j in range(3):
                col = [r.e[i][j] for i in range(3)]; c0 = [X.e[i][j] for i in range(3)]
                if col == c0: continue
                if col == [neg(y) for y in c0]: n += 1
                else: return False
            return n % 2 == (0 if sg > 0 else 1)
        ok = False
        if f.op == 'ite':
            d = mdet(X); c = L.s(f.args[0])
            pos_, neg_ = (f.args[2], f.args[1]) if c in (lt0(d), bnot(lt0(neg(d)))) else (f.args[1], f.args[2]) if c in (lt0(neg(d)), bnot(lt0(d))) else (None, None)
            ok = pos_ is not None and proper(pos_, 1) and proper(neg_, -1)
        ctx.check(ok, 'assemble', *where, 'the eigenvectors are used as a rotation without making them right-handed')
    # relative placements
    rel = None
    newpos, newori = tp.st.env.get(LP), tp.st.env.get(LO)
    P0, Q0 = sym('cpos', 'v'), sym('cori', 'q')
    done = False
    for lid, (info, paths) in loops.items():
        for runs in e.loopruns[lid]:
            for p in runs[1]:
                st = [(l, v) for l, v in p.st.env.items() if l.op == 'L.f' and l.args[1] in (POS, ORI) and l not in (LP, LO) and any(y is CM for y in subterms(l))]
                if not st: continue
                if p.st.env.get(LO) is not newori or p.st.env.get(LP) is not newpos: continue
                done = True
                ctx.check(p.end in ('fall', 'continue'), 'assemble', *where, 'the loop storing relative placements is left early')
                got = {l.args[1]: ab(v) for l, v in st if is_el(ab, l)}
                C = Case((lambda x: x is ab(newori), Q0)); MS = ld(MB, 'Body::state')
                L = Lin(); 
                w = bilinear('mul', mk('app', 'e.conjugate', Q0, kind='q'), sub(se3(MS, POS, 'v'), sym('cpos', 'v')))
                ctx.count('comparisons', 2)
                if ctx.check(POS in got and ORI in got, 'assemble', *where, 'relative position or orientation of a member is not stored'):
                    ctx.check(qsame(C(got[ORI]), mk('app', 'qmul', mk('app', 'e.conjugate', Q0, kind='q'), se3(MS, ORI, 'q'), kind='q')), 'assemble', *where, 'relative orientation stored: %s' % show(C(got[ORI]))[:160])
                    # position: linear in the clump position; substitute its entries
                    np_ = L.vec(C(ab(newpos if newpos is not None else mk('ld', LP, 0, kind='v')))); w2 = L.vec(bilinear('mul', mk('app', 'e.conjugate', Q0, kind='q'), se3(MS, POS, 'v')))
                    Rt = T(L.rot(Q0)); off = prod(Rt, np_)
                    g = L.vec(C(got[POS]))
                    ctx.check(all(a is sub(b, c) for a, b, c in zip(g.e, w2.e, off.e)), 'assemble', *where, 'relative position stored: %s' % show(C(got[POS]))[:200])
    ctx.check(done, 'assemble', *where, 'no loop stores the relative placement of all members after the placement of the clump is known')
    ctx.check(full(loc('vel')) is ZERO and full(loc('angVel')) is ZERO, 'assemble', *where, 'the clump does not start at rest')
    I3 = [comp(tp.st.env.get(loc('inertia'), ZERO), const(i)) for i in range(3)]
    fl = tp.st.env.get(mk('L.f', C_, 'Body::flags'))
    if ctx.check(fl is not None, 'assemble', *where, 'the clump is not classified as aspherical or not'):
        for eq in (0, 1, 2):
            # principal moments: all equal / the last differs / the second differs
            vals = [const(3), const(3 if eq != 2 else 4), const(3 if eq != 1 else 5)]
            c = Case(*[(lambda x, a=a: x is a, v) for a, v in zip(I3, vals)] + [(lambda x: x is ld(C_, 'Body::flags'), const(1))])
            r = c(fl); ctx.count('comparisons')
            r = subst(r, lambda x: const(~2) if x.op == 'app' and x.args[0] == 'un~' and x.args[1] is const(2) else None)
            ctx.check(r is const(1 if eq == 0 else 3), 'assemble', *where, 'principal moments %s: the flags of the clump become %s' % (vals, show(r)[:80]))
def is_el(ab, l):
    """the location belongs to the visited entry"""
    x = ab(mk('ld', l, 0)).args[0]
    while x.op in ('L.f', 'addr'): x = x.args[0]
    return x is EL
def outer(x): return [[mul(x[i], x[j]) for j in range(3)] for i in range(3)]
def steiner(m, x):
    d = sumof(mul(y, y) for y in x)
    return [[mul(m, sub(d if i == j else ZERO, mul(x[i], x[j]))) for j in range(3)] for i in range(3)]
SPH = lambda x: x.op in ('eq0',) and any(y.op == 'app' and 'getClassIndex' in str(y.args[0]) for y in subterms(x))
def plain(ctx, where, e, tp, CM, CS, LP, LO, loc, ab, loops, C_, pick):
    L = Lin(hook=lambda x: (L(x.args[1]).map(lambda y: mk('sum', 'members', y)) if x.op == 'sum' and x.args[0] == 'members' else None))
    MS = ld(MB, 'Body::state')
    full = lambda t: ab(pick(t))
    M = full(tp.st.env.get(loc('mass'), ZERO))
    x = L.vec(se3(MS, POS, 'v')).e; R = L.rot(se3(MS, ORI, 'q'))
    dens, rad = None, None
    def contrib(kind):
        """(gate, mass, inertia about own centre)"""
        if kind == 'body': 
            m = ld(MS, 'State::mass'); D = [ld(MS, 'State::inertia', 'v')]
            Iv = L.vec(D[0]).e
            return m, prod(prod(R, Val('m', [[Iv[i] if i == j else ZERO for j in range(3)] for i in range(3)])), T(R)).e
        sh = ld(MB, 'Body::shape'); r = mk('ld', mk('L.f', sh, 'yade::Sphere::radius' if any(y.op == 'L.f' and y.args[1] == 'yade::Sphere::radius' for y in subterms(M)) else 'Sphere::radius'), 0)
        m = mul(mul(const(Fraction(4, 3)), PI(M)), mul(ld(ld(MB, 'Body::material'), 'Material::density'), mul(r, mul(r, r))))
        k = mul(const(Fraction(2, 5)), mul(m, mul(r, r)))
        return m, [[k if i == j else ZERO for j in range(3)] for i in range(3)]
    gate = [y for y in subterms(M) if y.op == 'ite' and SPH(y.args[0])]
    kinds = [('sphere', TRUE), ('body', FALSE)] if gate else [('body', None)]
    J = decomposed(next(eigen_of(tp.st.env[LO])))
    for kind, gv in kinds:
        C = Case((lambda y: gate and y is gate[0].args[0], gv)) if gate else (lambda t: t)
        g = lambda t: C(full(t))
        m, I0 = contrib(kind)
        lab = {'sphere': 'spherical members', 'body': 'members'}[kind]
        Mt = mk('sum', 'members', m)
        ctx.count('comparisons', 3)
        if not ctx.check(g(tp.st.env[loc('mass')]) is Mt, 'assemble', *where, '%s: mass %s, expected the sum of %s' % (lab, show(g(tp.st.env[loc('mass')]))[:160], show(m)[:100])): continue
        want = [div(mk('sum', 'members', mul(m, y)), Mt) for y in x]
        got = L.vec(g(tp.st.env.get(LP, ZERO))).e
        if not ctx.check(got == want, 'assemble', *where, '%s: the centre is not the mass-weighted mean of the positions: %s' % (lab, show(got[0])[:200])): continue
        st = steiner(m, x); K = L.m(g(J)).e
        back = steiner(Mt, want)
        for i in range(3):
            for j in range(i, 3):
                w = sub(mk('sum', 'members', add(I0[i][j], st[i][j])), back[i][j])
                a, b = flatsum(K[i][j]), flatsum(w)
                if not ctx.check(a is b, 'assemble', *where, '%s: inertia entry (%d,%d) about the centre differs: %s, expected %s' % (lab, i, j, show(sub(a, b))[:200], show(b)[:120])): return
                ctx.check(flatsum(K[j][i]) is a, 'assemble', *where, '%s: the decomposed inertia is not symmetric in (%d,%d): %s' % (lab, i, j, show(sub(flatsum(K[j][i]), a))[:300]))
def PI(M):
    for y in subterms(M):
        if y.op in ('L.g', 'ld') and 'PI' in show(y): return y if y.op == 'ld' else mk('ld', y, 0)
    return const(3)
def overlapping(ctx, where, e, tp, CM, CS, LP, LO, loc, ab, loops, C_, pick):
    """totals are accumulated over grid cells: each cell adds m, m x, and its inertia about the origin"""
    M = pick(tp.st.env.get(loc('mass'), ZERO))
    ctx.count('comparisons')
    J = pick(decomposed(next(eigen_of(tp.st.env[LO]))))
    def deltas(t):
        """innermost accumulated terms"""
        return [y for y in subterms(t) if y.op in ('sum', 'sumif') and not any(z.op in ('sum', 'sumif', 'sumx') for w in y.args[1:] for z in subterms(w))]
    dm = deltas(M)
    if len(dm) != 1: ctx.undecided('the mass of overlapping members is not accumulated cell by cell'); return
    m = dm[0].args[1]; lid = dm[0].args[0]
    for info, paths in e.loopruns.get(lid, [])[-1:]:
        for p in paths:
            adds = any(v is not mk('lh', lid, l) and l.op == 'L.var' and any(z is mk('lh', lid, l) for z in subterms(v)) for l, v in p.st.env.items() if isinstance(v, Term))
            ctx.check(not adds or p.end == 'break', 'assemble', *where, 'overlapping members: a cell inside several members is counted several times')
    grid(ctx, where, e, lid, m, CM)
    P = pick(tp.st.env.get(LP, ZERO))
    ds = [y for y in deltas(P) if y.args[0] == lid and y.args[1].kind == 'v']
    if not ctx.check(len(ds) == 1, 'assemble', *where, 'overlapping members: the centre is not accumulated with the mass'): return
    L = Lin()
    # d = m*x: read off x
    X = next((y for y in subterms(ds[0].args[1]) if y.kind == 'v' and y.op in ('lh', 'upd', 'ld', 'hv', 'vec3', 'undef')), None)
    dv = L.vec(ds[0].args[1]).e
    x = [div(y, L.sc(m)) for y in dv]
    ctx.check(X is not None and L.vec(X).e == x, 'assemble', *where, 'overlapping members: the static moment of a cell is not its mass times its position')
    di = [y for y in deltas(J) if y.args[0] == lid and y.args[1].kind == 'm']
    if not ctx.check(len(di) == 1, 'assemble', *where, 'overlapping members: the inertia is not accumulated with the mass'): return
    st = steiner(L.sc(m), x); K = L.m(di[0].args[1]).e
    rest = [[sub(K[i][j], st[i][j]) for j in range(3)] for i in range(3)]
    ok = all((rest[i][j] is ZERO) for i in range(3) for j in range(3) if i != j) and rest[0][0] is rest[1][1] is rest[2][2]
    ctx.check(ok, 'assemble', *where, 'overlapping members: the inertia of a cell about the origin is %s' % show(K[0][1])[:160])
    if ok: ctx.check(rest[0][0] is ZERO or len([z for z in div(rest[0][0], L.sc(m)).args if z]) >= 1 and not any('density' in show(z) for z in subterms(div(rest[0][0], L.sc(m)))), 'assemble', *where, 'overlapping members: the inertia of a cell about its own centre is not proportional to its mass: %s' % show(rest[0][0])[:160])

def isfld(x, n): return x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[1].split('::')[-1] == n
def clsidx(x): return x.op == 'app' and 'getClassIndex' in str(x.args[0])
def sphidx(x): return x.op in ('L.g', 'ld') and 'Sphere' in show(x) and 'getClassIndexStatic' in show(x)
def overlap_test(ctx, where, e, CM, gate):
    """members are taken as overlapping iff two different spheres of the clump interpenetrate noticeably"""
    flags = {x.args[1] for x in subterms(gate) if x.op in ('lo', 'lh') and len(x.args) >= 2 and isinstance(x.args[1], Term) and x.args[1].op == 'L.var'}
    for lid, runs in e.loopruns.items():
        info, paths = runs[-1]
        sets = [p for p in paths if any(p.st.env.get(l) is TRUE for l in flags)]
        if not sets: continue
        ivs = {y.args[0] for p in sets for f in p.facts for y in subterms(f) if y.op == 'iv'}
        if len(ivs) != 2 or not all(visited(e.loopruns[i][-1][0]) is CM for i in ivs if i in e.loopruns): continue
        B1, B2 = sym('B1'), sym('B2'); i1, i2 = sorted(ivs)
        def roles(t):
            t = subst(Abstract({i1}, CM)(t), lambda x: B1 if x is MB else None)
            t = subst(t, lambda x: sym('EL1') if x is EL else sym('id1') if x is EID else sym('i1') if x is sym('i') else None)
            return subst(Abstract({i2}, CM)(t), lambda x: B2 if x is MB else None)
        P = [(p, [roles(f) for f in p.facts]) for p in sets]
        for s1, s2, same, gap, want in ((1, 1, 0, -.5, True), (1, 1, 0, -.02, True), (1, 1, 0, .5, False), (1, 1, 0, .01, False), (0, 1, 0, -.5, False), (1, 0, 0, -.5, False), (1, 1, 1, -1., False)):
            r = (1., 1. if same else 2.); d = 0. if same else r[0] + r[1] + gap; v = (d * .6, 0., -d * .8)
            def o(x):
                if x is B1 or x is B2: return 1 if x is B1 or same else 2
                if x.op in ('ld', 'addr', 'app') and clsidx(x): return 7 if (s1 if any(y is B1 for y in subterms(x)) else s2) else 8
                if sphidx(x): return 7
                if isfld(x, 'radius'): return r[0] if any(y is B1 for y in subterms(x)) else r[1]
                if x.op == 'ld' and fname(x) == POS: return [1., 2., 3.] if any(y is B1 for y in subterms(x)) else [1. + v[0], 2. + v[1], 3. + v[2]]
                if isfld(x, 'first') : return 1 if x is sym('id1') or same else 2
                if x is sym('id1'): return 1
                if x is EID: return 1 if same else 2
                return NotImplemented
            ev = Eval(o); res = False
            for p, fs in P:
                t = True
                for f in fs:
                    if not any(y in (B1, B2, EID, sym('id1')) for y in subterms(f)): continue
                    try:
                        if not ev.truth(f): t = False; break
                    except Unknown: t = None if t else t
                if t is None: res = None; break
                res = res or t
            ctx.count('comparisons')
            if res is None: continue
            ctx.check(res == want, 'assemble', *where, 'overlap of members: %s, %s are taken as %soverlapping' % ('the same member' if same else ' and '.join('a sphere' if s else 'another body' for s in (s1, s2)), 'gap %g' % gap, '' if res else 'not '))
def grid(ctx, where, e, lid, m, CM):
    """cells: a regular grid of equal cells filling the box around all spherical members; a cell counts iff its centre is inside"""
    ab = Abstract({lid}, CM); 
    dg, mn, mx = [3., 4., 5.], [-1., -2., -3.], [2., 2., 2.]
    X = [.25, .5, .75]
    state = {'x': X, 'pos': [0., 0., 0.], 'r': 1., 'sph': True}
    def o(x):
        if x.op == 'app' and x.args[0] in ('e.diagonal', 'e.sizes'): return dg
        if x.op == 'app' and x.args[0] == 'e.min' and len(x.args) == 2: return mn
        if x.op == 'app' and x.args[0] == 'e.max' and len(x.args) == 2: return mx
        if x.op == 'param': return 10
        if x.op in ('lh', 'lo') and x.args[1].op == 'L.var' and x.kind == 'v' or x.op == 'undef': return state['x']
        if x.op == 'app' and clsidx(x): return 7 if state['sph'] else 8
        if sphidx(x): return 7
        if isfld(x, 'density'): return 2.
        if isfld(x, 'radius'): return state['r']
        if x.op == 'ld' and fname(x) == POS: return state['pos']
        return NotImplemented
    near = lambda a, b: abs(a - b) < 1e-9
    step, axes = {}, {}
    for l2, runs in e.loopruns.items():
        info, paths = runs[-1]
        for p in paths:
            for l, v in p.st.env.items():
                if l.op != 'L.var' or v.op != 'upd' or v.kind not in ('v', None) or v.args[1].op != 'c': continue
                k = int(v.args[1].args[0]); own = mk('comp', v.args[0], v.args[1])
                ev = Eval(o)
                try: s = ev(v.args[2]) - state['x'][k]
                except Unknown: continue
                if l in info['entry'] and info['entry'][l].op == 'upd' and info['entry'][l].args[1] is v.args[1]: step[k] = s; axes[k] = (info, l, paths)
    if len(step) != 3: return
    ctx.count('comparisons', 8)
    try:
        vol = Eval(o)(m) / 2.
        ctx.check(near(vol, step[0] * step[1] * step[2]), 'assemble', *where, 'overlapping members: with cells %s apart, a cell of density 2 adds the mass %g' % ([round(step[k], 6) for k in range(3)], vol * 2))
    except Unknown: pass
    ctx.check(all(s > 0 for s in step.values()), 'assemble', *where, 'overlapping members: the cells are not visited in increasing order')
    if not all(s > 0 for s in step.values()): return
    for k, (info, l, paths) in axes.items():
        try:
            a = Eval(o)(info['entry'][l].args[2])
            ctx.check(near(a, mn[k] + step[k] / 2), 'assemble', *where, 'overlapping members: the first cell along axis %d is centred at %g in a box starting at %g with cells of %g' % (k, a, mn[k], step[k]))
        except Unknown: pass
        for off, want in ((-.1, True), (.1, False)):
            state['x'] = [X[i] if i != k else mx[k] + off * step[k] for i in range(3)]; ev = Eval(o); alive = False
            for p in paths:
                ok = True
                for f in p.facts:
                    if not any(y.op == 'lh' and y.args[0] == info['id'] for y in subterms(f)): continue
                    try: ok = ok and ev.truth(f)
                    except Unknown: pass
                alive = alive or ok
            ctx.check(alive == want, 'assemble', *where, 'overlapping members: along axis %d a cell centred %s the end of the box is %s' % (k, 'before' if want else 'behind', 'visited' if alive else 'left out'))
    state['x'] = X
    for info, paths in e.loopruns.get(lid, [])[-1:]:
        for x, pos, r, sph, want in (([.5, .5, .5], [0., 0., 0.], 1., True, True), ([.9, .9, 0.], [0., 0., 0.], 1., True, False), ([0., 0., -.95], [0., 0., 0.], 1., True, True), ([0., 0., -1.05], [0., 0., 0.], 1., True, False),
                                 ([5., 6., 7.], [5., 6., 7.4], .5, True, True), ([5., 6., 7.], [5., 6., 7.6], .5, True, False), ([5., 6., 7.], [5., 6., 7.], .5, False, False)):
            state.update(x=x, pos=pos, r=r, sph=sph); ev = Eval(o); hit = False
            for p in paths:
                adds = any(v is not mk('lh', lid, l) and l.op == 'L.var' and any(z is mk('lh', lid, l) for z in subterms(v)) for l, v in p.st.env.items() if isinstance(v, Term))
                if not adds: continue
                ok = True
                for f in p.facts:
                    f = ab(f)
                    if not any(y is MB for y in subterms(f)): continue
                    try: ok = ok and ev.truth(f)
                    except Unknown: ok = None; break
                if ok is None: hit = None; break
                hit = hit or ok
            ctx.count('comparisons')
            if hit is not None: ctx.check(hit == want, 'assemble', *where, 'overlapping members: a cell centred %g from the centre of a %s of radius %g is %scounted' % (sum((u - w) ** 2 for u, w in zip(x, pos)) ** .5, 'sphere' if sph else 'non-spherical member', r, '' if hit else 'not '))
    # the box encloses every spherical member
    lo, hi, seen = [9e9] * 3, [-9e9] * 3, False
    state.update(pos=[1., 2., 3.], r=.5, sph=True)
    e2 = engine(e.again[0], rec_store=lambda l, s: False, rec_call=lambda q, *a: q.split('::')[-1] == 'extend'); e2.run(e.again[1])
    for l2, (info, paths) in member_loops(e2, CM).items():
        ab2 = Abstract({l2}, CM)
        for p in paths:
            for x in p.events:
                if x.kind != 'call' or x.q.split('::')[-1] != 'extend': continue
                seen = True
                try:
                    if not all(Eval(o).truth(ab2(f)) for f in p.facts if any(y is MB for y in subterms(ab2(f)))): continue
                    v = Eval(o)(ab2(x.args[0]))
                except Unknown: return
                if not isinstance(v, list) or isinstance(v[0], list): return
                lo = [min(a, b) for a, b in zip(lo, v)]; hi = [max(a, b) for a, b in zip(hi, v)]
    ctx.count('comparisons')
    if seen: ctx.check(all(a <= b - .5 + 1e-9 for a, b in zip(lo, state['pos'])) and all(a >= b + .5 - 1e-9 for a, b in zip(hi, state['pos'])), 'assemble', *where, 'overlapping members: the box of the cells, extended for a sphere of radius 0.5 at %s, spans only %s to %s' % (state['pos'], lo, hi))

# ------------------------------------------------------------------ scripting operations
OPQ = {'Clump::add', 'Clump::del', 'Clump::updateProperties', 'Clump::updatePropertiesNonSpherical', 'BodyContainer::erase', 'BodyContainer::insert'}
BP, CL, BC, BID = sym('body'), sym('clump'), sym('itsClump'), sym('bodyId')
class Roles:
    """abstraction of one step of an operation on the body with id `ids`, target clump id `cid`"""
    def __init__(self, isbid, cid=None): self.isbid = isbid; self.cid = cid; self.m = [{}, {}, {}]
    def __call__(self, t):
        t = subst(t, lambda x: BID if self.isbid(x) else None, self.m[0])
        def f(x):
            if x.op == 'ld' and x.args[0].op == 'L.e' and fname(x.args[0].args[0]) == 'BodyContainer::body':
                if x.args[0].args[1] is BID: return BP
                if self.cid is not None and x.args[0].args[1] is self.cid: return CL
            return None
        t = subst(t, f, self.m[1])
        def g(x):
            if x.op == 'ld' and x.args[0].op == 'L.e' and fname(x.args[0].args[0]) == 'BodyContainer::body' and x.args[0].args[1].op == 'ld' and fname(x.args[0].args[1]) == 'Body::clumpId' and base(x.args[0].args[1]) is BP: return BC
            return None
        return subst(t, g, self.m[2])
def fld(q, b): return lambda x: x.op == 'ld' and x.args[0].op == 'L.f' and x.args[0].args[1] == q and x.args[0].args[0] is b
def role_case(role, cid, extra=()):
    """role: alone / clump / member / self (the target clump) / ours (member of the target)"""
    bid = 9 if role == 'self' else 5
    ptr = {'self': 100}.get(role, 101)
    cl = {'alone': -1, 'clump': 5, 'member': 7, 'self': 9, 'ours': 9}[role]
    return Case((fld('Body::id', BP), const(bid)), (fld('Body::clumpId', BP), const(cl)), (fld('Body::id', CL), const(9)), (fld('Body::clumpId', CL), const(9)), (fld('Body::id', BC), const(cl)), (fld('Body::clumpId', BC), const(cl)),
                (lambda x: x.op == 'ld' and x.args[0].op == 'L.g' and str(x.args[0].args[0]).endswith('ID_NONE'), const(-1)), (lambda x: x is BID, const(bid)), (lambda x: cid is not None and x is cid, const(9)), *extra,
                (lambda x: x is BP, const(ptr)), (lambda x: x is CL, const(100)), (lambda x: x is BC, const(100 if role in ('self', 'ours') else 101 if role == 'clump' else 102)))
def strip(a): return mk('ld', a.args[0], 0) if a.op == 'addr' else a
def regroup(ctx, db):
    K = 'pyBodyContainer::'
    def go(nm):
        fs = db.fn(K + nm)
        if not fs: raise AnalysisBroken('no ' + K + nm)
        fn = fs[0]; ctx.count('functions')
        e = engine(db, rec_store=lambda l, s: False, rec_call=lambda q, *a: q in OPQ or q.split('::')[-1] in ('push_back', 'emplace_back', 'insert') and not q.startswith('py'), opaque=OPQ)
        return (fn['file'], fn['line'], fn['q']), [p for p in e.run(fn) if p.end != 'throw']
    # --- addToClump
    where, tops = go('addToClump'); cid = mk('param', 'arg1')
    for tp in tops:
        lp = step_loops(tp)
        if not ctx.check(len(lp) >= 1, 'regroup', *where, 'the bodies given are not visited'): continue
        R0 = Roles(lambda x: False, cid)
        for role in ('alone', 'clump', 'member', 'self', 'ours'):
            evs, case, ok = steps(ctx, where, lp, role, cid)
            if evs is None: continue
            for path in evs:
                adds = [x for x in path if x.q == 'Clump::add']
                lab = ROLE[role]
                if role in ('self', 'ours'):
                    ctx.check(not [x for x in path if x.q in OPQ], 'regroup', *where, '%s: something is done with it' % lab); continue
                want = BC if role == 'member' else BP
                ctx.check(len(adds) == 1 and adds[0].a[0] is CL and (adds[0].a[1] is want or role == 'clump' and adds[0].a[1] in (BP, BC)), 'regroup', *where, '%s: not joined to the clump as documented' % lab)
                if role != 'alone':
                    er = [x for x in path if x.q == 'BodyContainer::erase']
                    ls = [x for x in path if x.q.split('::')[-1] in ('push_back', 'emplace_back', 'insert')]
                    gone = const(5 if role == 'clump' else 7)
                    direct = any(case(x.a[0]) is gone and case(x.a[1]) is FALSE for x in er)
                    listed = [x.o for x in ls if case(x.a[-1]) is gone]
                    later = any(visited(l.info) in listed and all(q.end in ('fall', 'continue') and any(x.kind == 'call' and x.q == 'BodyContainer::erase' and any(y is l.info['iv'] for y in subterms(x.args[0])) and nonzero(x.args[1]) is FALSE for x in q.events) for q in l.paths) for l in loops_of(tp))
                    ctx.check(direct or later, 'regroup', *where, '%s: the absorbed clump is not removed' % lab)
        up = [i for i, x in enumerate(tp.events) if x.kind == 'call' and x.q.startswith('Clump::updateProperties') and R0(strip(x.args[0])) is CL]
        inl = any(x.q.startswith('Clump::updateProperties') for l in lp for q in l.paths for x in q.events if x.kind == 'call')
        ctx.check(inl or any(i > max(tp.events.index(l) for l in lp) for i in up), 'regroup', *where, 'the properties of the clump are not refreshed after bodies joined it')
    ctx.check(len(tops) >= 1, 'regroup', *where, 'no way through the function')
    # --- clump
    where, tops = go('clump')
    for tp in tops:
        lp = step_loops(tp)
        if not ctx.check(len(lp) >= 1, 'regroup', *where, 'the bodies given are not visited'): continue
        new = [x for x in tp.events if x.kind == 'call' and x.q == 'BodyContainer::insert']
        if not ctx.check(len(new) == 1, 'regroup', *where, 'not exactly one new clump is inserted'): continue
        NB = new[0].args[0]
        for role in ('alone', 'clump', 'member'):
            evs, case, ok = steps(ctx, where, lp, role, None)
            if evs is None: continue
            lab = ROLE[role]
            for path in evs:
                adds = [x for x in path if x.q == 'Clump::add']; dels = [x for x in path if x.q == 'Clump::del']
                ctx.check(len(adds) == 1 and adds[0].a[0] is NB and adds[0].a[1] is BP, 'regroup', *where, '%s: not joined to the new clump exactly once' % lab)
                if role == 'member':
                    if not ctx.check(len(dels) == 1 and dels[0].a[0] is BC and dels[0].a[1] is BP and (not adds or path.index(dels[0]) < path.index(adds[0])), 'regroup', *where, '%s: not released from its clump first' % lab): continue
                    rest = path[path.index(dels[0]):]
                    er = any(x.q == 'BodyContainer::erase' and case(x.a[0]) is const(7) and nonzero(x.a[1]) is FALSE for x in rest); up = any(x.q.startswith('Clump::updateProperties') and x.a[0] is BC for x in rest)
                    ctx.check(er or up, 'regroup', *where, '%s: the clump it leaves is neither removed (when emptied) nor refreshed' % lab)
                    if er and not up: ctx.check(any(emptied(f) for x in [path.src] for f in x), 'regroup', *where, '%s: the clump it leaves is removed although it may have members left' % lab)
                    if up and not er: ctx.check(any(bnot(f) is not None and emptied(bnot(f)) for x in [path.src] for f in x), 'regroup', *where, '%s: a clump left without members is kept' % lab)
                else: ctx.check(not dels, 'regroup', *where, '%s: released from a clump it is not member of' % lab)
                if role == 'clump': ctx.check(any(x.q == 'BodyContainer::erase' and case(x.a[0]) is const(5) and nonzero(x.a[1]) is FALSE for x in (path[path.index(adds[0]):] if adds else [])), 'regroup', *where, '%s: the absorbed clump is not removed' % lab)
        last = max(tp.events.index(l) for l in lp)
        ctx.check(any(x.kind == 'call' and x.q.startswith('Clump::updateProperties') and x.args[0] is NB for x in tp.events[last:]), 'regroup', *where, 'the properties of the new clump are not set after all bodies joined')
    # --- releaseFromClump
    where, tops = go('releaseFromClump'); bid, cid = mk('param', 'arg0'), mk('param', 'arg1')
    R = Roles(lambda x: x is bid, cid)
    for role, n in itertools.product(('alone', 'clump', 'member', 'self', 'ours'), (2, 3, 7)):
        case = role_case(role, cid, [(lambda x: x.op == 'app' and x.args[0] == 'size', const(n))])
        fe = [p for p in tops if case.feasible([R(f) for f in p.facts])]
        ctx.count('cases')
        if not fe: ctx.undecided('releaseFromClump: no path for ' + role); continue
        for p in fe:
            ev = [x for x in p.events if x.kind == 'call' and x.q in OPQ]
            if role != 'ours' or n == 2: ctx.check(not ev, 'regroup', *where, 'releasing %s (clump of %d): something is done' % (ROLE[role], n)); continue
            d = [x for x in ev if x.q == 'Clump::del']; u = [x for x in ev if x.q.startswith('Clump::updateProperties')]
            ctx.check(len(d) == 1 and R(strip(d[0].args[0])) is CL and R(strip(d[0].args[1])) is BP, 'regroup', *where, 'the body is not released')
            ctx.check(bool(u) and d and ev.index(u[-1]) > ev.index(d[0]) and R(strip(u[-1].args[0])) is CL, 'regroup', *where, 'the properties of the clump are not refreshed after a member left')
ROLE = {'alone': 'a body standing alone', 'clump': 'another clump', 'member': 'a member of another clump', 'self': 'the clump itself', 'ours': 'a member of this clump'}
def emptied(f):
    """the fact says that a member table is empty"""
    return f.op == 'not' and f.args[0].op == 'nn' and f.args[0].args[0].op == 'app' and f.args[0].args[0].args[0] == 'size' and fname(f.args[0].args[0].args[1]) == 'Clump::members'
def step_loops(tp):
    """loops over the list of ids given (the first parameter)"""
    out = []
    for l in loops_of(tp):
        c = visited(l.info)
        if c is not None and any((x.op == 'param' or x.op == 'L.var') and x.args[0] == 'arg0' for x in subterms(c)) and any(x.kind == 'call' and x.q in OPQ for q in l.paths for x in q.events): out.append(l)
    return out
class Step:
    def __init__(s, x, R): s.q = x.q; s.a = [R(strip(a)) for a in x.args]; s.o = x.obj
class Seq(list): pass
def steps(ctx, where, lp, role, cid):
    """event sequences for one body of the given role: the feasible iteration paths of each loop over the ids, chained"""
    chains = [Seq()]; chains[0].src = []
    case = role_case(role, cid)
    for l in lp:
        R = Roles(lambda x: x.op == 'ld' and x.args[0].op == 'L.e' and x.args[0].args[1] is l.info['iv'] and x.args[0].args[0] is visited(l.info) or (x.op == 'ld' and x.args[0].op == 'L.d' and x.args[0].args[0].op == 'it' and x.args[0].args[0].args[1] is l.info['iv']), cid)
        # a body that was a member has been released by the time a later loop adds it
        c2 = role_case('alone' if role == 'member' and any(x.q == 'Clump::del' for ch in chains for x in ch) else role, cid)
        fe = [q for q in l.paths if q.end != 'throw' and c2.feasible([R(f) for f in q.facts])]
        if not fe: ctx.undecided('%s: no path for %s' % (where[2], ROLE[role])); return None, None, False
        for q in fe: ctx.check(q.end in ('fall', 'continue'), 'regroup', *where, '%s ends the operation: the bodies after it are not treated and nothing is finished' % ROLE[role])
        nxt = []
        for ch in chains:
            for q in fe:
                s = Seq(ch + [Step(x, R) for x in q.events if x.kind == 'call']); s.src = ch.src + list(q.facts); nxt.append(s)
        chains = nxt
    ctx.count('cases', len(chains))
    return chains, case, True
