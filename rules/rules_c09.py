"""C09: the periodic cell.  Every operation on the cell is summarised with helpers expanded; its end state and results are
compared entry by entry with the definitions of a lattice of repeated cells."""
import itertools, re
from kit import *
from lin import *
RULES = {
 'update': 'one update of the cell multiplies base vectors and total transformation by (identity + dt * velocity gradient) and remembers the previous base vectors',
 'cache': 'whenever the base vectors or the transformation are changed, all derived quantities (lengths, skew transformation and its inverse, presence of skew, inverse transformation) are those of the final values; a cell without volume is refused',
 'set': 'assignments give the cell exactly the shape or transformation asked for; a new velocity gradient is deferred to the integrator',
 'wrap': 'wrapping a point subtracts whole numbers of cells, rounded down, and reports exactly these numbers',
 'shift': 'the image of a body across cells is displaced by the base vectors times the number of cells, and moves with the velocity gradient applied to the previous base vectors',
 'flip': 'flipping the cell keeps the lattice of images: base vectors change by an integer matrix of unit determinant, and every interaction keeps the same image (base vectors times cell distance); the collider is told to start anew',
 'strain': 'strain measures and volume follow their definitions from the total transformation and the base vectors',
 'owner': 'nobody changes base vectors or transformation from outside without the derived quantities being recomputed',
}
EXPLAIN = 'Gated value-numbering of all methods of the cell and of its users that change it; matrices are compared entry by entry in a polynomial normal form; the presence of skew is decided over a finite set of representative shapes.'
ASSUMES = ['real arithmetic', 'Eigen computes inverses of regular matrices', 'cell lengths are not zero']
FILES = ['core/Cell.cpp', 'core/Scene.cpp', 'pkg/dem/Shop_01.cpp']
def sym(n, k='s'): return mk('sym', n, kind=k)
THIS = mk('this')
def cf(o, n, k='m'): return mk('ld', mk('L.f', o, 'Cell::' + n), 0, kind=k)
def cl(o, n): return mk('L.f', o, 'Cell::' + n)

def run(ctx):
    db = DB([f for f in FILES if os.path.exists(os.path.join(REPO, f))]); db.require_clean()
    ms = [f for k, f in db.fns.items() if f['q'].startswith('Cell::') and f['q'].count('::') == 1 and f.get('body') and not f['q'].split('::')[1].startswith(('~', 'py', 'serialize', 'operator'))]
    done = {}
    for f in ms:
        nm = f['q'].split('::')[1]
        if nm in ('Cell', 'getBaseClassNumber', 'getClassName', 'checkPyClassRegistersItself', 'computePolarDecOfDefGrad', 'fillGlShearTrsfMatrix') or nm.startswith('_'): continue
        e = engine(db, rec_store=lambda l, s: False, rec_call=lambda *a: False)
        try: ps = e.run(f)
        except Exception as ex:
            if nm in SPEC or nm in RESULT: raise
            continue
        ctx.count('methods'); done.setdefault(nm, []).append((f, ps))
        this = next((root(l) for p in ps for l in p.st.env if l.op == 'L.f' and root(l).op == 'this'), None)
        if nm not in ('integrateAndUpdate',):
            for p in ps:
                if this is None or p.end == 'throw': continue
                if cl(this, 'hSize') in p.st.env or cl(this, 'trsf') in p.st.env: caches(ctx, (f['file'], f['line'], f['q']), p, this)
    for nm in ('integrateAndUpdate', 'postLoad', 'setHSize', 'setBox', 'setTrsf', 'wrapPt', 'wrapShearedPt', 'intrShiftPos', 'intrShiftVel'):
        if nm not in done: raise AnalysisBroken('no Cell::' + nm)
    update(ctx, done['integrateAndUpdate'])
    sets(ctx, done); results(ctx, done); wraps(ctx, done)
    flip(ctx, db); owner(ctx)
    ctx.floor('comparisons', 40)

def same(ctx, L, got, want, rule, where, msg):
    ctx.count('comparisons')
    if got is None: ctx.check(False, rule, *where, msg + ': not set'); return False
    try: g, w = (L(got) if isinstance(got, Term) else got), (L(want) if isinstance(want, Term) else want)
    except Shape as ex: ctx.undecided('%s: %s' % (msg, ex)); return False
    if g.k == 's' and g.e is ZERO: g = zero(w.k)
    if w.k == 's' and w.e is ZERO: w = zero(g.k)
    if isinstance(got, Term) and g.k == 's' and w.k != 's': g = leaf(got, w.k)
    if not ctx.check(g.k == w.k, rule, *where, '%s: a %s instead of a %s' % (msg, g.k, w.k)): return False
    for i, (x, y) in enumerate(zip(g.flat(), w.flat())):
        if not ctx.check(x is y, rule, *where, '%s (entry %d): got %s, expected %s' % (msg, i, show(x)[:140], show(y)[:140])): return False
    return True
def end(p, l, kind='m'): return p.st.env.get(l, mk('ld', l, 0, kind=kind))
def caches(ctx, where, p, o):
    L = Lin()
    try: H = L.m(end(p, cl(o, 'hSize'))); F = L.m(end(p, cl(o, 'trsf')))
    except Shape as ex: ctx.undecided('%s: %s: %s' % (where[2], ex, show(end(p, cl(o, 'hSize')))[:100])); return
    n = [L.norm(Val('v', [H.e[i][j] for i in R3])) for j in R3]
    S = Val('m', [[div(H.e[i][j], n[j]) for j in R3] for i in R3])
    env = p.st.env
    same(ctx, L, env.get(cl(o, '_size')), Val('v', n), 'cache', where, 'lengths of the base vectors')
    same(ctx, L, env.get(cl(o, '_shearTrsf')), S, 'cache', where, 'skew transformation')
    same(ctx, L, env.get(cl(o, '_unshearTrsf')), minv(S), 'cache', where, 'inverse of the skew transformation')
    same(ctx, L, env.get(cl(o, '_invTrsf')), minv(F), 'cache', where, 'inverse of the total transformation')
    ctx.check(any(isdet(L, x, H) for x in p.facts), 'cache', *where, 'a cell without volume is not refused')
    gl = {i: v for l, v in env.items() if l.op == 'L.e' and fname(l.args[0]) == 'Cell::_glShearTrsfMatrix' and l.args[1].op == 'c' for i in [int(l.args[1].args[0])]}
    if gl: ctx.check(all(L.sc(gl.get(4 * j + i, mk('undef', 0))) is S.e[i][j] for i in R3 for j in R3), 'cache', *where, 'the display matrix is not the skew transformation')
def minv(m): return Val('m', [[mk('minv', *m.flat(), const(i), const(j)) for j in R3] for i in R3])
def isdet(L, f, H):
    d = mdet(H)
    for x in subterms(f):
        if x.kind == 's' and x.op in ('app', 'poly', 'mul') :
            try: v = L.sc(x)
            except Shape: continue
            if v is d or v is neg(d): return True
    return False
def update(ctx, fs):
    for f, ps in fs:
        setparams(f)
        where = (f['file'], f['line'], f['q']); dt = mk('param', 'arg0'); n = 0
        for p in ps:
            if p.end == 'throw': continue
            n += 1; L = Lin(); o = THIS
            o = next(root(l) for l in p.st.env if l.op == 'L.f')
            G, H, F = (cf(o, x) for x in ('velGrad', 'hSize', 'trsf'))
            inc = lambda X: plus(L.m(X), prod(Val('s', dt), prod(L.m(G), L.m(X))))
            same(ctx, L, p.st.env.get(cl(o, 'hSize')), inc(H), 'update', where, 'base vectors')
            same(ctx, L, p.st.env.get(cl(o, 'trsf')), inc(F), 'update', where, 'total transformation')
            same(ctx, L, p.st.env.get(cl(o, 'prevHSize')), L.m(H), 'update', where, 'previous base vectors')
            same(ctx, L, p.st.env.get(cl(o, '_vGradTimesPrevH')), prod(L.m(G), L.m(H)), 'update', where, 'velocities of images')
            same(ctx, L, end(p, cl(o, 'velGrad')), L.m(G), 'update', where, 'velocity gradient')
            caches(ctx, where, p, o)
            # presence of skew: representative shapes before and after
            hs = p.st.env.get(cl(o, '_hasShear'))
            if not ctx.check(hs is not None, 'cache', *where, 'presence of skew is not recomputed'): continue
            hs = L.s(hs) if hs.kind == 's' else hs
            b = lambda: None
            offs = [(i, j) for i in R3 for j in R3 if i != j]
            trials = [({}, {x: 1}, 1) for x in offs] + [({x: 1}, {x: -1}, 0) for x in offs] + [({}, {}, 0), ({}, {(0, 0): 1}, 0), ({}, {(1, 1): 2, (2, 2): 3}, 0)]
            for h, g, want in trials:
                ctx.count('shapes')
                Hn = [[Fraction(h.get((i, j), 1 if i == j else 0)) for j in R3] for i in R3]; Gn = [[Fraction(g.get((i, j), 0)) for j in R3] for i in R3]
                def rep(x):
                    if x is dt: return ONE
                    if x.op == 'comp' and x.args[1].op == 'ij' and x.args[0] in (H, G): M = Hn if x.args[0] is H else Gn; return mk('c', M[int(x.args[1].args[0].args[0])][int(x.args[1].args[1].args[0])])
                    if x.op == 'comp' and x.args[0].op == 'mul': r = L(x); return subst(r.e, rep) if r.k == 's' and r.e is not x else None
                    return None
                v = subst(hs, rep)
                if v.op != 'c' and v not in (TRUE, FALSE): v = nonzero(v)
                v = TRUE if v is ONE else FALSE if v is ZERO else v
                if not ctx.check(v is (TRUE if want else FALSE), 'cache', *where, 'presence of skew for base vectors %s is %s' % ([[int(a + sum(gg * Hn[k][j] for k, gg in enumerate(gr))) for j, a in enumerate(r)] for r, gr in zip(Hn, Gn)], show(v)[:80])): break
        ctx.check(n >= 1, 'update', *where, 'the update never completes')
A = lambda i, k: mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0, kind=k)
SPEC = ('setHSize', 'setBox', 'setBox3', 'setTrsf', 'setSize', 'setVelGrad', 'postLoad', 'setRefSize')
def sets(ctx, done):
    for nm in SPEC:
        for f, ps in done.get(nm, []):
            setparams(f)
            where = (f['file'], f['line'], f['q']); n = 0
            for p in ps:
                if p.end == 'throw': continue
                o = next((root(l) for l in p.st.env if l.op == 'L.f' and root(l).op == 'this'), None)
                if o is None: ctx.check(False, 'set', *where, 'changes nothing'); continue
                n += 1; L = Lin(); H0, F0, G0 = (cf(o, x) for x in ('hSize', 'trsf', 'velGrad'))
                Hn, Fn, Gn = end(p, cl(o, 'hSize')), end(p, cl(o, 'trsf')), end(p, cl(o, 'velGrad'))
                I = Val('m', [[ONE if i == j else ZERO for j in R3] for i in R3])
                diag = lambda v: Val('m', [[v[i] if i == j else ZERO for j in R3] for i in R3])
                wantH, wantF = L.m(H0), L.m(F0)
                if nm == 'setHSize': wantH = L.m(A(0, 'm'))
                if nm in ('setBox', 'setRefSize'): wantH = diag(L.vec(A(0, 'v')).e); wantF = I
                if nm == 'setBox3': wantH = diag([A(i, 's') for i in R3]); wantF = I
                if nm == 'setTrsf': wantF = L.m(A(0, 'm'))
                if nm == 'setSize':
                    h = L.m(H0); s = L.vec(A(0, 'v')).e; nn = [L.norm(Val('v', [h.e[i][j] for i in R3])) for j in R3]
                    wantH = Val('m', [[mul(h.e[i][j], mul(s[j], inv(nn[j]))) for j in R3] for i in R3])
                same(ctx, L, Hn, wantH, 'set', where, 'base vectors'); same(ctx, L, Fn, wantF, 'set', where, 'total transformation'); same(ctx, L, Gn, L.m(G0), 'set', where, 'velocity gradient')
                if nm == 'setVelGrad':
                    same(ctx, L, p.st.env.get(cl(o, 'nextVelGrad')), L.m(A(0, 'm')), 'set', where, 'the deferred velocity gradient')
                    v = p.st.env.get(cl(o, 'velGradChanged')); ctx.check(v is not None and (v is TRUE or v is ONE), 'set', *where, 'the deferred velocity gradient is not marked as pending')
                elif nm != 'postLoad' and nm != 'setTrsf': same(ctx, L, end(p, cl(o, 'refHSize')), wantH, 'set', where, 'reference base vectors')
            ctx.check(n >= 1, 'set', *where, 'the assignment never succeeds')
RESULT = {
 'intrShiftPos': ('shift', lambda L, o: prod(L.m(cf(o, 'hSize')), L.vec(A(0, 'v')))),
 'intrShiftVel': ('shift', lambda L, o: prod(L.m(cf(o, '_vGradTimesPrevH')), L.vec(A(0, 'v')))),
 'bodyFluctuationVel': ('shift', lambda L, o: plus(L.vec(A(1, 'v')), prod(L.m(A(2, 'm')), L.vec(A(0, 'v'))).map(neg))),
 'shearPt': ('wrap', lambda L, o: prod(L.m(cf(o, '_shearTrsf')), L.vec(A(0, 'v')))),
 'unshearPt': ('wrap', lambda L, o: prod(L.m(cf(o, '_unshearTrsf')), L.vec(A(0, 'v')))),
 'getHSize': ('strain', lambda L, o: L.m(cf(o, 'hSize'))), 'getTrsf': ('strain', lambda L, o: L.m(cf(o, 'trsf'))), 'getDefGrad': ('strain', lambda L, o: L.m(cf(o, 'trsf'))),
 'getVelGrad': ('strain', lambda L, o: L.m(cf(o, 'velGrad'))), 'getSize_copy': ('strain', lambda L, o: L.vec(cf(o, '_size', 'v'))),
 'getHSize0': ('strain', lambda L, o: prod(L.m(cf(o, '_invTrsf')), L.m(cf(o, 'hSize')))),
 'getVolume': ('strain', lambda L, o: Val('s', mdet(L.m(cf(o, 'hSize'))))),
 'getSmallStrain': ('strain', lambda L, o: lc(L, (Fraction(1, 2), L.m(cf(o, 'trsf'))), (Fraction(1, 2), T(L.m(cf(o, 'trsf')))), (-1, 'I'))),
 'getRCauchyGreenDef': ('strain', lambda L, o: prod(T(L.m(cf(o, 'trsf'))), L.m(cf(o, 'trsf')))),
 'getLCauchyGreenDef': ('strain', lambda L, o: prod(L.m(cf(o, 'trsf')), T(L.m(cf(o, 'trsf'))))),
 'getLagrangianStrain': ('strain', lambda L, o: lc(L, (Fraction(1, 2), prod(T(L.m(cf(o, 'trsf'))), L.m(cf(o, 'trsf')))), (-Fraction(1, 2), 'I'))),
 'getEulerianAlmansiStrain': ('strain', lambda L, o: lc(L, (Fraction(1, 2), 'I'), (-Fraction(1, 2), minv(prod(L.m(cf(o, 'trsf')), T(L.m(cf(o, 'trsf')))))))),
 'getSpin': ('strain', lambda L, o: spin(L.m(cf(o, 'velGrad')))),
}
def spin(G): return Val('v', [scale(sub(G.e[k][j], G.e[j][k]), Fraction(1, 2)) for j, k in ((1, 2), (2, 0), (0, 1))])
def lc(L, *ts):
    r = zero('m')
    for c, m in ts:
        if isinstance(m, str): m = Val('m', [[ONE if i == j else ZERO for j in R3] for i in R3])
        r = plus(r, m.map(lambda x: scale(x, Fraction(c))))
    return r
def results(ctx, done):
    for nm, (rule, want) in RESULT.items():
        for f, ps in done.get(nm, []):
            setparams(f)
            where = (f['file'], f['line'], f['q'])
            o = next((x for p in ps if p.val is not None for x in subterms(p.val) if x.op == 'this'), THIS)
            for p in ps:
                L = Lin()
                if not ctx.check(p.end == 'return' and p.val is not None, rule, *where, 'no result'): continue
                same(ctx, L, p.val, want(L, o), rule, where, 'result')
                ctx.check(not any(l.op == 'L.f' and root(l).op == 'this' for l in p.st.env), rule, *where, 'changes the cell')
def wraps(ctx, done):
    fl = lambda x: mk('app', 'floor', x)
    for nm in ('wrapNum', 'wrapPt', 'wrapShearedPt', 'wrapPt_py', 'wrapShearedPt_py'):
        for f, ps in done.get(nm, []):
            setparams(f)
            where = (f['file'], f['line'], f['q'])
            for p in ps:
                ctx.count('comparisons'); L = Lin()
                if not ctx.check(p.end == 'return', 'wrap', *where, 'no result'): continue
                o = next((x for x in subterms(p.val) if x.op == 'this'), THIS)
                if nm == 'wrapNum':
                    x, s = A(0, 's'), A(1, 's'); per = fl(div(x, s))
                    ctx.check(p.val is sub(x, mul(s, per)), 'wrap', *where, 'a number is wrapped to %s' % show(p.val)[:140])
                    if len(f['params']) == 3: ctx.check(p.st.env.get(mk('L.d', mk('param', 'arg2'))) is per, 'wrap', *where, 'the number of periods reported is %s' % show(p.st.env.get(mk('L.d', mk('param', 'arg2')), ZERO))[:120])
                    continue
                s = L.vec(cf(o, '_size', 'v')).e
                u = L.vec(A(0, 'v')).e if 'Sheared' not in nm else prod(L.m(cf(o, '_unshearTrsf')), L.vec(A(0, 'v'))).e
                per = [fl(div(u[i], s[i])) for i in R3]
                w = Val('v', [sub(u[i], mul(s[i], per[i])) for i in R3])
                if 'Sheared' in nm: w = prod(L.m(cf(o, '_shearTrsf')), w)
                norm = lambda v: v.map(lambda t: subst(t, lambda x: fl(L.sc(x.args[1])) if x.op == 'app' and x.args[0] == 'floor' else None))
                same(ctx, L, norm(L(p.val)), norm(w), 'wrap', where, 'wrapped point')
                if len(f['params']) == 2:
                    v = p.st.env.get(mk('L.d', mk('param', 'arg1')))
                    if ctx.check(v is not None, 'wrap', *where, 'the periods are not reported'): same(ctx, L, norm(L(v)), norm(Val('v', per)), 'wrap', where, 'number of periods reported')

# ------------------------------------------------------------------ flipping
def flip(ctx, db):
    fs = db.fn('Shop::flipCell')
    if not fs: raise AnalysisBroken('no Shop::flipCell')
    for f in fs:
        where = (f['file'], f['line'], f['q']); ctx.count('methods')
        UPD = {'Cell::integrateAndUpdate', 'Cell::postLoad'}
        e = engine(db, opaque=UPD, rec_store=lambda l, s: l.op == 'L.f' and l.args[1] in ('Cell::hSize', 'Cell::trsf', 'Interaction::cellDist'), rec_call=lambda q, *a: q in UPD or q.endswith('::invalidatePersistentData'))
        for p in e.run(f):
            st = [(i, x) for i, x in enumerate(p.events) if x.kind == 'store' and fname(x.obj) in ('Cell::hSize', 'Cell::trsf')]
            loops = loops_of(p)
            cd = [(l, x) for l in loops for q in l.paths for x in q.events if x.kind == 'store' and fname(x.obj) == 'Interaction::cellDist']
            if not st:
                ctx.check(not cd, 'flip', *where, 'interactions are changed but the cell is not'); continue
            if p.end == 'throw': ctx.check(False, 'flip', *where, 'refused after the base vectors have been changed'); continue
            ctx.count('flip_paths')
            ctx.check(all(fname(x.obj) == 'Cell::hSize' for _, x in st), 'flip', *where, 'the total transformation is changed')
            ctx.check(any(x.kind == 'call' and x.q in UPD and (not x.args or x.q.endswith('postLoad') or x.args[0] is ZERO) for x in p.events[st[-1][0]:]), 'flip', *where, 'derived quantities are not recomputed')
            H0 = mk('ld', st[0][1].obj, 0, kind='m'); L = Lin()
            # every rounding result is some integer
            names = {}
            def num(x):
                if x.op == 'app' and x.args[0] in ('floor', 'ceil', 'round', 'rint', 'lround'): return names.setdefault(x.id, sym('n%d' % len(names)))
                return None
            ident = Val('m', [[ONE if i == j else ZERO for j in R3] for i in R3])
            LI = Lin(lambda x: ident if x is H0 else None)
            try: Fm = LI.m(subst(st[-1][1].val, num))
            except Shape as ex: ctx.undecided('flip: %s' % ex); continue
            ints = all(isint(t, names) for t in Fm.flat())
            ctx.check(ints, 'flip', *where, 'base vectors do not change by an integer matrix')
            lin = LI_linear(st[-1][1].val, H0, num)
            ctx.check(lin, 'flip', *where, 'the new base vectors are not combinations of the old ones')
            det = mdet(Fm)
            detone = det is ONE
            if not detone:
                for fct in p.facts:
                    g = subst(fct, num)
                    if any(x.kind == 's' and x.op in ('poly', 'app') and same_det(LI, x, det) for x in subterms(g)) and holds_one(g, LI, det): detone = True
            ctx.check(detone, 'flip', *where, 'nothing makes the determinant of the flip one (it is %s)' % show(det)[:120])
            if not ctx.check(bool(cd), 'flip', *where, 'cell distances of interactions are not adapted'): continue
            for l, x in cd:
                ctx.check(visited(l.info) is not None and all(q.end in ('fall', 'continue') for q in l.paths) and all(any(y.kind == 'store' and fname(y.obj) == 'Interaction::cellDist' for y in q.events) for q in l.paths) and not l.info.get('gated'), 'flip', *where, 'not every interaction is adapted')
                c0 = mk('ld', x.obj, 0, kind='v'); LJ = Lin(lambda y: ident if y is H0 else None)
                c0 = next((y for y in subterms(x.val) if y.op == 'ld' and fname(y) == 'Interaction::cellDist' and y.args[0] is x.obj), c0)
                new = LJ.vec(subst(x.val, num)); img = prod(Fm, new); ctx.count('comparisons')
                want = LJ.vec(c0)
                for a, b in zip(img.e, want.e):
                    ok = a is b or a is mul(det, b)
                    if not ctx.check(ok, 'flip', *where, 'an interaction does not keep its image: base vectors times cell distance becomes %s instead of %s' % (show(a)[:100], show(b)[:60])): break
            inval = [(l, q, x) for l in loops for q in l.paths for x in q.events if x.kind == 'call' and x.q.endswith('::invalidatePersistentData')]
            ctx.check(bool(inval), 'flip', *where, 'the collider is not told')
            for l, q, x in inval: ctx.check(visited(l.info) is not None and fname(visited(l.info)) == 'Scene::engines', 'flip', *where, 'not every engine is asked for being a collider')
    ctx.floor('flip_paths', 1)
def isint(t, names):
    for c, m in poly_items(t):
        if c.denominator != 1: return False
        for y in m:
            if y.op == 'sym': continue
            if y.op == 'comp' or (y.op == 'app' and str(y.args[0]) in ('toint', 'cast')): continue
            return False
    return True
def LI_linear(v, H0, num):
    """each entry of the new base vectors is linear in the old ones and rows do not mix"""
    L = Lin(); M = L.m(subst(v, num)); h = L.m(H0)
    for i in R3:
        for j in R3:
            for c, m in poly_items(M.e[i][j]):
                hs = [y for y in m if any(y is h.e[a][b] for a in R3 for b in R3)]
                if len(hs) != 1 or not any(hs[0] is h.e[i][b] for b in R3): return False
    return True
def same_det(L, x, det):
    try: v = L.sc(x)
    except Shape: return False
    return v is det or v is sub(det, ONE) or v is sub(ONE, det)
def holds_one(g, L, det):
    """fact g says det == 1"""
    x, posv = g, True
    while x.op == 'not': x, posv = x.args[0], not posv
    if x.op in ('eq0', 'nonzero', 'ne0', 'b'):
        t = x.args[0]; isz = (x.op == 'eq0') == posv
        try: v = L.sc(t)
        except Shape: return False
        return isz and (v is sub(det, ONE) or v is sub(ONE, det))
    return False

def owner(ctx):
    from rules_c01 import writes
    pat = re.compile(rb'(->|\.)\s*(hSize|trsf)\b[^;]{0,40}?(=[^=]|\+\+|--)|&\s*\w+\s*=\s*[^;]*(->|\.)\s*(hSize|trsf)\s*;')
    files = sorted(x for x in sources() if b'cell' in file_bytes(os.path.join(REPO, x)) and pat.search(file_bytes(os.path.join(REPO, x))) and not x.endswith('Cell.hpp'))
    db = DB(files); ctx.setc('writer_files', len(files)); n = 0
    for k, f in list(db.fns.items()):
        if not f.get('body') or f['q'].startswith('Cell::'): continue
        ws = [nd for q, nd in writes(f) if q in ('Cell::hSize', 'Cell::trsf')]
        if not ws: continue
        n += 1; ctx.count('methods')
        UPD = {'Cell::integrateAndUpdate', 'Cell::postLoad'}
        e = engine(db, opaque=UPD, rec_store=lambda l, s: l.op == 'L.f' and l.args[1] in ('Cell::hSize', 'Cell::trsf'), rec_call=lambda q, *a: q in UPD)
        for p in e.run(f):
            last = max([i for i, x in enumerate(p.events) if x.kind == 'store'] or [-1])
            if last >= 0: ctx.check(any(x.kind == 'call' for x in p.events[last:]), 'owner', f['file'], f['line'], f['q'], 'changes base vectors or transformation without recomputing what depends on them')
    ctx.setc('outside_writers', n)
