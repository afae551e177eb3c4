"""C06: one step runs every live, due engine once and in order, and advances the clock once."""
from kit import *
from rules_c01 import writes
RULES = {
 'sequence': 'for every ordering of the sub-step counter against the ends of the engine list, sub-stepping or not, periodic or not: the paths of a step perform exactly the specified items (cell update, engine k, clock) in the specified order, once each',
 'engine': 'an engine\'s action is called exactly when it is not dead and reports to be due, after it was bound to the simulation; no engine is skipped for another reason',
 'clock': 'a completed step increments the step number by one and the time by the time step, and leaves the sub-step counter at its rest value',
 'swap': 'a replaced engine list comes into force exactly between two steps, and the pending list is then emptied; replacing the list inside a step never touches the running list',
 'periodic': 'a periodic engine is due exactly when a positive period has elapsed since it last ran and its limit is not reached, or at its first run when asked to; being due records now as the last run and counts it, not being due changes nothing except for starting the count',
 'due': 'the other engines report to be due by their own activity flag or interval only, and recorders only when the periodic condition holds',
 'nested': 'groups of engines run every member that is not dead and due, in order within a group',
 'loop': 'continuous running performs whole steps and asks to stop when the requested step number or time is reached',
 'owner': 'the step number and the sub-step counter are written by the step itself and by the explicit reset only',
}
EXPLAIN = ('Per-path effect sequences of the step function, of the engine groups and of the activation predicates, evaluated over the finite set of orderings of the sub-step counter, the engine count and the flags they branch on; who-writes query for the counters.')
ASSUMES = ['an engine that throws aborts the step (the simulation thread reports it)', 'engines that themselves advance the clock (Runge-Kutta integrator, two-phase flow) do so by design and are not covered']
S = 'Scene'
ENG, NXT = S + '::engines', S + '::_nextEngines'
TH = mk('this')
def run(ctx):
    db = DB(['core/Scene.cpp', 'core/SimulationFlow.cpp', 'core/Omega.cpp', 'pkg/common/ParallelEngine.cpp', 'pkg/dem/Integrator.cpp', 'pkg/dem/GlobalStiffnessTimeStepper.cpp', 'pkg/dem/UniaxialStrainer.cpp', 'pkg/dem/ForceTorqueRecorder.cpp']); db.require_clean()
    step(ctx, db); periodic(ctx, db); due(ctx, db); nested(ctx, db); flow(ctx, db); owner(ctx)

def elem_of(x, fields=(ENG, NXT)):
    """k if x is (the pointer stored in) element k of the engine list"""
    e = elem(x)
    if e and fname(e[0]) in fields: return e[1]
    if x.op == 'addr': return elem_of(x.args[0], fields)
    return None
def relevant(p):
    for e in p.events:
        if e.kind in ('loop', 'inloop'):
            if any(relevant(q) for q in e.paths): return True
        elif token(e): return True
    return False
def token(e):
    if e.kind == 'call':
        if e.q.endswith('Cell::integrateAndUpdate'): return ('cell', e.args[0])
        if e.q.endswith('::action'): return ('act', e.obj)
        if e.q.endswith('::isActivated'): return ('due', e.obj)
        if e.q == 'std::clear' and e.obj is not None and fname(e.obj) == NXT: return ('clearnext',)
    if e.kind == 'store':
        f = fname(e.obj)
        if f in (S + '::iter', S + '::time', S + '::subStep', ENG, NXT): return ('set', f, e.val)
        if f == 'Engine::scene': return ('bind', base(e.obj), e.val)
    return None
def expand(p, case, cur):
    """slots of the path under the representatives: list of lists of alternatives (facts, tokens)"""
    out = []
    for e in p.events:
        if e.kind in ('loop', 'inloop'):
            if not any(relevant(q) for q in e.paths): continue
            if any(q.end in ('break', 'return', 'throw', 'goto') and relevant(q) for q in e.paths): out.append([((), [('exit', e.line)])]); continue
            if any(q.end in ('break', 'return') and case.feasible(q.facts) and q.facts != p.facts for q in e.paths): out.append([((), [('exit', e.line)])]); continue
            lo, hi, cmp, st = e.info['lo'], e.info['hi'], e.info['cmp'], e.info['step']
            if lo is None or hi is None: out.append([((), [('unbounded', e.line)])]); continue
            if lo.op == 'it': lo = lo.args[1]
            if hi.op == 'it': hi = hi.args[1]
            lo, hi = case(lo), case(hi)
            if hi.op == 'app' and hi.args[0] == 'size': hi = case(mk('app', 'size', e.info['cont'], ZERO)) if e.info.get('cont') is not None else hi
            if lo.op != 'c' or hi.op != 'c' or st not in (1, -1): out.append([((), [('unbounded', e.line)])]); continue
            k = int(lo.args[0]); H = int(hi.args[0]); n = 0
            cmpf = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '!=': lambda a, b: a != b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}[cmp]
            iv = e.info['iv']
            while cmpf(k, H) and n < 20:
                c2 = case.also((lambda x: x is iv, const(k)), (lambda x, e=e: x.op == 'lh' and x.args[0] == e.info['id'] and fname(x.args[1]) == S + '::subStep', cur['sub'] if cur['sub'] is not None else NULL))
                alts = []
                for q in e.paths:
                    if not c2.feasible(q.facts): continue
                    sl = expand(q, c2, cur)
                    toks = [t for s in sl for (_, ts) in s for t in ts]
                    alts.append((tuple(c2(f) for f in q.facts), toks))
                subs = {t[2] for _, ts in alts for t in ts if t[0] == 'set' and t[1] == S + '::subStep'}
                if len(subs) == 1: cur['sub'] = subs.pop()
                out.append(alts); k += st; n += 1
            cur['loops'][e.info['id']] = True
            continue
        t = token(e)
        if not t: continue
        if t[0] in ('act', 'due'): t = (t[0], case(elem_of(t[1])) if elem_of(t[1]) is not None else t[1])
        elif t[0] == 'bind': t = (t[0], case(elem_of(t[1])) if elem_of(t[1]) is not None else t[1], t[2])
        elif t[0] == 'set' and t[1] in (S + '::subStep',):
            v = subst(t[2], lambda x: cur['sub'] if x.op == 'lo' and fname(x.args[1]) == S + '::subStep' else None)
            t = (t[0], t[1], case(v)); cur['sub'] = t[2]
        out.append([((), [t])])
    return out

def step(ctx, db):
    fs = db.fn('Scene::moveToNextTimeStep')
    if not fs: raise AnalysisBroken('no definition of Scene::moveToNextTimeStep')
    f = fs[0]
    e = engine(db, opaque={'Scene::checkStateTypes'}, maxpaths=6000); ps = [p for p in e.run(f) if p.end != 'throw']
    ctx.count('functions'); ctx.count('paths', len(ps))
    where = (f['file'], f['line'], f['q'])
    it, tm, dt = (mk('ld', mk('L.f', TH, S + '::' + x), 0) for x in ('iter', 'time', 'dt'))
    for n, m in ((2, 0), (0, 0), (1, 0), (2, 2)):
     for s in range(-2, n + 2):
      for sub in (0, 1):
       for per in (0, 1):
        case = Case((field0(S + '::subStep', TH), const(s)), (field0(S + '::subStepping', TH), B(sub)), (field0(S + '::isPeriodic', TH), B(per)),
                    (sizeof_field(ENG), const(n)), (sizeof_field(NXT), const(m)))
        if m and s >= n: continue
        swap = m > 0 and (s < 0 or (s <= 0 and not sub))
        lab = 'subStep=%d engines=%d pending=%d subStepping=%d periodic=%d' % (s, n, m, sub, per)
        s1 = -1 if swap else s
        if s1 < -1 or s1 > n: s1 = -1
        if not sub and (s if not swap else -1) < 0: want = list(range(-1, n + 1))
        elif not sub: want = list(range(s1, n + 1))
        else: want = [s1]
        end = -1 if want[-1] == n else want[-1] + 1
        nf = 0
        for p in ps:
            if not case.feasible(p.facts): continue
            nf += 1; ctx.count('cases')
            cur = {'sub': const(s), 'loops': {}}
            sl = expand(p, case, cur)
            check(ctx, where, lab, sl, want, n, per, swap, end, it, tm, dt, case, cur)
        if not nf: ctx.undecided('no path of a step for ' + lab)

def check(ctx, where, lab, sl, want, n, per, swap, end, it, tm, dt, case, cur):
    exp = []       # expected items
    for k in want:
        if k == -1: exp += [('cell',)] if per else []
        elif k < n: exp.append(('E', k))
        else: exp.append(('clock',))
    got = []; iters = times = 0; swapped = cleared = False; seen_item = False
    bad = lambda rule, msg: ctx.bad(rule, *where, '%s: %s' % (lab, msg))
    for alts in sl:
        kinds = set()
        toks = [t for _, ts in alts for t in ts]
        if any(t[0] in ('exit', 'unbounded') for t in toks): return bad('sequence', 'the loop over the engines can be left early or is not a counted loop (line %s)' % [t[1] for t in toks if t[0] in ('exit', 'unbounded')][0])
        acts = {t[1] for t in toks if t[0] in ('act', 'due', 'bind')}
        if acts:
            ks = {int(a.args[0]) if a.op == 'c' else None for a in acts}
            if len(ks) != 1 or None in ks: return bad('sequence', 'an engine outside the list is run (%s)' % ', '.join(show(a) for a in acts))
            k = ks.pop(); got.append(('E', k)) if len(alts) > 1 or not got or got[-1] != ('E', k) else None
            if len(alts) > 1 and not engine_slot(ctx, where, lab, alts, k): return
            cur.setdefault('flat', []).extend([] if len(alts) > 1 else [(k, t) for t in toks])
        for _, ts in alts:
            for t in ts:
                if t[0] == 'cell':
                    kinds.add('cell')
                    if t[1] is not dt: bad('sequence', 'the cell is advanced by %s instead of the time step' % show(t[1]))
                if t[0] == 'set' and t[1].endswith('::iter'):
                    d = delta(t[2], 'iter', it)
                    if d is not ONE: bad('clock', 'the step number changes by %s' % show(d))
                    else: ctx.ok('clock')
                    kinds.add('iter')
                if t[0] == 'set' and t[1].endswith('::time'):
                    d = delta(t[2], 'time', tm)
                    if d is not dt: bad('clock', 'the time changes by %s' % show(d))
                    else: ctx.ok('clock')
                    kinds.add('time')
                if t[0] == 'set' and t[1] == ENG:
                    if got: bad('swap', 'the engine list is replaced after the step has begun')
                    swapped = fname(t[2]) == NXT
                if t[0] == 'clearnext' or (t[0] == 'set' and t[1] == NXT): cleared = True
        if 'cell' in kinds: got.append(('cell',))
        if kinds & {'iter', 'time'}:
            if not got or got[-1] != ('clock',): got.append(('clock',))
            cur['nclk'] = cur.get('nclk', 0) + len(kinds & {'iter', 'time'})
    # single sub-step: the engine item was flattened along the path
    if cur.get('flat'):
        names = [t[0] for _, t in cur['flat']]
        ctx.check(names[:1] == ['bind'] and names in (['bind'], ['bind', 'due'], ['bind', 'due', 'act']), 'engine', *where, '%s: the engine is handled as %s instead of bound, asked, run' % (lab, names))
    if want == [want[0]] and len(want) == 1 and exp and exp[0][0] == 'E' and not cur.get('flat') and not got: pass
    if ctx.check(got == exp, 'sequence', *where, '%s: the step performs %s instead of %s' % (lab, fmt(got), fmt(exp))):
        if ('clock',) in exp: ctx.check(cur.get('nclk') == 2, 'clock', *where, '%s: step number and time are not both advanced exactly once' % lab)
    ctx.check(cur['sub'] is const(end), 'clock', *where, '%s: the sub-step counter ends as %s instead of %d' % (lab, show(cur['sub']) if cur['sub'] is not None else None, end))
    ctx.check(swapped == swap and (cleared or not swap), 'swap', *where, '%s: the pending engine list is %s' % (lab, 'not installed and emptied' if swap else 'installed inside a step'))

def fmt(l): return ' '.join('engine%d' % x[1] if x[0] == 'E' else x[0] for x in l) or 'nothing'
def delta(v, f, e0):
    h = [x for x in subterms(v) if x is e0 or (x.op == 'lh' and fname(x.args[1]) == S + '::' + f)]
    return sub(v, h[0]) if h else v
def engine_slot(ctx, where, lab, alts, k, S_=True):
    """alternatives of one engine: dead -> nothing, not due -> nothing, otherwise run once"""
    ok = True
    for facts, ts in alts:
        names = [t[0] for t in ts if t[0] in ('bind', 'due', 'act')]
        dead = pos = None
        for x in facts:
            if isdead(x): dead = True
            if x.op == 'not' and isdead(x.args[0]): dead = False
            if isdue(x): pos = True
            if x.op == 'not' and isdue(x.args[0]): pos = False
        if dead: want = [['bind'], [], ['bind', 'due']]
        elif dead is False and pos is False: want = [['bind', 'due']]
        elif dead is False and pos: want = [['bind', 'due', 'act']]
        else: want = []
        ok &= ctx.check(names in want, 'engine', *where, '%s: engine %d, %s, is handled as [%s]' % (lab, k, 'dead' if dead else 'alive and due' if pos else 'alive but not due' if pos is False else 'whatever its state', ' '.join(names)))
        for t in ts:
            if t[0] == 'bind': ok &= ctx.check(t[2] is TH, 'engine', *where, '%s: engine %d is bound to %s instead of this simulation' % (lab, k, show(t[2])))
    return ok
def isdead(x):
    return x.op == 'nn' and fname(x.args[0]) == 'Engine::dead' or fname(x) == 'Engine::dead'
def isdue(x):
    y = x.args[0] if x.op == 'nn' else x
    return y.op == 'app' and str(y.args[0]).endswith('::isActivated')

def periodic(ctx, db):
    P = 'PeriodicEngine'
    fs = db.fn(P + '::isActivated')
    if not fs: raise AnalysisBroken('no PeriodicEngine::isActivated')
    f = fs[0]; e = engine(db, opaque={P + '::getClock'}); ps = e.run(f); ctx.count('functions'); ctx.count('paths', len(ps))
    where = (f['file'], f['line'], f['q'])
    F = lambda n: mk('ld', mk('L.f', TH, P + '::' + n), 0)
    sc = mk('ld', mk('L.f', TH, 'Engine::scene'), 0)
    now = {'virtLast': mk('ld', mk('L.f', sc, S + '::time'), 0), 'iterLast': mk('ld', mk('L.f', sc, S + '::iter'), 0)}
    isclock = lambda x: x.op == 'app' and str(x.args[0]).endswith('getClock')
    import itertools
    # representatives: period <=0 / >0, elapsed below / at / above, counters
    n = 0
    for first, done, do, init in itertools.product((0, 5), (0, 1, 2), (-1, 0, 2), (0, 1)):
        for nowi, last in ((5, 5), (5, 3), (6, 6), (3, 5)):
            for vper, iper, rper in ((0, 0, 0), (0, 2, 0), (0, 3, 0), (0, -2, 0), (2, 0, 0), (3, 0, 0), (-1, 0, 0), (0, 0, 2), (0, 0, 3), (0, 0, -2), (3, 2, 0), (2, 3, 3)):
                # all three clocks take the same representatives
                case = Case((lambda x: x is F('firstIterRun'), const(first)), (lambda x: x is F('nDone'), const(done)), (lambda x: x is F('nDo'), const(do)), (lambda x: x is F('initRun'), B(init)),
                            (lambda x: x is F('virtPeriod'), const(vper)), (lambda x: x is F('iterPeriod'), const(iper)), (lambda x: x is F('realPeriod'), const(rper)),
                            (lambda x: x is F('virtLast') or x is F('iterLast') or x is F('realLast'), const(last)), (lambda x: x in now.values() or isclock(x), const(nowi)))
                lab = 'firstIterRun=%d nDone=%d nDo=%d initRun=%d now=%d last=%d periods v=%d i=%d r=%d' % (first, done, do, init, nowi, last, vper, iper, rper)
                d = done; res = None
                if first > 0 and d == 0: res = 'run' if first == nowi else 'no'
                else:
                    if nowi < last: d = 0
                    el = nowi - last
                    if (do < 0 or d < do) and any(pp > 0 and el >= pp for pp in (vper, iper, rper)): res = 'run'
                    elif d == 0: res = 'run' if init else 'start'
                    else: res = 'no'
                fe = [p for p in ps if case.feasible(p.facts)]
                if not fe: ctx.undecided('periodic: no path for ' + lab); continue
                for p in fe:
                    n += 1
                    v = case(p.val) if p.val is not None else None
                    end = {q: case(p.st.env.get(mk('L.f', TH, P + '::' + q), F(q))) for q in ('virtLast', 'iterLast', 'realLast', 'nDone')}
                    if v not in (TRUE, FALSE, ZERO, ONE): ctx.bad('periodic', *where, '%s: the answer is %s' % (lab, show(v) if v is not None else None)); continue
                    r = v in (TRUE, ONE)
                    wn = d + 1 if res in ('run', 'start') else d
                    okk = r == (res == 'run') and end['nDone'] is const(wn) and all(end[q] is const(nowi if res in ('run', 'start') else last) for q in ('virtLast', 'iterLast', 'realLast'))
                    ctx.check(okk, 'periodic', *where, '%s: answers %s with last=(%s) nDone=%s, expected %s' % (lab, r, ','.join(show(end[q]) for q in ('virtLast', 'iterLast', 'realLast')), show(end['nDone']), res))
    ctx.setc('periodic_cases', n)

DUE = {  # activation predicates: class -> value expected as function of entry fields
 'Engine': lambda t: t is TRUE,
 'Dispatcher': lambda t: fieldtrue(t, 'Dispatcher::activated'),
 'UniaxialStrainer': lambda t: fieldtrue(t, 'UniaxialStrainer::active'),
}
def fieldtrue(t, q):
    y = t.args[0] if t.op == 'nn' else t
    return fname(y) == q
def due(ctx, db):
    for c, pred in DUE.items():
        for f in db.fn(c + '::isActivated'):
            ps = engine(db).run(f); ctx.count('functions'); ctx.count('paths', len(ps))
            for p in ps:
                if p.end == 'throw': continue
                v = p.val
                # branch form: if(active) return true; return false
                if v in (TRUE, FALSE) and c != 'Engine':
                    fl = [x for x in p.facts if fieldtrue(x, c + '::activated') or fieldtrue(x, c + '::active')]
                    nf = [x for x in p.facts if x.op == 'not' and (fieldtrue(x.args[0], c + '::activated') or fieldtrue(x.args[0], c + '::active'))]
                    good = bool(fl) if v is TRUE else bool(nf)
                else: good = pred(v)
                ctx.check(good, 'due', f['file'], f['line'], f['q'], 'is due by %s' % show(v))
    for f in db.fn('TimeStepper::isActivated'):
        ps = engine(db).run(f); ctx.count('functions'); ctx.count('paths', len(ps))
        act = field0('TimeStepper::active', TH)
        mod = lambda x: x.op == 'app' and x.args[0] == '%' or x.op == '%'
        for a in (0, 1):
            for r in (0, 1):
                case = Case((act, B(a)), (mod, const(r)))
                for p in ps:
                    if not case.feasible(p.facts): continue
                    v = case(p.val)
                    ctx.check((v in (TRUE, ONE)) == bool(a and r == 0) and v in (TRUE, FALSE, ONE, ZERO), 'due', f['file'], f['line'], f['q'], 'active=%d, remainder of the step number by the interval=%d: due is %s' % (a, r, show(v)))
    for f in db.fn('Recorder::isActivated'):
        e = engine(db, opaque={'PeriodicEngine::isActivated'}); ps = e.run(f); ctx.count('functions'); ctx.count('paths', len(ps))
        for p in ps:
            if p.end == 'throw': continue
            calls = [x for x in p.events if x.kind == 'call' and x.q == 'PeriodicEngine::isActivated']
            yes = any(isdue(x) for x in p.facts); no = any(x.op == 'not' and isdue(x.args[0]) for x in p.facts)
            ctx.check(len(calls) == 1 and (p.val is TRUE and yes or p.val is FALSE and no or isdue(p.val)), 'due', f['file'], f['line'], f['q'], 'a recorder answers %s when the periodic condition is %s' % (show(p.val), 'true' if yes else 'false' if no else 'not consulted'))

def nested(ctx, db):
    for q, slaves in (('ParallelEngine::action', 'ParallelEngine::slaves'),):
        fs = db.fn(q)
        if not fs: raise AnalysisBroken('no ' + q)
        for f in fs:
            ps = engine(db).run(f); ctx.count('functions'); ctx.count('paths', len(ps))
            for p in ps:
                if p.end == 'throw': continue
                group_check(ctx, f, p, slaves, ())
    for q, slaves in (('Integrator::system', 'Integrator::slaves'), ('Integrator::operator()', 'Integrator::slaves')):
        for f in db.fn(q):
            ps = engine(db).run(f)
            for p in ps:
                if p.end != 'throw' and any(token(x) and token(x)[0] == 'act' for qq, _ in all_paths([p]) for x in qq.events): group_check(ctx, f, p, slaves, ()); ctx.count('functions')

def group_check(ctx, f, p, slaves, loops):
    """both levels of the list of lists are covered, the inner one in order; every member that is not dead and due is run once"""
    where = (f['file'], f['line'], f['q'])
    outer = [e for e in loops_of(p) if any(token(x) and token(x)[0] == 'act' for q, _ in all_paths(e.paths) for x in q.events)]
    if not ctx.check(len(outer) == 1, 'nested', *where, 'the groups are not visited by one loop'): return
    o = outer[0]
    n = o.info['hi']
    cont = mk('addr', mk('L.f', TH, slaves))
    ctx.check(covers(o.info, cont=cont) or covers(o.info, n=lambda t: t.op == 'app' and t.args[0] == 'size' and fname(t.args[1]) == slaves), 'nested', *where, 'the loop over the groups does not visit all of them (from %s to %s)' % (o.info['lo'], o.info['hi']))
    for q in o.paths:
        if q.end in ('break', 'return'): ctx.bad('nested', *where, 'the loop over the groups is left early'); continue
        inner = [e for e in loops_of(q) if any(token(x) and token(x)[0] == 'act' for r, _ in all_paths(e.paths) for x in r.events)]
        if not ctx.check(len(inner) == 1, 'nested', *where, 'the members of a group are not visited by one loop'): continue
        i = inner[0]
        okk = i.info['step'] == 1 and (covers(i.info, cont=i.info.get('cont')) or covers(i.info, n=lambda t: t.op == 'app' and t.args[0] == 'size'))
        idx = i.info.get('cont')
        ctx.check(okk and (idx is None or any(x is o.info['iv'] for x in subterms(idx))), 'nested', *where, 'the members of a group are not all visited in order')
        for r in i.paths:
            if r.end in ('break', 'return'): ctx.bad('nested', *where, 'the loop over the members is left early'); continue
            names = [token(x)[0] for x in r.events if token(x)]
            dead = any(isdead(x) for x in r.facts); alive = any(x.op == 'not' and isdead(x.args[0]) for x in r.facts)
            yes = any(isdue(x) for x in r.facts); no = any(x.op == 'not' and isdue(x.args[0]) for x in r.facts)
            names2 = [x for x in names if x != 'bind']
            good = names2 == ['due', 'act'] if alive and yes else names2 == ['due'] if alive and no else names2 == [] if dead else False
            ctx.check(good, 'nested', *where, 'a member, %s, is handled as %s' % ('dead' if dead else 'due' if yes else 'not due' if no else 'whatever its state', names2))
            for x in r.events:
                t = token(x)
                if t and t[0] in ('act', 'due', 'bind'):
                    ctx.check(any(y is i.info['iv'] for y in subterms(t[1])) and any(y is o.info['iv'] for y in subterms(t[1])), 'nested', *where, 'a member other than the visited one is %s' % t[0])

def flow(ctx, db):
    fs = db.fn('SimulationFlow::singleAction')
    if not fs: raise AnalysisBroken('no SimulationFlow::singleAction')
    f = fs[0]; e = engine(db, opaque={'Scene::moveToNextTimeStep', 'ThreadWorker::setTerminate'}, clobbers={'Scene::moveToNextTimeStep': (S + '::iter', S + '::time')}); ps = e.run(f); ctx.count('functions'); ctx.count('paths', len(ps))
    where = (f['file'], f['line'], f['q'])
    for p in ps:
        if p.end == 'throw': continue
        mv = [i for i, x in enumerate(p.events) if x.kind == 'call' and x.q == 'Scene::moveToNextTimeStep']
        if not ctx.check(len(mv) == 1, 'loop', *where, '%d steps are made by one pass of the simulation loop' % len(mv)): continue
        sub = [x for x in p.events[:mv[0]] if x.kind == 'store' and fname(x.obj) == S + '::subStepping']
        nosub = any(x.op == 'not' and fieldtrue(x.args[0], S + '::subStepping') for x in p.facts)
        ctx.check(nosub or (sub and sub[-1].val is FALSE), 'loop', *where, 'sub-stepping is left on in a continuous run')
    def fld(n): return lambda x: x.op == 'ld' and fname(x) == S + '::' + n
    # abstract states: reached or not
    for si, i in ((0, 7), (7, 6), (7, 7), (9, 7)):
        for stt, t0, t1 in ((0, 6, 7), (7, 5, 6), (7, 6, 7), (7, 6, 8), (9, 6, 7)):
            def timev(x): return x.op == 'ld' and fname(x) == S + '::time'
            case = Case((fld('stopAtIter'), const(si)), (fld('stopAtTime'), const(stt)), (fld('iter'), const(i)), (lambda x: timev(x) and x.args[1] == 0, const(t0)), (timev, const(t1)))
            want = (si > 0 and i == si) or (stt > 0 and t0 < stt <= t1)
            for p in ps:
                if p.end == 'throw' or not case.feasible(p.facts): continue
                setT = [x for x in p.events if x.kind == 'call' and x.q.endswith('::setTerminate')]
                got = bool(setT) and setT[-1].args[0] in (TRUE, ONE)
                ctx.check(got == want, 'loop', *where, 'stop at step %d / time %d, now step %d, time %d -> %d: %s' % (si, stt, i, t0, t1, 'not stopped' if want else 'stopped'))
                after = [k for k, x in enumerate(p.events) if x.kind == 'call' and x.q == 'Scene::moveToNextTimeStep']
                if setT and after: ctx.check(p.events.index(setT[-1]) > after[0], 'loop', *where, 'the stop request precedes the step')

WRITERS = {S + '::iter': {'Scene::moveToNextTimeStep', 'pyOmega::resetTime'}, S + '::subStep': {'Scene::moveToNextTimeStep'},
           NXT: {'Scene::moveToNextTimeStep', 'pyOmega::engines_set'}}
def owner(ctx):
    import subprocess
    names = {'iter': S + '::iter', 'subStep': S + '::subStep', '_nextEngines': NXT}
    files = [x for x in sources() if any(w in file_bytes(os.path.join(REPO, x)).decode('latin1') for w in ('iter++', 'iter=', 'iter =', '++', 'subStep', 'nextEngines')) and re.search(rb'(->|\.|\b)(iter\s*(\+\+|--|=[^=]|[-+]=)|subStep\s*(\+\+|--|=[^=]|[-+]=))|\+\+\s*\w*(->|\.)?(iter|subStep)\b|_nextEngines', file_bytes(os.path.join(REPO, x)))]
    files = sorted(set(files) | {'core/Scene.cpp', 'py/wrapper/yadeWrapper.cpp'})
    db = DB(files); n = 0
    ctx.setc('writer_files', len(files))
    for k, f in list(db.fns.items()):
        if not f.get('body'): continue
        for q, nd in writes(f):
            line = nd[1]
            if q in WRITERS:
                n += 1
                ctx.check(f['q'] in WRITERS[q] or f['q'] in ('Scene::Scene', 'Scene::pySetAttr', 'Scene::serialize'), 'owner', f['file'], line, f['q'], 'writes %s, which only %s may' % (q, ', '.join(sorted(WRITERS[q]))))
    ctx.setc('counter_writes', n)
    # replacing the list from a script
    for f in db.fn('pyOmega::engines_set'):
        ps = engine(db, opaque={'pyOmega::mapLabeledEntitiesToVariables', 'pyOmega::assertScene'}).run(f); ctx.count('functions'); ctx.count('paths', len(ps))
        sb = lambda x: x.op == 'ld' and fname(x) == S + '::subStep'
        for s in (-1, 0, 1):
            case = Case((sb, const(s)))
            for p in ps:
                if p.end == 'throw' or not case.feasible(p.facts): continue
                tgt = {fname(x.obj) for x in p.events if x.kind == 'store' and fname(x.obj) in (ENG, NXT)}
                ctx.check(tgt == {ENG if s < 0 else NXT}, 'swap', f['file'], f['line'], f['q'], 'sub-step counter %d: a new engine list goes to %s' % (s, ', '.join(sorted(tgt)) or 'nowhere'))
