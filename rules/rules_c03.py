"""C03: no load on a body is lost, counted twice or leaked into another body or step, with any number of threads."""
from kit import *
RULES = {
 'accumulate': 'adding a load changes exactly the caller thread\'s entry of that body in the storage of that kind of load by exactly the given amount, leaves the container marked as not summed, and the entry exists',
 'permanent': 'setting a permanent load stores it for that body, marks permanent loads as used and the container as not summed, and the entry exists',
 'grow': 'the storages only ever grow, so no load of another body is dropped, and new entries are zero',
 'sizes': 'equalising the sizes brings the storage of every thread and every sum to the common size',
 'sum': 'summing visits every body and adds the entries of all threads plus the permanent load when one is in use, for force and torque, and for displacement and rotation when used, before marking the container as summed, holding the container mutex',
 'read': 'a summed load is only returned when the container is marked as summed, inside the storage, and a zero vector otherwise; reading a single body adds the entries of all threads and the permanent load in use',
 'reset': 'a reset zeroes all entries of all threads and all sums, keeps permanent loads unless asked to drop them, and marks the container as summed only when no permanent load is in use',
 'clean': 'a fresh container has one empty storage per thread and is marked as summed',
 'integrate': 'the integrators sum the loads before they read them',
 'expose': 'the scripting interface reads and adds the kind of load it names, for the id it was given, after checking the id',
}
EXPLAIN = 'Per-path effect summaries (value numbers of all fields at exit, per generic loop iteration) of every member of the load container, compared with the transition each operation is specified to be; interval reasoning over dominating branch facts for the index bounds.'
ASSUMES = ['ids are non-negative (all callers pass ids of bodies; the scripting interface checks them)', 'the number of OpenMP threads does not change after construction (documented restriction)', 'memset of zero bytes makes a zero vector']
FC = 'ForceContainer'
KINDS = {'Force': ('_forceData', '_force'), 'Torque': ('_torqueData', '_torque'), 'Move': ('_moveData', '_move'), 'Rot': ('_rotData', '_rot')}
PERM = {'Force': '_permForce', 'Torque': '_permTorque'}
def LF(n): return mk('L.f', mk('this'), FC + '::' + n)
def A(n): return mk('addr', LF(n))
def V(n): return mk('ld', LF(n), 0)
ID = mk('param', 'arg0'); VEC = lambda: mk('ld', mk('L.d', mk('param', 'arg1')), 0)
TID = mk('app', 'omp_get_thread_num')
def slot(data, th): return mk('addr', mk('L.e', A(data), th))
DATA = {v[0] for v in KINDS.values()}; SUMS = {v[1] for v in KINDS.values()}; PERMS = set(PERM.values())
ALL = DATA | SUMS | PERMS
def own(x):
    f = fname(x)
    return f.split('::')[-1] if f and f.startswith(FC + '::') else None
def which(loc):
    """(storage, thread, id) of an element location of the container"""
    e = elem(loc)
    if not e: return None
    if own(e[0]) in SUMS | PERMS: return own(e[0]), None, e[1]
    if e[0].op == 'addr':
        e2 = elem(e[0].args[0])
        if e2 and own(e2[0]) in DATA: return own(e2[0]), e2[1], e[1]
    return None
def storage(a):
    """(storage, thread) of a vector object"""
    if own(a) in SUMS | PERMS: return own(a), None
    if a.op == 'addr':
        e = elem(a.args[0])
        if e and own(e[0]) in DATA: return own(e[0]), e[1]
    return None
def flag(p, n):
    v = p.st.env.get(LF(n))
    return v if v is not None else V(n)
def truth(facts, t):
    n = nonzero(t)
    if n is TRUE or n in facts: return True
    if n is FALSE or bnot(n) in facts: return False
    return None

def MAXID(a): return elem(a) is not None and own(elem(a)[0]) == '_maxId'
def grow_ok(ctx, p, f, upto=None):
    """every resize on the path grows; returns nothing"""
    NN = (ID, V('size'), MAXID)
    for q, ls in [(p, ())] + list(x for x in _walk(p)):
        for e in q.events:
            if e.kind != 'call' or e.obj is None: continue
            s = storage(e.obj)
            nm = e.q.split('::')[-1]
            if s is None: continue
            if nm in ('clear', 'erase', 'pop_back', 'swap', 'shrink_to_fit', 'assign') : ctx.bad('grow', f['file'], e.line, f['q'], '%s is emptied' % s[0], key='grow|%s|%s' % (f['q'], s[0])); continue
            if nm != 'resize': continue
            n = e.args[0]
            if not ctx.check(len(e.args) > 1 and e.args[1] is ZERO, 'grow', f['file'], e.line, f['q'], 'new entries of %s are not zero' % s[0], key='grow|%s|%s|zero' % (f['q'], s[0])): continue
            facts = list(e.facts) + list(q.facts)
            # sums and permanent storages are never longer than `size`, those of thread t have length sizeOfThreads[t] <= size
            sz = [V('size'), mk('app', 'size', A(s[0]), ZERO)] if s[1] is None else [V('size'), mk('ld', mk('L.e', A('sizeOfThreads'), s[1]), 0)]
            sz += [x for t in [n] + facts for x in subterms(t) if x.op in ('lh', 'lo') and len(x.args) > 1 and isinstance(x.args[1], Term) and (x.args[1] is LF('size') or (x.args[1].op == 'L.size' and s[0] in repr(x.args[1])))]
            ctx.check(any(provable(sub(n, z), facts, NN + tuple(sz), strict=False) for z in sz), 'grow', f['file'], e.line, f['q'], '%s is resized to %s, which may be smaller than it is' % (s[0], show(n)[:80]), key='grow|%s|%s' % (f['q'], s[0]))
def _walk(p):
    from kit import _inner
    return _inner(p, ())

def run(ctx):
    db = DB(['core/ForceContainerParallel.cpp']); db.require_clean()
    def fn(n):
        l = [f for f in db.fn(FC + '::' + n)]
        if not l: raise AnalysisBroken('no definition of %s::%s' % (FC, n))
        return l
    def paths(f):
        e = engine(db); ps = e.run(f); ctx.count('functions'); ctx.count('paths', len(ps)); return [p for p in ps]
    for K, (data, tot) in KINDS.items():
        # --- add
        for f in fn('add' + K):
            for p in paths(f):
                if p.end == 'throw': ctx.bad('accumulate', f['file'], f['line'], f['q'], 'a path refuses the load', key='add|throw|' + K); continue
                el = {k: v for k, v in p.st.env.items() if which(k)}
                want = mk('L.e', slot(data, TID), ID)
                ok = set(el) == {want} and any(sub(v, VEC()).op == 'ld' and sub(v, VEC()).args[0] is want for v in el.values())
                ctx.check(ok, 'accumulate', f['file'], f['line'], f['q'], 'does not add the given vector to the entry of this thread and body: writes %s' % {show(k)[:60]: show(v)[:80] for k, v in el.items()}, key='add|%s|slot' % K)
                ctx.check(flag(p, 'synced') is FALSE, 'accumulate', f['file'], f['line'], f['q'], 'the container stays marked as summed after a load was added', key='add|%s|synced' % K)
                if K in ('Move', 'Rot'): ctx.check(flag(p, 'moveRotUsed') is TRUE, 'accumulate', f['file'], f['line'], f['q'], 'imposed displacements are added but not marked as used', key='add|%s|used' % K)
                st = [e for e in p.events if e.kind == 'store' and which(e.obj)]
                szl = mk('L.e', A('sizeOfThreads'), TID); sz = p.st.env.get(szl, mk('ld', szl, 0))
                ctx.check(provable(sub(sz, ID), p.facts, (ID, MAXID)), 'accumulate', f['file'], f['line'], f['q'], 'the entry of the body may lie beyond the storage of this thread', key='add|%s|bounds' % K)
                # the storage really has that length
                rs = [e for e in p.events if e.kind == 'call' and e.obj is not None and storage(e.obj) == (data, TID) and e.q == 'std::resize']
                if szl in p.st.env: ctx.check(rs and rs[-1].args[0] is sz, 'sizes', f['file'], f['line'], f['q'], 'the recorded size of this thread\'s storage is not the size it was resized to', key='add|%s|recsize' % K)
                for s, t in [(e.obj, e) for e in p.events if e.kind == 'call' and e.obj is not None and storage(e.obj) and storage(e.obj)[0] in DATA]:
                    ctx.check(storage(s)[1] is TID, 'accumulate', f['file'], t.line, f['q'], 'touches the storage of another thread', key='add|%s|other' % K)
                grow_ok(ctx, p, f)
        # --- get
        for f in fn('get' + K):
            for p in paths(f):
                if p.end == 'throw': ctx.check(truth(p.facts, V('synced')) is False, 'read', f['file'], f['line'], f['q'], 'fails although the container is summed', key='get|%s|throw' % K); continue
                ctx.check(truth(p.facts, V('synced')) is True, 'read', f['file'], f['line'], f['q'], 'a load is returned although the threads\' entries have not been summed', key='get|%s|synced' % K)
                checkread(ctx, f, p, tot, K)
        # --- single
        for f in fn('get%sSingle' % K):
            for p in paths(f):
                if p.end == 'throw': continue
                single(ctx, f, p, data, K)
    for K, pn in PERM.items():
        for f in fn('setPerm' + K):
            for p in paths(f):
                el = {k: v for k, v in p.st.env.items() if which(k)}
                want = mk('L.e', A(pn), ID)
                ctx.check(el == {want: VEC()}, 'permanent', f['file'], f['line'], f['q'], 'does not store the given vector for the given body: writes %s' % {show(k)[:60]: show(v)[:60] for k, v in el.items()}, key='perm|%s|slot' % K)
                ctx.check(flag(p, 'synced') is FALSE and flag(p, 'permForceUsed') is TRUE, 'permanent', f['file'], f['line'], f['q'], 'the permanent load is not announced to the next summation', key='perm|%s|flags' % K)
                szl = mk('L.size', A(pn)); sz = p.st.env.get(szl, mk('app', 'size', A(pn), ZERO))
                alts = [sz] + [mk('app', 'size', A(o), ZERO) for o in PERMS if szl not in p.st.env]    # both permanent storages have the same length (rule sizes)
                ctx.check(any(provable(sub(z, ID), p.facts, (ID, V('size'))) for z in alts), 'permanent', f['file'], f['line'], f['q'], 'the entry of the body may lie beyond the storage', key='perm|%s|bounds' % K)
                ps = [p.st.env.get(mk('L.size', A(o))) for o in sorted(PERMS)]
                ctx.check(ps[0] is ps[1], 'sizes', f['file'], f['line'], f['q'], 'the permanent force and torque storages get different lengths', key='perm|%s|same' % K)
                bad = [mk('L.e', A(x), mk('c', -1)) for x in ('_maxId', 'sizeOfThreads') if any(e.kind == 'store' and elem(e.obj) and own(elem(e.obj)[0]) == x and elem(e.obj)[1].op == 'c' and elem(e.obj)[1].args[0] < 0 for e in p.events)]
                ctx.check(not bad, 'permanent', f['file'], f['line'], f['q'], 'writes entry -1 of a per-thread table', key='perm|%s|neg' % K)
                grow_ok(ctx, p, f)
        for f in fn('getPerm' + K):
            for p in paths(f):
                if p.end == 'throw': continue
                ctx.check(truth(p.facts, V('synced')) is True, 'read', f['file'], f['line'], f['q'], 'permanent load read from a container that is not summed', key='getperm|%s|synced' % K)
                checkread(ctx, f, p, pn, K)
    # --- raw access
    for K in ('Force', 'Torque'):
        tot = KINDS[K][1]
        for f in fn('get%sUnsynced' % K):
            for p in paths(f): 
                v = p.val
                ctx.check(v is not None and (v is mk('L.e', A(tot), ID) or v is mk('ld', mk('L.e', A(tot), ID), 0)), 'read', f['file'], f['line'], f['q'], 'does not return the summed load of the body', key='raw|get' + K)
        for f in fn('add%sUnsynced' % K):
            for p in paths(f):
                el = {k: v for k, v in p.st.env.items() if which(k)}; w = mk('L.e', A(tot), ID)
                ctx.check(set(el) == {w} and sub(el[w], VEC()) is mk('ld', w, 0), 'accumulate', f['file'], f['line'], f['q'], 'does not add the given vector to the summed load of the body', key='raw|add' + K)
    # --- sizes
    for f in fn('syncSizesOfContainers'):
        for p in paths(f):
            if truth(p.facts, V('syncedSizes')) is True: ctx.ok('sizes'); continue
            ctx.check(flag(p, 'syncedSizes') is TRUE, 'sizes', f['file'], f['line'], f['q'], 'sizes are not marked as equalised', key='sizes|flag')
            for n in sorted(SUMS | PERMS):
                ctx.check(p.st.env.get(mk('L.size', A(n))) is V('size'), 'sizes', f['file'], f['line'], f['q'], '%s is not brought to the common size' % n, key='sizes|' + n)
            good = False
            for le in loops_of(p):
                iv = le.info['iv']
                if not covers(le.info, n=V('nThreads')): continue
                good = True
                for q in le.paths:
                    cur = mk('ld', mk('L.e', A('sizeOfThreads'), iv), 0)
                    rs = {storage(e.obj)[0] for e in q.events if e.kind == 'call' and e.q == 'std::resize' and storage(e.obj) and storage(e.obj)[1] is iv and e.args[0] is V('size')}
                    big = provable(sub(cur, V('size')), q.facts, (), strict=False)
                    ctx.check(rs >= DATA or big, 'sizes', f['file'], le.line, f['q'], 'the storage of a thread is not brought to the common size: %s' % sorted(DATA - rs), key='sizes|threads')
                    if rs: ctx.check(q.st.env.get(mk('L.e', A('sizeOfThreads'), iv)) is V('size'), 'sizes', f['file'], le.line, f['q'], 'the recorded size of a thread\'s storage is not updated', key='sizes|rec')
                    if q.end in ('break', 'return'): ctx.bad('sizes', f['file'], le.line, f['q'], 'not every thread is visited', key='sizes|break')
            ctx.check(good, 'sizes', f['file'], f['line'], f['q'], 'does not visit every thread', key='sizes|all')
            grow_ok(ctx, p, f)
    # --- sync
    for f in fn('sync'):
        for p in paths(f):
            fin = flag(p, 'synced')
            if fin is not TRUE:
                # early return only when already summed
                ctx.check(any(g.op == 'nn' and root(g.args[0]).op in ('lo', 'this', 'ld') and 'synced' in repr(g) for g in p.facts), 'sum', f['file'], f['line'], f['q'], 'returns without summing although the container is not marked as summed', key='sync|early'); continue
            mr = truth(p.facts, V('moveRotUsed'))
            for K, (data, tot) in KINDS.items():
                if K in ('Move', 'Rot') and mr is False: continue
                okk = False; why = 'no loop over all bodies stores it'
                for le in loops_of(p):
                    iv = le.info['iv']
                    w = mk('L.e', A(tot), iv)
                    if not any(w in q.st.env for q in le.paths): continue
                    if not covers(le.info, n=issize): why = 'the loop does not run over all bodies'; okk = False; break
                    okk = True
                    for q in le.paths:
                        if q.end in ('break', 'return'): okk = False; why = 'the loop ends early'; break
                        v = q.st.env.get(w)
                        if v is None: okk = False; why = 'a body is skipped'; break
                        pu = truth(q.facts, V('permForceUsed')); exp = []
                        pt = mk('ld', mk('L.e', A(PERM[K]), iv), 0) if K in PERM else None
                        good = False
                        for k in (0, 1):
                            r = v
                            if k: 
                                if pt is None: continue
                                # generation of the element read may differ
                                r2 = [x for x in subterms(v) if x.op == 'ld' and x.args[0] is pt.args[0]]
                                if not r2: continue
                                r = sub(v, r2[0])
                            if r.op == 'sum' and is_thread_sum(r, data, iv, e_of(p, le, r)): 
                                if pt is None or (k == 1 and pu is True) or (k == 0 and pu is False): good = True
                            if r.op == 'ite' or (pt is not None and pu is None):
                                g = ungate(v, V('permForceUsed'))
                                if g and all(is_thread_sum(x, data, iv, None) for x in (g[0], )) : good = good or perm_diff(g, pt)
                        if not good: okk = False; why = 'its value is %s' % show(v)[:160]; break
                ctx.check(okk, 'sum', f['file'], f['line'], f['q'], 'the summed %s of a body is not the sum over all threads plus the permanent load in use: %s' % (K.lower(), why), key='sync|' + K)
            # sizes equalised before the sums
            evs = [e for e in p.events if e.kind == 'store' and fname(e.obj) == FC + '::synced' and e.val is TRUE]
            ctx.check(len(evs) > 0 and all(any(own(c) == 'globalMutex' for c in locks_held(e)) for e in evs), 'sum', f['file'], f['line'], f['q'], 'the sums are written without holding the container mutex', key='sync|lock')
            ctx.check(p.st.env.get(LF('syncCount')) is add(V('syncCount'), ONE), 'sum', f['file'], f['line'], f['q'], 'the summation is not counted once', key='sync|count')
            ok = truth(p.facts, V('syncedSizes')) is True or flag(p, 'syncedSizes') is TRUE or any('syncedSizes' in repr(g) and g.op == 'nn' for g in p.facts)
            ctx.check(ok, 'sizes', f['file'], f['line'], f['q'], 'sums over storages whose sizes have not been equalised', key='sync|sizes')
    # --- reset
    for f in fn('reset'):
        for p in paths(f):
            z = zeroed(p)
            mr = truth(p.facts, V('moveRotUsed')); ra = truth(p.facts, mk('param', 'arg1'))
            need = [('_force', 0), ('_torque', 0), ('_forceData', 1), ('_torqueData', 1)]
            if mr is not False: need += [('_move', 0), ('_rot', 0), ('_moveData', 1), ('_rotData', 1)]
            if ra is not False: need += [('_permForce', 0), ('_permTorque', 0)]
            for n, t in need:
                ctx.check(n in z, 'reset', f['file'], f['line'], f['q'], '%s survives a reset' % n, key='reset|' + n)
            if ra is False:
                for n in PERMS: ctx.check(n not in z and not any(which(k) and which(k)[0] == n for k in p.st.env), 'reset', f['file'], f['line'], f['q'], 'permanent loads are dropped by an ordinary reset', key='reset|keep|' + n)
                ctx.check(flag(p, 'permForceUsed') is V('permForceUsed'), 'reset', f['file'], f['line'], f['q'], 'an ordinary reset changes whether permanent loads are in use', key='reset|keepflag')
            if ra is True: ctx.check(flag(p, 'permForceUsed') is FALSE, 'reset', f['file'], f['line'], f['q'], 'permanent loads stay in use after being dropped', key='reset|dropflag')
            pu = flag(p, 'permForceUsed'); pu = FALSE if pu is FALSE else pu
            sy = flag(p, 'synced')
            t = False if pu is FALSE else truth(p.facts, pu)
            ctx.check((sy is TRUE and t is False) or (sy is FALSE) or (sy is bnot(nonzero(pu))), 'reset', f['file'], f['line'], f['q'], 'the sums are marked valid although permanent loads are missing from them', key='reset|synced')
            ctx.check(sy is FALSE or flag(p, 'moveRotUsed') is FALSE or mr is False, 'reset', f['file'], f['line'], f['q'], 'imposed displacements stay marked as used', key='reset|mr')
    # --- constructor
    for f in fn(FC):
        for p in paths(f):
            ctx.check(flag(p, 'synced') is TRUE and flag(p, 'permForceUsed') is FALSE and flag(p, 'moveRotUsed') is FALSE, 'clean', f['file'], f['line'], f['q'], 'flags of a fresh container', key='ctor|flags')
            nT = flag(p, 'nThreads')
            ctx.check(nT is mk('app', 'omp_get_max_threads'), 'clean', f['file'], f['line'], f['q'], 'does not allocate for the maximum number of threads', key='ctor|n')
            have = set()
            for le in loops_of(p):
                if covers(le.info, n=nT) and all(q.end == 'fall' for q in le.paths):
                    for n in sorted(DATA | {'sizeOfThreads', '_maxId'}):
                        if all(sum(1 for e in q.events if e.kind == 'call' and e.q.split('::')[-1] in ('push_back', 'emplace_back') and own(e.obj) == n) == 1 for q in le.paths): have.add(n)
            for e in p.events:
                if e.kind == 'call' and e.q.split('::')[-1] in ('resize', 'assign') and e.obj is not None and own(e.obj) and e.args and e.args[0] is nT: have.add(own(e.obj))
            ctx.check(have >= DATA | {'sizeOfThreads', '_maxId'}, 'clean', f['file'], f['line'], f['q'], 'no storage per thread: %s' % sorted((DATA | {'sizeOfThreads', '_maxId'}) - have), key='ctor|alloc')
    integrate(ctx); expose(ctx)

def issize(t): return any(x is LF('size') for x in subterms(t)) and (t.op in ('ld', 'lo', 'lh'))
def e_of(p, le, r): return None
def is_thread_sum(r, data, iv, _):
    if r.op != 'sum': return False
    d = r.args[1]
    if d.op != 'ld': return False
    w = which(d.args[0])
    if not (w and w[0] == data and w[1].op == 'iv' and w[1].args[0] == r.args[0] and w[2] is iv): return False
    return r.args[0] in THREADLOOPS
class _TL:
    def __contains__(s, lid):
        i = LOOPS.get(lid)
        return i is not None and covers(i, n=V('nThreads'))
THREADLOOPS = _TL(); 
class _L:
    def get(s, lid):
        for e in ENGINES:
            if lid in e.loopinfo: return e.loopinfo[lid]
LOOPS = _L()
ENGINES = []
_eng = engine
def engine(db, **k):
    e = _eng(db, **k); ENGINES.append(e); return e
def ungate(v, flagv):
    c = nonzero(flagv)
    if not any(x.op == 'ite' and x.args[0] in (c, bnot(c)) for x in subterms(v)): return None
    def arm(val):
        def f(x):
            if x.op == 'ite' and x.args[0] is c: return subst(x.args[1 if val else 2], f)
            if x.op == 'ite' and x.args[0] is bnot(c): return subst(x.args[2 if val else 1], f)
        return subst(v, f)
    return arm(False), arm(True)
def perm_diff(g, pt):
    if pt is None: return False
    d = sub(g[1], g[0])
    return d.op == 'ld' and d.args[0] is pt.args[0]
def deloc(v): return mk('ld', v, 0) if v is not None and v.op in ('L.e', 'L.f') else v
def leaves(v, facts=()):
    """(conditions, value) of the gates of a returned value"""
    if v.op == 'ite': return [((v.args[0],) + c, x) for c, x in leaves(v.args[1])] + [((bnot(v.args[0]),) + c, x) for c, x in leaves(v.args[2])]
    return [((), v)]
def checkread(ctx, f, p, store, K):
    v = p.val
    if v is None: ctx.bad('read', f['file'], f['line'], f['q'], 'a path returns nothing', key='get|%s|none' % K); return
    for cs, x in leaves(v):
        x = deloc(x)
        inb = entails(list(p.facts) + list(cs), lt0(sub(ID, V('size')), True)) or entails(list(p.facts) + list(cs), lt0(sub(ID, mk('app', 'size', A(store), ZERO)), True))
        if x.op == 'ld' and x.args[0] is mk('L.e', A(store), ID): ctx.check(inb, 'read', f['file'], f['line'], f['q'], 'reads beyond the storage', key='get|%s|bounds' % K)
        elif x is V('_zero') or x is ZERO: ctx.check(not inb, 'read', f['file'], f['line'], f['q'], 'returns zero for a body that has an entry', key='get|%s|zero' % K)
        else: ctx.bad('read', f['file'], f['line'], f['q'], 'returns %s instead of the entry of the body' % show(x)[:100], key='get|%s|value' % K)
def single(ctx, f, p, data, K):
    v = p.val; pu = truth(p.facts, V('permForceUsed'))
    if v is None: ctx.bad('read', f['file'], f['line'], f['q'], 'a path returns nothing', key='single|%s|none' % K); return
    r = v
    if K in PERM:
        pt = [x for x in subterms(v) if x.op == 'ld' and x.args[0] is mk('L.e', A(PERM[K]), ID)]
        cand = sub(v, pt[0]) if pt else None
        inb = entails(p.facts, lt0(sub(ID, mk('app', 'size', A(PERM[K]), ZERO)), True))
        if pt and cand.op == 'sum':
            r = cand
            ctx.check(pu is True and inb, 'read', f['file'], f['line'], f['q'], 'the permanent load is added although none is in use or the body has none', key='single|%s|perm' % K)
        elif not pt:
            out = bor(bnot(nonzero(V('permForceUsed'))), bnot(lt0(sub(ID, mk('app', 'size', A(PERM[K]), ZERO)), True)))
            ctx.check(pu is False or out in p.facts or entails(p.facts, bnot(lt0(sub(ID, mk('app', 'size', A(PERM[K]), ZERO)), True))), 'read', f['file'], f['line'], f['q'], 'the permanent load in use is left out', key='single|%s|noperm' % K)
        else:
            # gated
            g = None; r = None
            for x in subterms(v):
                if x.op == 'sum': r = x
    ok = r is not None and r.op == 'sum' and r.args[0] in THREADLOOPS
    if ok:
        d = r.args[1]; iv = mk('iv', r.args[0]); el = mk('L.e', slot(data, iv), ID)
        if d.op == 'ite':
            c, a, b = d.args
            szs = [mk('ld', mk('L.e', A('sizeOfThreads'), iv), 0), mk('app', 'size', slot(data, iv), ZERO)]
            if c.op == 'not': c, a, b = c.args[0], b, a
            inb = any(entails([c], lt0(sub(ID, z), True)) and entails([bnot(c)], bnot(lt0(sub(ID, z), True))) for z in szs)
            ok = a.op == 'ld' and a.args[0] is el and (b is V('_zero') or b is ZERO) and inb
        else: ok = False
    else:
        d = None
        if r is not None and r.op == 'sumif' and r.args[0] in THREADLOOPS:
            iv = mk('iv', r.args[0]); el = mk('L.e', slot(data, iv), ID); d = r.args[1]
            szs = [mk('ld', mk('L.e', A('sizeOfThreads'), iv), 0), mk('app', 'size', slot(data, iv), ZERO)]
            ok = d.op == 'ld' and d.args[0] is el
            for le in loops_of(p):
                for q in le.paths: pass
    ctx.check(ok, 'read', f['file'], f['line'], f['q'], 'is not the sum over all threads of the body\'s entries: %s' % show(v)[:160], key='single|%s|sum' % K)

def zeroed(p):
    """storages set to zero over their full length on this path"""
    out = set()
    SIZES = {V('size')}
    def scan(q, iv, ok):
        res = set()
        for e in q.events:
            if e.kind == 'call' and e.q.split('::')[-1] in ('memset', 'fill', 'fill_n') and e.args:
                nm = e.q.split('::')[-1]
                a = e.args[0]
                if nm == 'memset':
                    el = elem(a.args[0]) if a.op == 'addr' else None
                    if a.op == 'app' and a.args[0] == 'data': el = (a.args[1], ZERO)
                    if not el or el[1] is not ZERO: continue
                    s = storage(el[0])
                    if not s or e.args[1] is not ZERO: continue
                    n = e.args[2]
                    szs = [x for _, m in poly_items(n) for x in m if x.op == 'sizeof']
                    if len(szs) != 1: continue
                    n = div1(n, szs[0])
                elif nm == 'fill':
                    if a.op != 'it' or a.args[1] is not ZERO or e.args[1].op != 'it' or e.args[2] is not ZERO: continue
                    s = storage(a.args[0]); n = e.args[1].args[1]
                    if not s: continue
                else: continue
                if s[1] is None:
                    if n is None: continue
                    if n is V('size') or (n.op in ('lo', 'lh') and issize(n)) or (n.op == 'app' and n.args[0] == 'size' and storage(n.args[1]) == s): res.add((s[0], None))
                elif s[1] is iv:
                    cur = mk('L.e', A('sizeOfThreads'), iv)
                    if n is not None and ((n.op == 'ld' and n.args[0] is cur) or n is V('size') or (n.op in ('ld', 'lo') and issize(n)) or (n.op == 'app' and n.args[0] == 'size' and storage(n.args[1]) == s)): res.add((s[0], iv))
            if e.kind == 'loop':
                i2 = e.info['iv']
                full = covers(e.info, n=lambda t: issize(t) or t is V('size') or (t.op == 'app' and t.args[0] == 'size'))
                for k in set(k for r in e.paths for k in r.st.env if which(k)):
                    w = which(k)
                    if w[2] is i2 and full and all(r.st.env.get(k) is ZERO and r.end == 'fall' for r in e.paths): res.add((w[0], w[1]))
        return res
    for s, t in scan(p, None, True): out.add(s)
    for le in loops_of(p):
        if covers(le.info, n=V('nThreads')):
            # branches inside the iteration on facts decided outside: keep the compatible ones
            comp = [q for q in le.paths if not any(bnot(g) in p.facts for g in q.facts)]
            rs = [scan(q, le.info['iv'], True) for q in comp]
            if rs and all(q.end == 'fall' for q in comp):
                for s, t in set.intersection(*rs): out.add(s)
    return out
def div1(n, s):
    it = poly_items(n)
    d = {}
    for c, m in it:
        l = list(m)
        if s not in l: return None
        l.remove(s); d[tuple(l)] = c
    return from_items(d)

def integrate(ctx):
    db = DB(['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/Integrator.cpp']); db.require_clean()
    n = 0
    fs = [f for l in db.byq.values() for f in l if f['file'] in ('pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/Integrator.cpp') and f.get('cls') in ('NewtonIntegrator', 'Integrator')]
    READ = tuple(FC + '::' + x for x in ('getForce', 'getTorque', 'addForceUnsynced', 'addTorqueUnsynced'))
    def summed_before(f, pred, seen=()):
        o = order(f['body'])
        first = min([i for i, (nme, l, d) in enumerate(o) if pred(nme)] or [10**9])
        if any(nme == FC + '::sync' and not d and i < first for i, (nme, l, d) in enumerate(o)): return True
        # the sum may be made in the same conditional block, right before
        if any(nme == FC + '::sync' and i < first for i, (nme, l, d) in enumerate(o)): return True
        callers = [g for g in fs if g['key'] not in seen and g['q'] != f['q'] and any(nme == f['q'] for nme, l, d in order(g['body']))]
        return bool(callers) and all(summed_before(g, lambda x: x == f['q'], seen + (f['key'],)) for g in callers)
    for f in fs:
        if not any(nme.startswith(READ) for nme, l, d in order(f['body'])): continue
        n += 1
        ctx.check(summed_before(f, lambda x: x.startswith(READ)), 'integrate', f['file'], f['line'], f['q'], 'reads loads before (or without) summing the threads\' entries', key='integrate|' + f['q'])
    ctx.setc('integrators', n)
    if n == 0: raise AnalysisBroken('no integrator reads the loads')
def order(b):
    """calls in source order with a flag: conditional"""
    out = []
    def rec(n, cond):
        if not isinstance(n, list) or not n: return
        if isinstance(n[0], str):
            if n[0] == 'call': 
                for x in n[4:]: rec(x, cond)
                out.append((n[3], n[1], cond)); return
            if n[0] in ('if', 'for', 'while', 'rfor', 'switch', 'cond', 'lambda', 'do', 'case', 'try'):
                for x in n[1:]: rec(x, True)
                return
        for x in n: rec(x, cond)
    rec(b, False); return out
def topcalls(b): return [x for x in order(b) if not x[2]]

WR = {'force_get': 'Force', 'torque_get': 'Torque', 'move_get': 'Move', 'rot_get': 'Rot', 'force_add': 'Force', 'torque_add': 'Torque', 'move_add': 'Move', 'rot_add': 'Rot', 'permForce_get': 'PermForce', 'permTorque_get': 'PermTorque', 'permForce_set': 'PermForce', 'permTorque_set': 'PermTorque'}
def expose(ctx):
    db = DB(['py/wrapper/yadeWrapper.cpp']); db.require_clean()
    n = 0
    cls = 'pyForceContainer'
    for m, K in WR.items():
        for f in db.fn(cls + '::' + m):
            n += 1
            e = engine(db, opaque={FC + '::' + x for x in ('sync', 'getForce', 'getTorque', 'getMove', 'getRot', 'getForceSingle', 'getTorqueSingle', 'getMoveSingle', 'getRotSingle', 'addForce', 'addTorque', 'addMove', 'addRot', 'setPermForce', 'setPermTorque', 'getPermForce', 'getPermTorque')} | {cls + '::checkId'})
            for p in e.run(f):
                if p.end == 'throw': continue
                cs = [c for c in p.events if c.kind == 'call' and c.q.startswith((FC, cls))]
                ids = [i for i, c in enumerate(cs) if c.q == cls + '::checkId' and c.args[0] is ID]
                acc = [(i, c) for i, c in enumerate(cs) if c.q.split('::')[-1] not in ('sync', 'checkId')]
                ctx.check(bool(acc) and all(c.args[0] is ID for _, c in acc), 'expose', f['file'], f['line'], f['q'], 'accesses another body than the one given', key='expose|%s|id' % m)
                ctx.check(bool(ids) and all(i > ids[0] for i, _ in acc), 'expose', f['file'], f['line'], f['q'], 'the id is used unchecked', key='expose|%s|check' % m)
                for i, c in acc:
                    nm = c.q.split('::')[-1]; base_ = nm[3:].replace('Single', '')
                    perm = truth(p.facts, mk('param', 'arg2')) if m.endswith('_add') and K in ('Force', 'Torque') else None
                    want = {K} if not (m in ('force_add', 'torque_add')) else ({'Perm' + K} if perm is True else {K} if perm is False else {K})
                    ctx.check(base_ in want and (nm.startswith('get') == m.endswith('_get')), 'expose', f['file'], f['line'], f['q'], 'calls %s' % nm, key='expose|%s|kind' % m)
                    if nm.startswith('get') and not nm.endswith('Single') and not nm.startswith('getPerm'):
                        ctx.check(any(x.q == FC + '::sync' for x in cs[:i]), 'expose', f['file'], f['line'], f['q'], 'reads summed loads without summing first', key='expose|%s|sync' % m)
                    if not nm.startswith('get'): ctx.check(c.args[1] is VEC(), 'expose', f['file'], f['line'], f['q'], 'adds another vector than the one given', key='expose|%s|val' % m)
    ctx.setc('script_functions', n)
    if n < 6: raise AnalysisBroken('scripting functions of the load container not found')
