"""C01: the interaction container never loses, duplicates or half-removes an interaction."""
from kit import *
RULES = {
 'insert': 'every path of an insertion either changes nothing and reports failure, or enters the interaction in the maps of both its bodies under the other body\'s id, appends it to the linear list, stores its position in it and reports success',
 'erase': 'every path of an erasure either changes nothing and reports failure, or removes the map entries of both bodies and fills the slot of the removed interaction with the last one, whose stored position is updated, before shrinking the list by one',
 'clear': 'clearing empties the map of every body, the linear list and the counter',
 'lookup': 'a lookup normalises the pair of ids, returns the map entry exactly when both ids are in range, the body exists and the entry exists, and an empty result otherwise',
 'locked': 'every change of the linear list and of the maps happens with the container mutex held',
 'owner': 'the maps, the linear list, its counter and the stored positions are written by the container only; the ids of an interaction are only written by construction and by the guarded swap',
 'eraseloop': 'no loop erases from the container it is iterating over, except index loops that stay in place after an erasure or run backwards; only interactions that are not real are erased, with the position they are stored at',
 'reload': 'saving visits every interaction and keeps every real one; loading re-inserts every saved interaction whose bodies exist',
}
EXPLAIN = ('Effect summaries (value-numbered final state per path) of every member function of the interaction container, compared with the four legal transitions none/insert/erase/clear of the representation invariant; '
           'plus a who-writes query for the representation fields over all sources that mention them.')
ASSUMES = ['std::map::insert does not overwrite and reports whether it inserted; bodies have non-negative ids in range when an interaction between them is inserted (callers insert ids of existing bodies)']
IC = 'InteractionContainer'
FILES = ['core/InteractionContainer.cpp', 'core/Interaction.cpp', 'core/BodyContainer.cpp', 'core/Body.cpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/common/Collider.cpp', 'core/Scene.cpp']
F_LIN, F_CUR, F_IX, F_MAP, F_BODIES = IC + '::linIntrs', IC + '::currSize', 'Interaction::linIx', 'Body::intrs', IC + '::bodies'

def L(q): return mk('addr', mk('L.f', mk('this'), q))
LIN = L(F_LIN); CUR0 = mk('ld', mk('L.f', mk('this'), F_CUR), 0)
INV = {mk('app', 'size', LIN, ZERO): CUR0}     # representation invariant: length of the list == counter
def inv(t): return subst(t, lambda x: INV.get(x)) if t is not None else t

def mapref(a):
    """(index of the body in the body table) of the map object a = &bodies[index].intrs"""
    if a.op == 'addr' and a.args[0].op == 'L.f' and a.args[0].args[1] == F_MAP:
        b = a.args[0].args[0]
        e = elem(b)
        if e and fname(e[0]) in (F_BODIES, 'BodyContainer::body'): return e[1]
    return None
def gates(*ts):
    c = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'ite' and x.args[0] not in c: c.append(x.args[0])
    return c[:4]
def arms(ts):
    """all ways to resolve the gates in the tuple of terms"""
    g = gates(*ts)
    if not g: return [tuple(ts)]
    c = g[0]
    out = []
    for v in (0, 1):
        def f(x):
            if x.op == 'ite' and x.args[0] is c: return subst(x.args[1 + v], f)
        out += arms(tuple(subst(t, f) for t in ts))
    return out
def same_pair(x, y, a, b):
    """{x,y} == {a,b} in every arm"""
    return all({p, q} == {r, s} and (p is not q or r is s) for p, q, r, s in arms((x, y, a, b)))

def summary(p):
    s = {'ins': [], 'del': [], 'other': [], 'cur': None, 'size': None, 'elems': {}, 'ix': {}}
    for e in p.events:
        if e.kind == 'call' and e.obj is not None:
            m = mapref(e.obj)
            if m is not None and e.q in ('std::insert', 'std::emplace'):
                k = v = None
                if len(e.args) == 1 and e.args[0].op == 'obj': k, v = e.args[0].args[2], e.args[0].args[4]
                elif len(e.args) == 2: k, v = e.args
                s['ins'].append((m, k, v, e))
            elif m is not None and e.q == 'std::erase':
                a = e.args[0]
                k = a.args[1].args[1] if a.op == 'it' and a.args[1].op == 'pos' else a
                s['del'].append((m, k, e))
            elif m is not None and e.q.startswith('std::'): s['other'].append(e)
        if e.kind == 'store':
            el = elem(e.obj)
            if el:
                m = mapref(el[0])
                if m is not None: s['ins'].append((m, el[1], e.val, e))
    env = p.st.env
    s['cur'] = inv(env.get(mk('L.f', mk('this'), F_CUR), CUR0))
    s['size'] = inv(env.get(mk('L.size', LIN), CUR0))
    for k, v in env.items():
        if k.op == 'L.e' and k.args[0] is LIN: s['elems'][inv(k.args[1])] = v
        if k.op == 'L.f' and k.args[1] == F_IX and root(k).op not in ('L.var', 'L.tmp', 'undef', 'obj'): s['ix'][k.args[0]] = inv(v)
    return s
def touched(s): return bool(s['ins'] or s['del'] or s['other'] or s['elems'] or [k for k in s['ix'] if root(k).op != 'newobj'] or s['cur'] is not CUR0 or s['size'] is not CUR0)

def succeeded(e, facts):
    """was this map insertion successful on this path? True/False/None"""
    for f in facts:
        n = f.args[0] if f.op == 'not' else f
        if n.op == 'nn' and n.args[0].op == 'fv' and n.args[0].args[0] is e.val and n.args[0].args[1].endswith('::second'): return f.op != 'not'
    return None

def run(ctx):
    db = DB(FILES); db.require_clean()
    ent = {k: db.fn(IC + '::' + k) for k in ('insert', 'erase', 'clear', 'find', 'found', 'requestErase', 'eraseNonReal', 'preSave', 'postLoad__calledFromScene')}
    for k, v in ent.items():
        if not v: raise AnalysisBroken('no definition of %s::%s' % (IC, k))
    prim = [f for f in ent['insert'] if len(f['params']) == 1]
    PRIM = {f['key'] for f in prim} | {f['key'] for f in ent['erase'] + ent['clear']}
    def paths(f, opq=()):
        e = engine(db, opaque=set(opq)); ps = e.run(f); ctx.count('functions'); ctx.count('paths', len(ps)); return ps
    # ---- insert
    for f in ent['insert']:
        one = len(f['params']) == 1
        for p in paths(f):
            if p.end == 'throw': continue
            s = summary(p)
            x = mk('ld', mk('L.d', mk('param', 'arg0')), 0) if one else None
            if not one:
                vs = [v for _, _, v, _ in s['ins'] if v is not None]
                x = vs[0] if vs else None
            fn, line = f['q'], f['line']
            # representation invariant: the two maps agree, so the mirrored insertion cannot have the opposite outcome
            out = [(succeeded(e, p.facts)) for _, _, _, e in s['ins'] if e.kind == 'call']
            if len(out) == 2 and out[0] is True and out[1] is False and s['ins'][0][0] is s['ins'][1][1] and s['ins'][0][1] is s['ins'][1][0]: ctx.count('infeasible_by_invariant'); continue
            done = [i for i in s['ins'] if i[3].kind != 'call' or succeeded(i[3], p.facts) is not False]
            s2 = dict(s, ins=done)
            if p.val is FALSE:
                ctx.check(not touched(s2), 'insert', f['file'], line, fn, 'a failing insertion leaves the container changed (%s)' % desc(s2), key='insert|' + fn + '|fail')
                continue
            ids = None
            if x is not None:
                if x.op == 'newobj': ids = (mk('param', 'arg0'), mk('param', 'arg1'))
                else: ids = (mk('ld', mk('L.f', x, 'Interaction::id1'), 0), mk('ld', mk('L.f', x, 'Interaction::id2'), 0))
            ok = ids is not None and len(done) == 2
            ctx.check(ok and all(v is x for _, _, v, _ in done) and all(same_pair(m, k, *ids) for m, k, _, _ in done) and done[0][0] is not done[1][0] and all(a is not b for a, b in zip(*[(m, ) for m, _, _, _ in done])), 'insert', f['file'], line, fn,
                      'a successful insertion does not enter the interaction in both bodies\' maps under the other id (%s)' % desc(s), key='insert|' + fn + '|maps')
            ctx.check(all(i[3].kind != 'call' or succeeded(i[3], p.facts) for i in s['ins'][:1]), 'insert', f['file'], line, fn, 'the interaction is appended although the pair already has one', key='insert|' + fn + '|dup')
            ctx.check(s['cur'] is add(CUR0, ONE) and s['size'] is add(CUR0, ONE) and s['elems'].get(CUR0) is x and set(s['elems']) == {CUR0} and s['ix'] == {x: CUR0}, 'insert', f['file'], line, fn,
                      'the linear list, its counter and the stored position do not grow together (%s)' % desc(s), key='insert|' + fn + '|lin')
            locked(ctx, p, f)
    # ---- erase
    for f in ent['erase']:
        a0, a1, a2 = (mk('param', 'arg%d' % i) for i in range(3))
        for p in paths(f):
            if p.end == 'throw': continue
            s = summary(p); fn, line = f['q'], f['line']
            facts = p.facts
            def pos_fact(m, k):
                """is there an entry k in the map of body m on this path"""
                for g in facts:
                    n = g.args[0] if g.op == 'not' else g
                    if n.op == 'eq0':
                        ps = [x for x in subterms(n) if x.op == 'pos']
                        if len(ps) == 1 and mapref(ps[0].args[0]) is m and ps[0].args[1] is k: return g.op == 'not'
                    if n.op == 'nn' and n.args[0].op == 'app' and n.args[0].args[0] == 'count' and mapref(n.args[0].args[1]) is m and n.args[0].args[2] is k: return g.op != 'not'
                return None
            keyed = [(mapref(x.args[0]), x.args[1]) for g in facts for x in subterms(g) if x.op == 'pos' and mapref(x.args[0]) is not None]
            keyed += [(mapref(x.args[1]), x.args[2]) for g in facts for x in subterms(g) if x.op == 'app' and x.args[0] == 'count' and mapref(x.args[1]) is not None]
            st = {mk_: pos_fact(*mk_) for mk_ in set(keyed)}
            inf = False
            for (m, k), v in st.items():
                w = st.get((k, m))
                if w is not None and w != v: inf = True      # the maps of two live bodies agree
            # a stored position is never negative
            if any(g.op == 'lt0' and any(is_field(x, 'Interaction::linIx') for x in subterms(g)) and fname(g.args[0]) == F_IX for g in facts): inf = True
            if inf: ctx.count('infeasible_by_invariant'); continue
            if p.val is FALSE:
                ctx.check(not touched(s), 'erase', f['file'], line, fn, 'a failing erasure leaves the container changed (%s)' % desc(s), key='erase|fail'); continue
            for m, k, e in s['del']:
                ctx.check(same_pair(m, k, a0, a1), 'erase', f['file'], e.line, fn, 'erases the map entry of another pair', key='erase|pair')
            for (m, k), v in st.items():
                if v is True: ctx.check(any(dm is m and dk is k for dm, dk, _ in s['del']), 'erase', f['file'], line, fn, 'the pair\'s entry in a body\'s map is found but not removed', key='erase|keep')
            # each of the two bodies is gone, or its entry is removed, or it has none (the maps of two live bodies agree)
            def dead(m): return any(g.op == 'not' and g.args[0].op == 'nn' and (elem(g.args[0].args[0]) or (0, 0))[1] is m and fname(elem(g.args[0].args[0])[0]) in (F_BODIES, 'BodyContainer::body') for g in facts)
            ids_ = {m for m, _ in st} | {m for m, _, _ in s['del']} | {(elem(g.args[0].args[0]) or (0, 0))[1] for g in facts if g.op == 'not' and g.args[0].op == 'nn' and elem(g.args[0].args[0]) and fname(elem(g.args[0].args[0])[0]) in (F_BODIES, 'BodyContainer::body')}
            ids_ = [x for x in ids_ if isinstance(x, Term)]
            pair = None
            for x in ids_:
                for y in ids_:
                    if x is not y and same_pair(x, y, a0, a1): pair = (x, y)
            if pair is None and ids_:
                x = ids_[0]; y = sub(add(a0, a1), x)
                def other(t):
                    if t is a0: return a1
                    if t is a1: return a0
                    if t.op == 'ite' and {t.args[1], t.args[2]} == {a0, a1}: return ite(t.args[0], t.args[2], t.args[1])
                    if t.op == 'app' and t.args[0] in ('min', 'max') and set(t.args[1:]) == {a0, a1}: return mk('app', 'max' if t.args[0] == 'min' else 'min', *t.args[1:])
                y = other(x); pair = (x, y) if y is not None else None
            if pair:
                for m, k in (pair, pair[::-1]):
                    gone = dead(m) or any(dm is m and dk is k for dm, dk, _ in s['del']) or pos_fact(m, k) is False or (pos_fact(k, m) is False and not dead(k))
                    ctx.check(gone, 'erase', f['file'], line, fn, 'an existing body keeps the entry of the removed interaction in its map when the other body is gone', key='erase|stale')
            else: ctx.bad('erase', f['file'], line, fn, 'the maps of the two bodies are not consulted', key='erase|nomaps')
            # which position is removed
            have = [(m, k) for (m, k), v in st.items() if v]
            ix = None
            if have:
                m, k = have[0]
                cand = [x for x in list(s['elems']) + [t for v in s['ix'].values() for t in [v]] + [y for g in facts for y in subterms(g)] if fname(x) == F_IX]
                cand = [x for x in cand if any(y.op == 'pos' and {mapref(y.args[0]), y.args[1]} == {m, k} for y in subterms(x))]
                ix = cand[0] if cand else None
            else: ix = a2
            last = sub(CUR0, ONE)
            okc = s['cur'] is last and s['size'] is last
            ctx.check(okc, 'erase', f['file'], line, fn, 'the list and its counter do not both shrink by one (%s)' % desc(s), key='erase|shrink')
            notlast = ix is not None and entails(facts, lt0(sub(ix, last), True))
            islast = ix is not None and entails(facts, bnot(lt0(sub(ix, last), True)))
            lastv = mk('ld', mk('L.e', LIN, last), 0)
            moved = ix is not None and s['elems'].get(ix) is lastv and s['ix'].get(lastv) is ix and set(s['elems']) == {ix} and set(s['ix']) == {lastv}
            none = not s['elems'] and not s['ix']
            ctx.check(moved or (islast and none), 'erase', f['file'], line, fn, 'the slot of the removed interaction is not filled with the last one with its stored position updated (%s)' % desc(s), key='erase|fill')
            locked(ctx, p, f)
    # ---- clear
    for f in ent['clear']:
        for p in paths(f):
            env = p.st.env
            lp = [e for e in loops_of(p) if any(c.q == 'std::clear' and (elem(base(c.obj.args[0]) if c.obj.op == 'addr' else c.obj) or (None,))[0] is not None for q in e.paths for c in q.events if c.kind == 'call')]
            good = False
            for e in lp:
                cv = e.info['cont'] is not None and fname(e.info['cont']) in (F_BODIES, 'BodyContainer::body') or covers(e.info, n=lambda t: t.op == 'app' and t.args[0] == 'size' and fname(t.args[1]) in (F_BODIES, 'BodyContainer::body'))
                iv = e.info['iv']
                allp = True
                for q in e.paths:
                    cl = [c for c in q.events if c.kind == 'call' and c.q == 'std::clear' and mapref(c.obj) is iv]
                    dead = any(g.op == 'not' and g.args[0].op == 'nn' and (elem(g.args[0].args[0]) or (0, 0))[1] is iv for g in q.facts)
                    if not cl and not dead: allp = False
                    if q.end in ('break', 'return'): allp = False
                if cv and allp: good = True
            ctx.check(good, 'clear', f['file'], f['line'], f['q'], 'clearing does not empty the maps of all bodies', key='clear|maps')
            ctx.check(inv(env.get(mk('L.f', mk('this'), F_CUR), CUR0)) is ZERO and env.get(mk('L.size', LIN)) is ZERO, 'clear', f['file'], f['line'], f['q'], 'clearing leaves the list or the counter non-empty', key='clear|lin')
            locked(ctx, p, f)
    # ---- lookups
    a0, a1 = mk('param', 'arg0'), mk('param', 'arg1')
    for f in ent['find'] + ent['found']:
        nm = f['q'].split('::')[-1]
        pa = [mk('ld', mk('L.d', mk('param', 'arg%d' % i)), 0) if f['params'][i][3] else mk('param', 'arg%d' % i) for i in (0, 1)]
        for p in paths(f):
            if p.end == 'throw': continue
            v = p.val
            hit = None
            t = v if nm == 'found' else (p.st.env.get(v) if v is not None and v.op.startswith('L.') and v in p.st.env else (mk('ld', v, 0) if v is not None and v.op.startswith('L.') else v))
            if t is None: ctx.bad('lookup', f['file'], f['line'], f['q'], 'a path returns nothing', key='lookup|' + nm); continue
            pos = [(mapref(x.args[0]), x.args[1]) for x in subterms(t) if x.op == 'pos'] + [(mapref(x.args[1]), x.args[2]) for x in subterms(t) if x.op == 'app' and x.args[0] in ('count', 'find') and len(x.args) > 2]
            pos = [q for q in pos if q[0] is not None]
            if pos:
                m, k = pos[0]
                ctx.check(same_pair(m, k, *pa), 'lookup', f['file'], f['line'], f['q'], 'looks up another pair than the one asked for', key='lookup|%s|pair' % nm)
                if nm == 'find':
                    e = [x for x in subterms(t) if x.op == 'it' or (x.op == 'L.e' and x.args[1].op == 'pos')]
                    ctx.check(any(g.op == 'not' and g.args[0].op == 'eq0' and any(y.op == 'pos' and mapref(y.args[0]) is m and y.args[1] is k for y in subterms(g)) for g in p.facts) or any(y.op == 'app' and y.args[0] == 'count' for g in p.facts for y in subterms(g)), 'lookup', f['file'], f['line'], f['q'], 'returns a map entry without having checked that it exists', key='lookup|find|exists')
                    ctx.check(any(g.op == 'nn' and (elem(g.args[0]) or (0, 0))[1] is m for g in p.facts), 'lookup', f['file'], f['line'], f['q'], 'uses the map of a body that may have been erased', key='lookup|find|null')
                    ctx.check(any(g.op == 'lt0' and any(y.op == 'app' and y.args[0] == 'size' for y in subterms(g)) for g in p.facts), 'lookup', f['file'], f['line'], f['q'], 'indexes the body table without a range check', key='lookup|find|range')
            else:
                empty = t is FALSE or t is NULL or (nm == 'find' and (t is NULL or p.st.env.get(v) is NULL))
                why = any((g.op == 'not' and g.args[0].op == 'lt0' and any(y.op == 'app' and y.args[0] == 'size' for y in subterms(g))) or (g.op == 'not' and g.args[0].op == 'nn') or g.op == 'eq0' or
                          (g.op == 'lt0' and not any(y.op == 'app' and y.args[0] == 'size' for y in subterms(g))) or (g.op == 'or') for g in p.facts)
                strong = any((g.op == 'not' and g.args[0].op == 'lt0' and any(y.op == 'app' and y.args[0] == 'size' for y in subterms(g))) or (g.op == 'not' and g.args[0].op == 'nn') or (g.op == 'eq0' and (any(y.op == 'pos' for y in subterms(g)) or same_pair(*pa, *[q for q in pa]) and g.args[0] in (sub(*pa), sub(pa[1], pa[0])))) or g.op == 'or' for g in p.facts)
                ctx.check(empty and strong, 'lookup', f['file'], f['line'], f['q'], 'an empty result although the pair is in range and its entry exists (facts: %s)' % ' & '.join(show(g)[:60] for g in p.facts), key='lookup|%s|empty' % nm)
    # ---- request for erasure resets the interaction that was asked for and touches nothing else
    for f in ent['requestErase']:
        for p in paths(f, PRIM):
            s = summary(p)
            fl = {k for k, v in p.st.env.items() if k.op == 'L.f' and v is NULL}
            names = {k.args[1] for k in fl}
            missing = any(g.op == 'not' and g.args[0].op == 'nn' for g in p.facts) or any(g.op == 'eq0' for g in p.facts) or any(g.op == 'not' and g.args[0].op == 'lt0' for g in p.facts)
            ctx.check(not touched(s) and ({'Interaction::geom', 'Interaction::phys'} <= names or (len(f['params']) == 2 and missing)), 'erase', f['file'], f['line'], f['q'], 'a request for erasure must reset geometry and physics and leave the maps alone', key='erase|request')
    loops_rule(ctx, db, PRIM, ent, engine)
    reload_rule(ctx, db, ent, PRIM)
    owner_rule(ctx, db)
    ctx.floor('functions', 8)

def desc(s):
    return 'maps +%d -%d, list length %s, counter %s, positions written %d' % (len(s['ins']), len(s['del']), show(s['size'])[:40], show(s['cur'])[:40], len(s['ix']))

def locked(ctx, p, f):
    for e, lp in flat(p):
        mut = (e.kind == 'store' and (fname(e.obj) in (F_CUR, F_LIN, F_IX) or (elem(e.obj) or (None,))[0] is LIN)) or (e.kind == 'call' and e.obj is not None and e.q.startswith('std::') and (e.obj is LIN or mapref(e.obj) is not None))
        if mut: ctx.check(any(is_field(m, 'drawloopmutex') and root(m) is mk('this') for m in locks_held(e)), 'locked', e.file, e.line, f['q'], 'the container is changed without its mutex', key='locked|' + f['q'])

def loops_rule(ctx, db, PRIM, ent, engine):
    """who erases, and from which loop"""
    er = {f['key'] for f in ent['erase']}
    users = [f for l in db.byq.values() for f in l if not f['dep'] and f['key'] not in er and any(n[0] == 'call' and n[2] in er for n in walk(f['body']))]
    for f in users:
        e = engine(db, opaque=PRIM)
        for p in e.run(f):
            for ev, loops in flat(p):
                if ev.kind == 'call' and ev.q == IC + '::erase':
                    ctx.count('erase_call_sites')
                    id1, id2, pos = ev.args[:3]
                    facts = ev.facts
                    if fname(id1) == 'Interaction::id1' and fname(id2) == 'Interaction::id2' and base(id1) is base(id2):
                        I = base(id1)
                        at = elem(I)
                        okp = (fname(pos) == F_IX and base(pos) is I) or (at and at[0].op == 'addr' and fname(at[0]) == F_LIN and at[1] is pos) or (at and fname(at[0]) == F_LIN and at[1] is pos)
                        ctx.check(bool(okp), 'eraseloop', ev.file, ev.line, f['q'], 'the position handed to the erasure is not that of the interaction', key='eraseloop|pos|' + f['q'])
                        ctx.check(notreal(facts, I), 'eraseloop', ev.file, ev.line, f['q'], 'erases an interaction without having found it not real', key='eraseloop|real|' + f['q'])
                    else:
                        b1, b2, b3 = (x.args[0] if x.op == 'comp' else base(x) for x in (id1, id2, pos))
                        ctx.check(b1 is not None and b1 is b2 and b2 is b3, 'eraseloop', ev.file, ev.line, f['q'], 'ids and position handed to the erasure do not come from one record', key='eraseloop|rec|' + f['q'])
                    for le, lpth in loops:
                        inf = le.info
                        over = inf.get('cont') is not None and (fname(inf['cont']) == F_LIN or inf['cont'].op in ('this', 'addr') and 'linIntrs' in show(inf['cont']) or inf['cont'] is mk('this'))
                        if inf['kind'] == 'range' and over or (inf['lo'] is not None and inf['lo'].op == 'it' and over):
                            ctx.bad('eraseloop', ev.file, ev.line, f['q'], 'erases from the container while iterating over it with iterators: the interaction moved into the freed slot is skipped and the iterators are invalidated', key='eraseloop|iter|' + f['q'])
                        elif inf['kind'] == 'for' and inf['step'] == 1 and fname(pos) is None and any(x is inf['iv'] for x in subterms(pos)):
                            ctx.bad('eraseloop', ev.file, ev.line, f['q'], 'the index advances past the interaction that was moved into the freed slot', key='eraseloop|adv|' + f['q'])
                        else: ctx.ok('eraseloop')
    # deferred erasures: the record pushed is (id1, id2, position) of one not-real interaction
    for f in users:
        e = engine(db, opaque=PRIM)
        for p in e.run(f):
            for ev, loops in flat(p):
                if ev.kind == 'call' and ev.q in ('std::push_back', 'std::emplace_back') and ev.args and ev.args[0].op == 'vec3':
                    id1, id2, pos = ev.args[0].args
                    I = base(id1)
                    if fname(id1) != 'Interaction::id1': continue
                    at = elem(I)
                    ctx.check(base(id2) is I and ((at and at[1] is pos) or base(pos) is I) and notreal(ev.facts, I), 'eraseloop', ev.file, ev.line, f['q'], 'the deferred erasure records another position or a real interaction', key='eraseloop|defer|' + f['q'])

def notreal(facts, I):
    """one of geom/phys of I known to be missing on this path"""
    for g in facts:
        xs = [g] if g.op != 'or' else list(g.args)
        if all(x.op == 'not' and x.args[0].op == 'nn' and fname(x.args[0].args[0]) in ('Interaction::geom', 'Interaction::phys') and base(x.args[0].args[0]) is I for x in xs): return True
        if g.op == 'not' and g.args[0].op == 'and' and all(x.op == 'nn' and fname(x.args[0]) in ('Interaction::geom', 'Interaction::phys') for x in g.args[0].args): return True
    return False

def reload_rule(ctx, db, ent, PRIM):
    for f in ent['preSave']:
        e = engine(db)
        for p in e.run(f):
            for le in loops_of(p):
                pushes = False
                for q in le.paths:
                    if any(c.kind == 'call' and c.q in ('std::push_back', 'std::emplace_back') for c in q.events): pushes = True
                if not pushes: continue
                cv = le.info['kind'] == 'range' or covers(le.info, n=lambda t: inv(t) is CUR0)
                ctx.check(cv, 'reload', f['file'], le.line, f['q'], 'saving does not visit every interaction', key='reload|all')
                for q in le.paths:
                    push = [c for c in q.events if c.kind == 'call' and c.q in ('std::push_back', 'std::emplace_back')]
                    skip = any(g.op == 'not' and g.args[0].op == 'nn' and fname(g.args[0].args[0]) in ('Interaction::geom', 'Interaction::phys') for g in q.facts) or any(g.op == 'not' and g.args[0].op in ('and', 'or') for g in q.facts) or any(g.op == 'or' for g in q.facts)
                    ctx.check((push or skip) and q.end in ('fall', 'continue'), 'reload', f['file'], le.line, f['q'], 'a real interaction is not saved', key='reload|save')
    for f in ent['postLoad__calledFromScene']:
        e = engine(db, opaque=PRIM)
        ps = e.run(f)
        for p in ps:
            if p.end == 'return' or any(ev.kind == 'inloop' for ev in p.events):
                ctx.bad('reload', f['file'], f['line'], f['q'], 'loading stops at the first interaction whose body is missing: the remaining ones are lost', key='reload|stop')
            for le in loops_of(p):
                for q in le.paths:
                    ins = [c for c in q.events if c.kind == 'call' and c.q == IC + '::insert']
                    dead = any(g.op == 'not' and g.args[0].op == 'nn' and elem(g.args[0].args[0]) for g in q.facts) or any(g.op == 'or' and all(x.op == 'not' for x in g.args) for g in q.facts)
                    rng = any(g.op == 'not' and g.args[0].op == 'lt0' for g in q.facts)
                    ctx.check(bool(ins) or dead or rng, 'reload', f['file'], le.line, f['q'], 'a saved interaction is not inserted again on loading', key='reload|insert')
            names = [ev.q for ev in p.events if ev.kind == 'call']
            ctx.check(IC + '::clear' in names, 'reload', f['file'], f['line'], f['q'], 'loading does not start from an empty container', key='reload|clear')

def owner_rule(ctx, db0):
    fs = grep_files(r'\b(linIntrs|linIx|currSize)\b|\bintrs\b|\bid1\s*=[^=]|\bid2\s*=[^=]', [f for f in sources() if not f.startswith('gui/')])
    fs = [f for f in fs if re.search(r'linIntrs|linIx|intrs\b|Interaction', open(os.path.join(REPO, f), errors='replace').read())]
    db = DB(sorted(set(fs) | set(FILES)))
    prot = {F_LIN, F_CUR, F_IX, F_MAP, 'Interaction::id1', 'Interaction::id2'}
    ctx.setc('owner_scan_files', len(fs))
    for l in db.byq.values():
        for f in l:
            if f['dep']: continue
            ctx.count('functions_scanned')
            for q, n in writes(f):
                if q not in prot: continue
                cls = f.get('cls') or ''
                if q.startswith('Interaction::id'): ok = f['q'] in ('Interaction::Interaction', 'Interaction::swapOrder') or 'serialize' in f['q'] or f['q'].startswith('Interaction::py')
                elif q == F_IX: ok = cls in (IC, 'Interaction')
                elif q == F_MAP: ok = cls in (IC,) or (cls == 'Body' and ('serialize' in f['q'] or 'pySetAttr' in f['q']))
                else: ok = cls == IC
                if 'serialize' in f['q'] or 'pySetAttr' in f['q'] or f['q'].endswith('::Interaction') or f['q'].endswith('::' + IC): ok = True
                ctx.check(ok, 'owner', f['file'], n[1], f['q'], 'writes %s outside the interaction container' % q, key='owner|%s|%s' % (q, f['q']))
    # the guarded swap
    for f in db0.fn('Interaction::swapOrder'):
        e = engine(db0)
        i1, i2 = (mk('ld', mk('L.f', mk('this'), 'Interaction::id%d' % k), 0) for k in (1, 2))
        for p in e.run(f):
            g = [x for x in p.facts]
            real = any(x.op == 'nn' and fname(x.args[0]) in ('Interaction::geom', 'Interaction::phys') for x in g) or any(x.op == 'or' and all(y.op == 'nn' for y in x.args) for x in g)
            if p.end == 'throw': ctx.check(real, 'owner', f['file'], f['line'], f['q'], 'swapping fails although the interaction has neither geometry nor physics', key='owner|swapthrow'); continue
            env = p.st.env
            ctx.check(not real and env.get(mk('L.f', mk('this'), 'Interaction::id1')) is i2 and env.get(mk('L.f', mk('this'), 'Interaction::id2')) is i1, 'owner', f['file'], f['line'], f['q'], 'swapping the bodies of an interaction must exchange its two ids, and only before it has geometry or physics', key='owner|swap')

WR = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
def writes(f):
    """(qualified field, node) of every syntactic write in f: assignments, increments, mutating container calls, non-const address"""
    for n in walk(f['body']):
        t = None
        if n[0] == 'bin' and n[2] in WR: t = n[3]
        elif n[0] == 'un' and n[2] in ('++', '--'): t = n[4]
        elif n[0] == 'op' and (n[2] in WR or n[2] in ('++', '--')): t = n[3][0]
        elif n[0] == 'call' and n[4] is not None and n[3].split('::')[-1] in MUTATORS | {'reset'}: t = n[4]
        elif n[0] == 'call' and n[3] in ('std::swap', 'boost::swap'):
            for x in n[5]:
                if x and x[0] == 'mem': yield x[3], n
        while t is not None and t[0] in ('idx', 'op', 'un', 'cast') and not (t[0] == 'op' and t[2] not in ('[]', '*')):
            t = t[2] if t[0] == 'idx' else t[3][0] if t[0] == 'op' else t[4] if t[0] == 'un' else t[-1] if isinstance(t[-1], list) else None
        if t is not None and t[0] == 'mem': yield t[3], n
