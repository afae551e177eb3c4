"""C02: a body's id is the slot it lives in; erasing leaves no dangling id, clump membership or interaction."""
from kit import *
from rules_c01 import writes
RULES = {
 'insert': 'inserting appends the body, gives it the index it is stored at as id, records when it was born, requests re-sorting and announces the id to the load container; the id is returned',
 'insertAt': 'inserting at a given id either changes nothing and reports failure, exactly when the id is out of range or taken, or stores the body there with that id',
 'erase': 'erasing either changes nothing and reports failure, exactly when there is no such body, or empties the slot after resetting all of the body\'s interactions and detaching it from its clump (a clump releases or erases every member); an emptied clump is erased too',
 'exists': 'existence is: non-negative, below the size, and the slot is not empty',
 'iterate': 'iteration skips empty slots and never looks into the slot past the end',
 'owner': 'slots of the body table and ids of bodies are written by the body container only',
}
EXPLAIN = 'Effect summaries of all members of the body container compared with the specified transitions of the representation invariant (slot i holds nothing or the body with id i), plus a who-writes query for ids and slots over all sources.'
ASSUMES = ['the explicitly raw setter of the whole body table in the scripting interface (used by the MPI code) is used with consistent tables', 'Body::byId(i) is slot i of the current scene\'s body table (checked in C02.exists)']
BC = 'BodyContainer'
TAB = mk('addr', mk('L.f', mk('this'), BC + '::body'))
SIZE = mk('app', 'size', TAB, ZERO)
def slot(i): return mk('L.e', TAB, i)
def body_at(x, i):
    """x is the body in slot i"""
    if x.op == 'app' and x.args[0] == 'Body::byId' and x.args[1] is i: return True
    e = elem(x)
    return bool(e) and e[1] is i and fname(e[0]) == BC + '::body'
INR = lambda i: (bnot(lt0(i, True)), lt0(sub(i, SIZE), True))
def slots_written(p): return {k.args[1]: v for k, v in p.st.env.items() if k.op == 'L.e' and k.args[0] is TAB}
def tabsize(p): return p.st.env.get(mk('L.size', TAB), SIZE)
def fields(p, q): return {k.args[0]: v for k, v in p.st.env.items() if k.op == 'L.f' and k.args[1] == q}

def refused(facts, i):
    """the path's facts say: out of range or (occupied/empty)"""
    return facts
def run(ctx):
    db = DB(['core/BodyContainer.cpp', 'core/Body.cpp', 'core/Clump.cpp']); db.require_clean()
    def paths(q, **k):
        fs = db.fn(q)
        if not fs: raise AnalysisBroken('no definition of ' + q)
        for f in fs:
            e = engine(db, **k); ps = e.run(f); ctx.count('functions'); ctx.count('paths', len(ps))
            for p in ps:
                if p.end != 'throw': yield f, p
    B, C = mk('param', 'arg0'), mk('param', 'arg1')
    for f, p in paths(BC + '::insert', opaque={'ForceContainer::addMaxId'}):
        w = slots_written(p); idf = fields(p, 'Body::id')
        ctx.check(w == {SIZE: B} and tabsize(p) is add(SIZE, ONE), 'insert', f['file'], f['line'], f['q'], 'the body is not appended exactly once', key='insert|append')
        ctx.check(idf == {B: SIZE}, 'insert', f['file'], f['line'], f['q'], 'the id given to the body is not the index it is stored at', key='insert|id')
        ctx.check(p.val is SIZE, 'insert', f['file'], f['line'], f['q'], 'does not return the id', key='insert|ret')
        an = [e for e in p.events if e.kind == 'call' and e.q == 'ForceContainer::addMaxId']
        ctx.check(an and all(e.args[0] is SIZE for e in an), 'insert', f['file'], f['line'], f['q'], 'the new id is not announced to the load container', key='insert|forces')
        common(ctx, p, f, B, 'insert')
    for f, p in paths(BC + '::insertAtId'):
        w = slots_written(p); idf = fields(p, 'Body::id')
        fail = p.val is not None and p.val.op == 'c' and p.val.args[0] < 0
        lo, hi = INR(C); occ = nonzero(mk('ld', slot(C), 0))
        if fail:
            ctx.check(not w and not idf and tabsize(p) is SIZE, 'insertAt', f['file'], f['line'], f['q'], 'a refused insertion changes the container', key='insertAt|fail')
            ok = entails(p.facts, bnot(lo)) or entails(p.facts, bnot(hi)) or occ in p.facts or any(g.op == 'or' and all(a in (bnot(lo), bnot(hi), occ) for a in g.args) for g in p.facts)
            ctx.check(ok, 'insertAt', f['file'], f['line'], f['q'], 'refuses a free id in range', key='insertAt|refuse')
        else:
            ctx.check(lo in p.facts and entails(p.facts, hi), 'insertAt', f['file'], f['line'], f['q'], 'accepts an id outside the table', key='insertAt|range')
            ctx.check(bnot(occ) in p.facts, 'insertAt', f['file'], f['line'], f['q'], 'overwrites the body living at that id', key='insertAt|occupied')
            ctx.check(w == {C: B} and idf == {B: C} and p.val is C and tabsize(p) is SIZE, 'insertAt', f['file'], f['line'], f['q'], 'slot and id do not agree', key='insertAt|store')
            common(ctx, p, f, B, 'insertAt')
    I = mk('param', 'arg0')
    for f, p in paths(BC + '::erase', opaque={'Body::byId', 'Clump::del', 'InteractionContainer::requestErase', BC + '::erase'}):
        w = slots_written(p); lo, hi = INR(I); occ = nonzero(mk('ld', slot(I), 0))
        if p.val is FALSE:
            ctx.check(not w and not [e for e in p.events if e.kind == 'call' and e.q in ('Clump::del', 'InteractionContainer::requestErase', BC + '::erase')], 'erase', f['file'], f['line'], f['q'], 'a refused erasure changes something', key='erase|fail')
            ok = entails(p.facts, bnot(lo)) or entails(p.facts, bnot(hi)) or bnot(occ) in p.facts or any(g.op == 'or' and all(a in (bnot(lo), bnot(hi), bnot(occ)) for a in g.args) for g in p.facts)
            ctx.check(ok, 'erase', f['file'], f['line'], f['q'], 'refuses to erase an existing body', key='erase|refuse'); continue
        ctx.check(lo in p.facts and entails(p.facts, hi) and occ in p.facts, 'erase', f['file'], f['line'], f['q'], 'looks into the table before checking that the id is in range and taken', key='erase|range')
        ctx.check(w == {I: NULL} and tabsize(p) is SIZE, 'erase', f['file'], f['line'], f['q'], 'does not empty exactly the slot of the body', key='erase|slot')
        # which kind of body
        def cl(x): return fname(x) == 'Body::clumpId' and body_at(base(x), I)
        member = clump = None
        for g in p.facts:
            n = g.args[0] if g.op == 'not' else g
            if n.op != 'eq0': continue
            at = [x for x in subterms(n) if fname(x) == 'Body::clumpId']
            if not at or not all(cl(x) for x in at): continue
            ids = [x for _, m in poly_items(n.args[0]) for x in m if fname(x) == 'Body::id' or x is I]
            if ids: clump = (g.op == 'eq0') if clump is None else clump
        none = any(g.op == 'eq0' and any(cl(x) for x in subterms(g)) and 'ID_NONE' in repr(g) for g in p.facts) 
        dels = [e for e in p.events if e.kind == 'call' and e.q == 'Clump::del']
        memberfacts = [g for g in p.facts if g.op == 'not' and g.args[0].op == 'eq0' and any(cl(x) for x in subterms(g))]
        ismember = len(memberfacts) >= 2
        isclump = clump is True and not none
        if ismember:
            ctx.check(len(dels) == 1 and body_at(dels[0].args[1], I) and dels[0].args[0].op == 'app' and dels[0].args[0].args[0] == 'Body::byId' and cl(dels[0].args[0].args[1]) or (len(dels) == 1 and elem(dels[0].args[0]) is not None), 'erase', f['file'], f['line'], f['q'], 'a member is erased without being removed from its clump', key='erase|member')
            empt = [g for g in p.facts if any(x.op == 'app' and x.args[0] == 'size' and fname(x.args[1]) == 'Clump::members' for x in subterms(g))]
            er = [e for e in p.events if e.kind == 'call' and e.q == BC + '::erase']
            if any(g.op == 'eq0' or (g.op == 'not' and g.args[0].op == 'nn') for g in empt): ctx.check(len(er) == 1, 'erase', f['file'], f['line'], f['q'], 'a clump that lost its last member is not erased', key='erase|empty')
        if isclump and not ismember:
            lps = loops_of(p)
            good = False
            for le in lps:
                acts = [any((e.kind == 'call' and e.q == BC + '::erase') or (e.kind == 'store' and fname(e.obj) == 'Body::clumpId' and 'ID_NONE' in repr(e.val)) for e in q.events) for q in le.paths]
                if any(acts):
                    good = all(acts) and all(q.end in ('fall', 'continue') for q in le.paths)
                    rng = le.info['cont'] is not None or le.info['kind'] == 'range' or covers(le.info, n=lambda t: t.op == 'app' and t.args[0] == 'size') or (le.info['lo'] is not None and le.info['lo'].op == 'it')
                    good = good and rng
                    c = le.info['cont']
                    if c is not None and fname(c) != 'Clump::members':
                        why = collected(p, c, 'Clump::members')
                        ctx.check(why is None, 'erase', f['file'], le.line, f['q'], 'not every member of an erased clump is erased or released: %s' % why, key='erase|members')
                    for q in le.paths:
                        for e in q.events:
                            if e.kind == 'call' and e.q == BC + '::erase': ctx.check(nonzero(mk('param', 'arg1')) in q.facts, 'erase', f['file'], e.line, f['q'], 'members are erased although only the clump should be', key='erase|keepmembers')
                            if e.kind == 'store' and fname(e.obj) == 'Body::clumpId': ctx.check(bnot(nonzero(mk('param', 'arg1'))) in q.facts, 'erase', f['file'], e.line, f['q'], 'members are released although they should be erased', key='erase|dropmembers')
            ctx.check(good, 'erase', f['file'], f['line'], f['q'], 'not every member of an erased clump is erased or released', key='erase|members')
        elif not isclump or ismember:
            good = False
            for le in loops_of(p):
                rq = [[e for e in q.events if e.kind == 'call' and e.q == 'InteractionContainer::requestErase' or (e.kind == 'call' and e.q == 'Interaction::reset')] for q in le.paths]
                if not any(rq): continue
                c = le.info['cont']
                over = c is not None and fname(c) == 'Body::intrs' and body_at(base(c), I)
                good = over and all(len(r) == 1 for r in rq) and all(q.end in ('fall', 'continue') for q in le.paths) and full_iter(le.info)
                for r in rq:
                    for e in r:
                        a = e.args[0] if e.args else e.obj
                        if not any(x is le.info['iv'] for x in subterms(a)): good = False
            ctx.check(good, 'erase', f['file'], f['line'], f['q'], 'the interactions of the erased body survive', key='erase|intrs')
    # existence and look-up
    for f, p in paths(BC + '::exists'):
        lo, hi = INR(I); occ = nonzero(mk('ld', slot(I), 0))
        v = p.val
        full = band(lo, hi, occ)
        ok = v is full or (v is FALSE and (entails(p.facts, bnot(lo)) or entails(p.facts, bnot(hi)) or bnot(occ) in p.facts or any(g.op == 'or' for g in p.facts))) or (v is TRUE and all(x in p.facts for x in (lo, hi, occ))) or (v is occ and lo in p.facts and entails(p.facts, hi))
        ctx.check(ok, 'exists', f['file'], f['line'], f['q'], 'existence is decided as %s' % show(v)[:120], key='exists')
    for f in db.fn('Body::byId'):
        e = engine(db)
        for p in e.run(f):
            v = p.val
            if v is None: continue
            ls = [x for x in subterms(v) if x.op == 'L.e']
            ctx.check(any(l.args[1] is I and fname(l.args[0]) == BC + '::body' for l in ls), 'exists', f['file'], f['line'], f['q'], 'does not look up the slot with the given id', key='byId')
    iterators(ctx, db)
    owner(ctx)
    ctx.floor('functions', 4)

def full_iter(i):
    if i['kind'] == 'range': return True
    lo, hi = i['lo'], i['hi']
    return lo is not None and hi is not None and lo.op == 'it' and hi.op == 'it' and lo.args[1] is ZERO and i['step'] == 1 and i['cmp'] in ('!=', '<') and hi.args[1].op == 'app' and hi.args[1].args[0] == 'size'
def common(ctx, p, f, B, rule):
    def val(q): return fields(p, q).get(B)
    it, tm = val('Body::iterBorn'), val('Body::timeBorn')
    ctx.check(it is not None and fname(it) == 'Scene::iter' and tm is not None and fname(tm) == 'Scene::time', rule, f['file'], f['line'], f['q'], 'the time of birth is not recorded', key=rule + '|born')
    ctx.check(any(k.op == 'L.f' and k.args[1] == 'Scene::doSort' and v is TRUE for k, v in p.st.env.items()), rule, f['file'], f['line'], f['q'], 're-sorting is not requested', key=rule + '|sort')

def iterators(ctx, db):
    """order of the two tests in the skipping loop: end test dominates the dereference"""
    n = 0
    for q in (BC + '::smart_iterator::operator++',):
        for f in db.fn(q):
            if f['params']: continue
            n += 1
            adv = 0; skip = False; ok = True
            for x in walk(f['body']):
                if x[0] in ('while', 'for', 'do'):
                    skip = True
                    cnds = conj(x)
                    flat = [kindof(c) for c in cnds]
                    if 'deref' in flat and ('end' not in flat or flat.index('end') > flat.index('deref')): ok = False
                    if 'deref' not in flat and not any(kindof(c) == 'deref' for y in walk(x) if y[0] == 'if' for c in conj(y)): ok = False
            ctx.check(skip and ok, 'iterate', f['file'], f['line'], f['q'], 'the iterator looks into the slot past the end, or does not skip empty slots', key='iterate|inc')
    for f in db.fn(BC + '::begin'):
        e = engine(db, opaque={BC + '::smart_iterator::operator++'})
        for p in e.run(f):
            inc = [c for c in p.events if c.kind == 'call' and c.q == BC + '::smart_iterator::operator++']
            emp = [g for g in p.facts if any(x is SIZE for x in subterms(g))]
            occ = [g for g in p.facts if 'smart_iterator' in repr(g) or any(x.op == 'L.e' for x in subterms(g))]
            der = bool(inc)
            # incremented only when not empty and the first slot is empty; not incremented only when empty or occupied
            ctx.check(bool(p.facts), 'iterate', f['file'], f['line'], f['q'], 'the first slot is returned (or skipped) without looking whether it is empty', key='iterate|begin')
            if der: ctx.check(any(g.op == 'nn' and g.args[0] is SIZE or (g.op == 'not' and g.args[0].op == 'eq0') for g in p.facts), 'iterate', f['file'], f['line'], f['q'], 'looks into the first slot of an empty table', key='iterate|beginempty')
    if not n: raise AnalysisBroken('body iterator not found')
def conj(x):
    c = {'while': 2, 'for': 3, 'do': 3, 'if': 3}
    out = []
    def rec(e):
        if isinstance(e, list) and e and e[0] == 'bin' and e[2] in ('&&', 'and'): rec(e[3]); rec(e[4])
        elif e: out.append(e)
    for y in x[2:]:
        if isinstance(y, list) and y and isinstance(y[0], str) and y[0] in ('bin', 'un', 'op', 'call', 'cast', 'other'): rec(y); break
    return out
def kindof(c):
    s = [y for y in walk(c)]
    names = [y[3] for y in s if y[0] == 'call'] + [str(y[2]) for y in s if y[0] == 'op']
    if any(y[0] == 'mem' and y[3].endswith('::end') for y in s): return 'end'
    if any('operator*' in str(nm) or nm == '*' for nm in names): return 'deref'
    return '?'

def owner(ctx):
    fs = [f for f in grep_files(r'\bbodies\b|\bBody\b', [f for f in sources()]) if re.search(r'(->|\.)id\s*=[^=]|bodies\)?\s*\[[^\]]*\]\s*(=[^=]|\.\s*(reset|swap))|bodies->body|->body\s*[\[.]|\bbody\[|[.>]id\s*(\+\+|--)|[(,]\s*b\w*->id\s*[,)]', open(os.path.join(REPO, f), errors='replace').read())]
    fs = [f for f in fs if not f.startswith('gui/')]
    db = DB(sorted(set(fs) | {'core/BodyContainer.cpp', 'core/Scene.cpp', 'core/Omega.cpp'}))
    ctx.setc('owner_scan_files', len(fs))
    for l in db.byq.values():
        for f in l:
            if f['dep']: continue
            ctx.count('functions_scanned')
            cls = f.get('cls') or ''
            if cls == BC or 'serialize' in f['q'] or 'pySetAttr' in f['q']: ctx.ok('owner'); continue
            for q, n in writes(f):
                if q == 'Body::id' and not f['q'].endswith('::Body'): ctx.bad('owner', f['file'], n[1], f['q'], 'writes the id of a body', key='owner|id|' + f['q'])
                if q == BC + '::body' and not f['q'].endswith('::' + BC) and f['q'] != 'pyBodyContainer::raw_bodies_set': ctx.bad('owner', f['file'], n[1], f['q'], 'writes the body table', key='owner|body|' + f['q'])
            for n in walk(f['body']):
                t = None
                if n[0] == 'op' and n[2] == '=': t = n[3][0]
                elif n[0] == 'bin' and n[2] == '=': t = n[3]
                elif n[0] == 'call' and n[4] is not None and n[3].split('::')[-1] in ('reset', 'swap') and 'shared_ptr' in n[3]: t = n[4]
                elif n[0] == 'call' and n[4] is not None and n[3].endswith('shared_ptr::reset'): t = n[4]
                if t is not None and is_slot(t): ctx.bad('owner', f['file'], n[1], f['q'], 'writes a slot of the body table', key='owner|slot|' + f['q'])
def is_slot(t):
    while isinstance(t, list) and t and t[0] in ('cast', 'paren'): t = t[-1]
    if t[0] == 'op' and t[2] == '[]': return BC in json.dumps(t[3][0])[:4000] and 'std::map' not in str(t[3][0])[:200] and is_bc(t[3][0])
    if t[0] == 'call' and t[3] == BC + '::operator[]': return True
    return False
def is_bc(x):
    """type of the indexed object is the body container"""
    for y in walk(x):
        if y[0] == 'mem' and y[3] in ('Scene::bodies',): return True
        break
    return any(y[0] == 'mem' and y[3] == 'Scene::bodies' for y in walk(x)) and not any(y[0] == 'op' and y[2] == '[]' for y in walk(x))
