"""C04: Newton's third law in every contact law."""
from laws import *
RULES = {
 'balance': 'on every path of a contact law the forces handed to the force container sum to the zero vector (value numbers in polynomial normal form, equalities of the dominating branches substituted)',
 'parties': 'on every path that loads a body with a contact force, the reaction is carried by a different body: the loaded ids are at least two and no single id receives a net zero load in place of its partner',
 'bothread': 'a two-body law loads exactly the two bodies of the interaction it was called with',
}
EXPLAIN = ('Trace-partitioned value-numbering over the clang AST of every class derived from LawFunctor (and the two capillarity engines): per path the polynomial normal form of the sum of all addForce operands must be the constant 0. '
           'All inputs are covered because operands stay unevaluated value numbers; loops are one generic iteration; helpers are expanded in place.')
ASSUMES = ['ForceContainer::addForce adds its operand to the slot of the given id (decided by C03)', 'barycentric weights of a facet contact sum to one (Ig2_Sphere_PFacet computes weight as barycentric coordinates)',
           'laws compiled out of the build (YADE_POTENTIAL_PARTICLES, YADE_DEFORM, YADE_FEM) are not analysed']

def weights(t):
    """barycentric weights of a triangle sum to 1"""
    ws = {}
    for x in subterms(t):
        if x.op == 'comp' and x.args[0].op in ('ld', 'fv') and fieldname(x.args[0]) == 'weight' and x.args[1].op == 'c': ws.setdefault(x.args[0], {})[int(x.args[1].args[0])] = x
    m = {}
    for b, d in ws.items():
        if len(d) == 3: m[d[2]] = sub(sub(ONE, d[0]), d[1])
    return m

def run(ctx):
    files = law_files(); db = DB(files); db.require_clean()
    laws = sorted(db.subclasses('LawFunctor'))
    todo = []
    for l in laws:
        g = [f for f in db.fn(l + '::go') if not f['dep']]
        if g: todo.append((l, g[0]))
    for q in PAIR_ENGINES:
        for f in db.fn(q): todo.append((q, f))
    ctx.setc('translation_units', len(files)); ctx.setc('law_classes', len(laws))
    for name, f in todo:
        try: ls, eng = loads(db, f)
        except (Unsupported, TooMany) as e: ctx.undecided('%s: %s' % (name, e)); continue
        ctx.count('functions'); ctx.count('paths', len(ls)); ctx.count('expanded_calls', eng.stats['inlined'])
        nload = 0
        for p, evs in ls:
            fo = [e for e in evs if e.q == FORCE]
            if not fo: continue
            nload += 1; ctx.count('loading_paths'); ctx.count('force_call_sites', len(fo))
            m = eqsub(p.facts)
            s = ZERO; per = {}
            for e in fo:
                s = add(s, e.args[1]); i = e.args[0]; per[i] = add(per.get(i, ZERO), e.args[1])
            s = red(s, m); s = red(s, weights(s))
            where = fo[-1]
            if not zero_by_cases(s):
                ctx.bad('balance', where.file, where.line, name, 'forces applied on this path do not cancel: residual %s; path: %s' % (show(s)[:300], ' & '.join(show(x)[:80] for x in p.facts[-6:])), key='balance|' + name)
            else: ctx.ok('balance')
            live = [i for i, v in per.items() if red(red(v, m), weights(v)) is not ZERO]
            allzero = all(red(e.args[1], m) is ZERO for e in fo)
            ctx.check(allzero or len(live) >= 2, 'parties', where.file, where.line, name, 'force and reaction are applied to the same body (ids %s)' % ', '.join(show(i) for i in per), key='parties|' + name)
            ids = {show(i) for i in per}
            pr = interaction_ids(per)
            if len(per) == 2:
                ctx.check(pr, 'bothread', where.file, where.line, name, 'the two loaded ids (%s) are not the two bodies of the interaction' % ', '.join(sorted(ids)), key='bothread|' + name)
            if nload == 1: ctx.sample('%s %s:%d: %d forces on {%s}, residual 0' % (name, where.file, where.line, len(fo), ', '.join(sorted(ids))[:120]))
        if nload: ctx.count('loading_functions')
    ctx.floor('loading_functions', 26); ctx.floor('loading_paths', 80)

def interaction_ids(per):
    f = {}
    for i in per:
        n = fieldname(i)
        if n in ('id1', 'id2') and i.op == 'ld': f[n] = i.args[0].args[0]
    return len(f) == 2 and f['id1'] is f['id2']
