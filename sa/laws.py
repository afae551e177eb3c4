"""Shared by the contact-law rules: value-numbered force/torque effects of every contact law on every path."""
import os
from db import *
from engine import *

FORCE, TORQUE = 'ForceContainer::addForce', 'ForceContainer::addTorque'
OPAQUE = [FORCE, TORQUE, 'EnergyTracker::add', 'EnergyTracker::findId', 'EnergyTracker::set', 'capillarylaw::interpolate']
SUPPORT = ['core/Body.cpp', 'core/BodyContainer.cpp', 'core/Scene.cpp', 'pkg/dem/ScGeom.cpp', 'core/Interaction.cpp', 'core/State.cpp', 'core/Cell.cpp', 'core/InteractionContainer.cpp', 'pkg/common/Dispatching.cpp', 'pkg/dem/Shop_01.cpp']
# engines that, like a contact law, load the two bodies of each interaction
PAIR_ENGINES = ['Law2_ScGeom_CapillaryPhys_Capillarity::action', 'Law2_ScGeom_CapillaryPhys_Capillarity1::action']

NOEXPAND = ('BodiesMenisciiList::', 'capillarylaw::', 'Tableau')   # lookup tables and bookkeeping without loads (their effects are unknown values)

def law_files():
    fs = set(grep_files(r'\bLaw2_\w+|LawFunctor', [f for f in sources() if f.startswith('pkg/')]))
    fs |= set(grep_files(r'class\s+\w+.*LawFunctor', []))
    return sorted(f for f in fs | set(SUPPORT) if os.path.exists(os.path.join(REPO, f)))

def eqsub(facts):
    """equalities among the dominating branch facts, as a substitution"""
    m = {}
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'nn': m[f.args[0].args[0]] = ZERO
        if f.op == 'eq0':
            p = f.args[0]
            for c, mm in poly_items(p):
                if len(mm) == 1:
                    x = mm[0]; rest = sub(p, scale(x, c))
                    if not any(y is x for y in subterms(rest)): m[x] = scale(rest, -1 / c); break
    return m
def red(t, m): return subst(t, lambda x: m.get(x)) if m else t

def loads(db, fn):
    """[(path, [(event)])] for every path and every generic loop iteration that loads bodies"""
    eng = Engine(db, rec_call=lambda q, o, a, e, s: q in (FORCE, TORQUE), opaque=OPAQUE, inline=lambda f, st: not f['q'].startswith(NOEXPAND) and not f['q'].endswith(('::checkFusion', '::postLoad')))
    out = []
    def go(p):
        evs = [e for e in p.events if e.kind == 'call']
        out.append((p, evs))
        for e in p.events:
            if e.kind == 'loop':
                for q in e.paths: go(q)
    ps = eng.run(fn)
    for p in ps: go(p)
    return out, eng

def field_terms(t, name):
    return [x for x in subterms(t) if x.op in ('ld', 'fv') and fieldname(x) == name]
def fieldname(x):
    if x.op == 'ld' and x.args[0].op == 'L.f': return x.args[0].args[1].split('::')[-1]
    if x.op == 'fv': return x.args[1].split('::')[-1]
    return None

def first_ite(t):
    """an outermost gated value in t: in a monomial, or a direct operand of a product of a monomial"""
    for c, mon in poly_items(t):
        for x in mon:
            if x.op == 'ite': return x
            if x.op in ('cross', 'dot', 'mul', 'comp'):
                for a in x.args:
                    if isinstance(a, Term) and a.op == 'ite': return a
                    if isinstance(a, Term) and a.op in ('cross', 'mul'):
                        r = first_ite(a)
                        if r is not None: return r
    return None
def zero_by_cases(t, depth=0, budget=None):
    """t is the zero value in both arms of every gate it depends on (finite case distinction on gates)"""
    if budget is None: budget = [4000]
    if t is ZERO: return True
    g = first_ite(t)
    budget[0] -= 1
    if g is None or depth > 24 or budget[0] < 0: return False
    c = g.args[0]
    def arm(v):
        def f(x):
            if x.op == 'ite' and x.args[0] is c: return subst(x.args[1] if v else x.args[2], f)
            return None
        return subst(t, f)
    return zero_by_cases(arm(True), depth + 1, budget) and zero_by_cases(arm(False), depth + 1, budget)
