"""Trace-partitioned forward dataflow over the syntax tree with value numbering.

For one function it computes, for every partition of its control-flow paths, (a) the ordered effects (calls, stores) with the
value numbers of their operands, (b) the branch facts that dominate them, (c) what the path returns.  Branches that have no
recorded effect and no exit are joined (values become `ite`), loops are analysed as one generic iteration with every location
they modify widened to an unknown, calls to small repository functions are expanded in place (helper extraction does not
change the result).  There is no solver: facts are kept syntactically in normal form and closed under unit propagation."""
import re
from terms import *
from db import AnalysisBroken

class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Thr(Exception):
    def __init__(s, v=None): s.v = v
class NotSimple(Exception): pass
class TooMany(Exception): pass
class Unsupported(Exception): pass

class Ev:
    __slots__ = ('kind', 'q', 'obj', 'args', 'val', 'line', 'file', 'facts', 'ctx', 'node', 'paths', 'info', 'fn')
    def __init__(s, kind, **k):
        s.kind = kind; s.q = s.obj = s.args = s.val = s.node = s.paths = s.info = s.fn = None; s.line = 0; s.file = ''; s.facts = (); s.ctx = ()
        for a, b in k.items(): setattr(s, a, b)
    def __repr__(s):
        if s.kind == 'call': return 'call %s obj=%s args=%s @%s:%d' % (s.q, s.obj, s.args, s.file, s.line)
        if s.kind == 'store': return 'store %s = %s @%s:%d' % (s.obj, s.val, s.file, s.line)
        if s.kind == 'loop': return 'loop %s {%s} @%d' % (s.info, ' | '.join(repr(p) for p in s.paths), s.line)
        return '%s %s @%d' % (s.kind, s.val, s.line)

class Path:
    __slots__ = ('events', 'facts', 'end', 'val', 'st')
    def __init__(s, events, facts, end, val, st): s.events = events; s.facts = facts; s.end = end; s.val = val; s.st = st
    def __repr__(s): return 'Path[%s %s facts=%s ev=%s]' % (s.end, s.val, [show(f) for f in s.facts], s.events)

class State:
    __slots__ = ('env', 'refs', 'facts', 'fset', 'events', 'gens', 'n', 'this', 'frame', 'ctx', 'file', 'stack', 'fn', 'lcount')
    def __init__(s):
        s.env = {}; s.refs = {}; s.facts = []; s.fset = set(); s.events = []; s.gens = {}; s.n = 0; s.this = None; s.frame = 0; s.ctx = (); s.file = ''; s.stack = (); s.fn = None; s.lcount = {}
    def copy(s):
        t = State(); t.env = dict(s.env); t.refs = dict(s.refs); t.facts = list(s.facts); t.fset = set(s.fset); t.events = list(s.events); t.gens = dict(s.gens); t.n = s.n; t.this = s.this; t.frame = s.frame; t.ctx = s.ctx; t.file = s.file; t.stack = s.stack; t.fn = s.fn; t.lcount = dict(s.lcount)
        return t
    def take(s, t):
        for a in State.__slots__: setattr(s, a, getattr(t, a))

FIELD_ALIAS = {'State::pos': ('State::se3', 'Se3<double>::position'), 'State::ori': ('State::se3', 'Se3<double>::orientation')}
CONTAINERISH = ('std::vector', 'std::map', 'std::unordered_map', 'std::list', 'std::set', 'std::deque', 'std::__cxx11::list', 'boost::', 'std::array', 'std::multimap')
EIGEN_ID = {'eval', 'template cast', 'cast', 'noalias', 'array', 'matrix', 'derived', 'const_cast_derived'}
MUTATORS = {'push_back', 'emplace_back', 'insert', 'erase', 'clear', 'resize', 'pop_back', 'reserve', 'assign', 'swap', 'emplace', 'push_front', 'pop_front', 'push', 'pop', 'append', 'shrink_to_fit'}

def is_int_type(ty):
    ty = ty.replace('const ', '')
    return ty in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'unsigned char', 'long long', 'unsigned long long', 'bool', 'unsigned short', 'signed char')

LOCKTY = re.compile(r'(lock_guard|scoped_lock|unique_lock|shared_lock)\b|^gilLock$|^GilLock$')
def constleaves(t):
    return 1 if t.op == 'c' else constleaves(t.args[1]) + constleaves(t.args[2]) if t.op == 'ite' else 99
def aapart(o, nm):
    """angle or axis of an Eigen AngleAxis value"""
    if o.op == 'app' and o.args[0] == 'AngleAxis' and len(o.args) == 3: return o.args[1 if nm == 'angle' else 2]
    if o.op == 'ite': return ite(o.args[0], aapart(o.args[1], nm), aapart(o.args[2], nm))
    return mk('app', 'e.' + nm, o, kind='s' if nm == 'angle' else 'v')
class Engine:
    rec_lock = False
    def __init__(self, db, opaque=(), rec_store=None, rec_call=None, inline=None, maxsize=1500, maxdepth=6, maxpaths=3000, hooks=None, merge=True, force_inline=(), clobbers=None):
        self.lambdas = {}; self._closures = {}
        self.db = db; self.opaque = opaque if isinstance(opaque, set) else set(opaque); self.rec_store = rec_store or (lambda loc, st: False)
        self.rec_call = rec_call or (lambda q, obj, args, node, st: True)
        self.inline_pred = inline; self.maxsize = maxsize; self.maxdepth = maxdepth; self.maxpaths = maxpaths
        self.hooks = hooks or {}; self.clobbers = clobbers or {}; self.merge = merge; self.force = set(force_inline)
        self.frames = []       # decision frames
        self.spec = 0; self.nomerge = set(); self.loopinfo = {}; self.loopruns = {}
        self.stats = {'paths': 0, 'inlined': 0, 'loops': 0, 'opaque': {}}
        self.work = 0; self.maxwork = 4_000_000

    # ---------- decisions
    def decide(self, n=2):
        if n <= 1: return 0
        if self.spec and self.frames[-1].get('spec') == self.spec: raise NotSimple()
        f = self.frames[-1]; i = f['pos']; f['pos'] += 1
        if i < len(f['list']): return f['list'][i]
        f['list'].append(0); f['n'].append(n); return 0

    def explore(self, thunk, st0):
        """all partitions of thunk from st0; returns [Path]"""
        out = []; todo = [[]]
        while todo:
            dec = todo.pop()
            st = st0.copy()
            fr = {'list': list(dec), 'pos': 0, 'n': [0] * len(dec), 'spec': None}
            self.frames.append(fr)
            try:
                try:
                    thunk(st); end, val = 'fall', None
                except Ret as r: end, val = 'return', r.v
                except Brk: end, val = 'break', None
                except Cont: end, val = 'continue', None
                except Thr as r: end, val = 'throw', r.v
            finally:
                self.frames.pop()
            infeasible = st.events and st.events[-1].kind == 'infeasible'
            if not infeasible: out.append(Path(st.events, st.facts, end, val, st))
            for i in range(len(dec), len(fr['list'])):
                for alt in range(fr['n'][i] - 1, 0, -1): todo.append(fr['list'][:i] + [alt])
            if len(out) + len(todo) > self.maxpaths: raise TooMany('more than %d partitions' % self.maxpaths)
        return out

    # ---------- facts
    def simp(self, c, st):
        if c in (TRUE, FALSE): return c
        if c in st.fset: return TRUE
        n = bnot(c)
        if n in st.fset: return FALSE
        if c.op == 'and': return band(*[self.simp(x, st) for x in c.args])
        if c.op == 'or': return bor(*[self.simp(x, st) for x in c.args])
        if c.op == 'not': return bnot(self.simp(c.args[0], st)) if c.args[0].op in ('and', 'or', 'lt0') else c
        if c.op == 'lt0' and self.nonneg(c.args[0]): return FALSE
        return c
    def nonneg(self, t):
        for k, m in poly_items(t):
            if k < 0: return False
            for a in m:
                if a.op == 'iv':
                    i = self.loopinfo.get(a.args[0]); lo = i and i.get('lo')
                    if not (lo is not None and lo.op == 'c' and lo.args[0] >= 0 and i.get('step') == 1): return False
                elif not (a.op == 'app' and a.args[0] in ('omp_get_thread_num', 'omp_get_max_threads', 'omp_get_num_threads', 'size', 'abs', 'sqrt', 'norm', 'squaredNorm')): return False
        return True
    def assume(self, c, st):
        if c is TRUE: return
        for x in (c.args if c.op == 'and' else (c,)):
            if x in st.fset: continue
            st.facts.append(x); st.fset.add(x)
        # unit propagation on disjunctions
        ch = True
        while ch:
            ch = False
            for f in list(st.facts):
                if f.op == 'or':
                    rem = [a for a in f.args if bnot(a) not in st.fset]
                    if len(rem) == 1 and rem[0] not in st.fset:
                        for x in (rem[0].args if rem[0].op == 'and' else (rem[0],)):
                            if x not in st.fset: st.facts.append(x); st.fset.add(x); ch = True
    def branch(self, c, st):
        c = self.simp(c, st)
        if c is TRUE: return True
        if c is FALSE: return False
        if self.decide(2) == 0: self.assume(c, st); return True
        self.assume(bnot(c), st); return False

    # ---------- events
    def event(self, st, ev):
        if self.spec: raise NotSimple()
        ev.facts = tuple(st.facts); ev.ctx = st.ctx; ev.file = st.file; ev.fn = st.fn
        st.events.append(ev)

    def event_soft(self, st, ev):
        """recorded when effects are recorded, never in the way of a join"""
        if self.rec_lock: self.event(st, ev)

    # ---------- locations
    def gen(self, base, st): return st.gens.get(base, 0)
    def addr(self, loc):
        if loc.op == 'L.d': return loc.args[0]
        return mk('addr', loc)
    def deref(self, p):
        if p.op == 'addr': return p.args[0]
        if p.op == 'it': return mk('L.e', p.args[0], p.args[1])
        if p.op == 'ite': 
            return mk('L.d', p)
        return mk('L.d', p)
    def strip(self, p):
        while p.op in ('dyn', 'cstp'): p = p.args[-1]
        return p
    def field(self, p, f):
        p = self.strip(p)
        al = FIELD_ALIAS.get(f)
        if al: return mk('L.f', self.addr(mk('L.f', p, al[0])), al[1])
        return mk('L.f', p, f)
    def read(self, loc, st, ty=None):
        v = st.env.get(loc)
        if v is not None: return v
        op = loc.op
        if op == 'L.c':
            o = self.read(loc.args[0], st, None)
            if loc.args[1].op == 'part': return self.part(o, loc.args[1])
            return comp(o, loc.args[1])
        if op == 'L.tmp': return loc.args[0]
        if op == 'L.f':
            b = loc.args[0]
            if b.op == 'addr':
                o = st.env.get(b.args[0])
                if o is None and b.args[0].op == 'L.tmp': o = b.args[0].args[0]
                if o is not None: return self.fieldval(o, loc.args[1], st, ty)
        if op == 'L.e' and loc.args[1].op == 'ite' and loc.args[0].op == 'addr' and loc.args[0].args[0].op == 'L.var' and constleaves(loc.args[1]) <= 4:
            c, a, b = loc.args[1].args
            return ite(c, self.read(mk('L.e', loc.args[0], a), st, ty), self.read(mk('L.e', loc.args[0], b), st, ty))
        k = type_kind(ty) if ty else None
        g = 0
        if op in ('L.f', 'L.e'): g = self.gen(loc.args[0], st)
        elif op == 'L.d': g = self.gen(loc.args[0], st)
        g2 = st.gens.get(('field', loc.args[1])) if op == 'L.f' else None
        if g2: g = (g, g2)
        return mk('ld', loc, g, kind=k)
    def fieldval(self, v, f, st, ty=None):
        k = type_kind(ty) if ty else None
        if v.op == 'ld': return mk('ld', mk('L.f', self.addr(v.args[0]), f), v.args[1], kind=k)
        if v.op == 'ite': return ite(v.args[0], self.fieldval(v.args[1], f, st, ty), self.fieldval(v.args[2], f, st, ty))
        if v.op == 'obj':
            for i in range(1, len(v.args), 2):
                if v.args[i] == f: return v.args[i + 1]
        return mk('fv', v, f, kind=k)
    def depth(self, loc):
        """order of locations: containing ones first"""
        d = 0; k = loc
        while k.op in ('L.f', 'L.e', 'L.c', 'addr', 'L.d') and isinstance(k.args[0], Term): d += 1; k = k.args[0]
        return (d, loc.id)
    def inside(self, k, loc):
        while True:
            if k is loc: return True
            if k.op in ('L.f', 'L.e'):
                b = k.args[0]
                if b.op == 'addr': k = b.args[0]; continue
                return False
            if k.op == 'L.c': k = k.args[0]; continue
            return False
    def write(self, loc, v, st, line=0, node=None, op='='):
        if self.rec_store(loc, st):
            self.event(st, Ev('store', obj=loc, val=v, line=line, node=node, q=op))
        if loc.op == 'L.c':
            base = loc.args[0]
            o = self.read(base, st)
            if loc.args[1].op == 'part' and loc.args[1].args[0] in ('angle', 'axis'):
                st.env[base] = mk('app', 'AngleAxis', v, aapart(o, 'axis'), kind='q') if loc.args[1].args[0] == 'angle' else mk('app', 'AngleAxis', aapart(o, 'angle'), v, kind='q')
                return
            nv = self._upd(o, loc.args[1], v)
            if nv.op == 'upd' and (loc.args[1].op == 'ij' or loc.args[1].op == 'part' and loc.args[1].args[0] not in ('head', 'tail', 'segment')): nv.kind = 'm'
            nv.kind = 'v' if nv.kind == 's' and nv.op in ('upd', 'vec3') else nv.kind
            st.env[base] = nv
            return
        if loc.op == 'L.tmp': return
        dead = [k for k in st.env if k is not loc and k.op in ('L.f', 'L.e') and self.inside(k, loc)]
        for k in dead: del st.env[k]
        st.env[loc] = v
    def part(self, o, p):
        nm = p.args[0]
        if nm in ('angle', 'axis'): return aapart(o, nm)
        if nm in ('transpose', 'adjoint'): return linear_map('transpose', o, kind=o.kind)
        return mk('app', 'e.' + nm, o, *p.args[1:], kind={'row': 'v', 'col': 'v', 'diagonal': 'v'}.get(nm))
    def _upd(self, o, i, v):
        if i.op == 'c':
            k = int(i.args[0])
            if o.op == 'vec3' and 0 <= k < len(o.args):
                a = list(o.args); a[k] = v; return mk('vec3', *a)
            if o is ZERO and 0 <= k < 3:
                a = [ZERO] * 3; a[k] = v; return mk('vec3', *a)
            if o.op == 'upd' and o.args[1] is i: return self._upd(o.args[0], i, v)
            # collect a full triple
            got = {k: v}; x = o
            while x.op == 'upd' and x.args[1].op == 'c':
                got.setdefault(int(x.args[1].args[0]), x.args[2]); x = x.args[0]
            if x.kind == 'q' or 3 in got:
                if all(j in got for j in (0, 1, 2, 3)): return mk('vec3', got[0], got[1], got[2], got[3], kind='q')
            elif all(j in got for j in (0, 1, 2)) and x.kind != 'm': return mk('vec3', got[0], got[1], got[2])
        return mk('upd', o, i, v)
    def havoc(self, loc, st, tag):
        old = st.env.get(loc)
        st.n += 1
        k = old.kind if old is not None else None
        self.write_raw(loc, mk('hv', tag, loc, st.n, kind=k), st)
    def write_raw(self, loc, v, st):
        dead = [k for k in st.env if k is not loc and k.op in ('L.f', 'L.e', 'L.c') and self.inside(k, loc)]
        for k in dead: del st.env[k]
        st.env[loc] = v

    # ---------- running
    def run(self, fn, params=None, this=None, pre=None):
        st = State(); st.file = fn['file']; st.fn = fn['q']; st.stack = (fn['key'],)
        st.this = this or mk('this')
        setparams(fn)
        for i, p in enumerate(fn['params']):
            name, vid, ty, isref = p[0], p[1], p[2], p[3]
            nm = 'arg%d' % i
            loc = mk('L.var', nm, 0, vid)
            if isref:
                loc = mk('L.d', mk('param', nm)); st.refs[(0, vid)] = loc
            else:
                st.env[loc] = (params or {}).get(i) or mk('param', nm, kind=type_kind(ty)); st.refs[(0, vid)] = loc
        if pre: pre(st, self)
        self.frames = []
        def body(s):
            for q, e in fn.get('inits') or []:
                if q.startswith('base:') or q == '?':
                    continue
                v = self.rv(e, s) if e else ZERO
                self.write(self.field(s.this, q), v, s, fn['line'])
            self.stmt(fn['body'], s)
        ps = self.explore(body, st)
        self.stats['paths'] += len(ps)
        return ps

    # ---------- statements
    def stmt(self, n, st):
        if n is None: return
        self.work += 1
        if self.work > self.maxwork: raise TooMany('work limit')
        k = n[0]
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement ' + k)
        m(n, st)
    def s_seq(self, n, st):
        old = st.ctx
        try:
            for x in n[2]: self.stmt(x, st)
        finally: st.ctx = old
    def s_expr(self, n, st): self.rv(n[2], st, void=True)
    def s_decl(self, n, st):
        for v in n[2]: self.declare(v, st, n[1])
    def declare(self, v, st, line):
        name, vid, ty, isref, isstatic, init = v[0], v[1], v[2], v[3], v[4], v[5]
        key = (st.frame, vid)
        if isstatic:
            loc = mk('L.g', 'static:%s:%s' % (st.fn, name)); st.refs[key] = loc
            if init is not None and not (loc in st.env):
                pass
            return
        if isref:
            if init is None: return
            st.refs[key] = self.lv(init, st)
            return
        loc = mk('L.var', name, st.frame, vid)
        st.refs[key] = loc
        if LOCKTY.search(ty) and init is not None and init[0] == 'ctor' and init[3]:
            try: m = self.lv(init[3][0], st)
            except Exception: m = mk('unknown', 'mutex')
            st.ctx = st.ctx + (('lock', m),)
            self.event_soft(st, Ev('lock', obj=m, line=line))
            st.env[loc] = mk('lockobj', m)
            return
        for kk in [q for q in st.env if q is loc or self.inside(q, loc)]: del st.env[kk]
        if init is None:
            st.env[loc] = mk('undef', name, kind=type_kind(ty)); return
        if init[0] == 'init' and ty.endswith(']') and ty.count('[') == 1 and re.search(r'\[(\d+)\]$', ty):
            n = int(re.search(r'\[(\d+)\]$', ty).group(1)); vals = [self.rv(x, st) for x in init[2]]
            if n <= 16 and len(vals) <= n:
                for i in range(n): st.env[mk('L.e', mk('addr', loc), const(i))] = vals[i] if i < len(vals) else ZERO
                return
        # default-constructed class objects keep an abstract identity
        if init[0] == 'ctor' and not init[3]:
            if self.is_ptr_class(ty): st.env[loc] = NULL
            elif type_kind(ty) in ('v', 'm', 'q'): st.env[loc] = mk('undef', name, kind=type_kind(ty))
            else:
                self.rv_ctor(init, st, dest=loc)
            return
        v0 = self.rv(init, st)
        if ty == 'bool': v0 = nonzero(v0) if v0.op != 'undef' else v0
        if is_int_type(ty) and v0.op in ('true', 'false') and ty != 'bool': v0 = ONE if v0 is TRUE else ZERO
        st.env[loc] = self.conv(v0, ty)
    def conv(self, v, ty):
        k = type_kind(ty)
        if k and v.kind == 's' and v.op in ('ld', 'app', 'hv', 'fv', 'undef'): v.kind = k
        return v
    def is_ptr_class(self, ty): return bool(re.match(r'(const )?(std|boost)::(__\w+::)?(shared_ptr|weak_ptr|unique_ptr|intrusive_ptr)', ty))

    def s_if(self, n, st):
        if n[2] is not None: self.stmt(n[2], st)
        c = self.cond(n[3], st)
        c = self.simp(c, st)
        if c is TRUE: return self.stmt(n[4], st)
        if c is FALSE: return self.stmt(n[5], st)
        if self.merge and self.try_merge(c, n[4], n[5], st): return
        if self.branch(c, st): self.stmt(n[4], st)
        else: self.stmt(n[5], st)
    def speculate(self, f, st):
        self.spec += 1
        self.frames.append({'list': [], 'pos': 0, 'n': [], 'spec': self.spec})
        try: return f(st)
        except (Ret, Brk, Cont, Thr): raise NotSimple()
        finally:
            self.frames.pop(); self.spec -= 1
    def try_merge(self, c, a, b, st):
        key = (id(a), id(b))
        if key in self.nomerge: return False
        try:
            s1 = st.copy(); self.assume(c, s1); self.speculate(lambda s: self.stmt(a, s), s1)
            s2 = st.copy(); self.assume(bnot(c), s2); self.speculate(lambda s: self.stmt(b, s), s2)
        except NotSimple:
            self.nomerge.add(key); return False
        if s1.gens != s2.gens:
            g = dict(s1.gens)
            for kk in set(s1.gens) | set(s2.gens):
                if s1.gens.get(kk) != s2.gens.get(kk): g[kk] = max(s1.gens.get(kk, 0), s2.gens.get(kk, 0)) + 1
            gens = g
        else: gens = s1.gens
        env = {}
        for loc in list(s1.env) + [l for l in s2.env if l not in s1.env]:
            v1 = s1.env.get(loc); v2 = s2.env.get(loc)
            if v1 is v2: env[loc] = v1; continue
            isloc = loc.op == 'L.var'
            if v1 is None:
                if isloc and loc not in st.env: env[loc] = v2; continue
                v1 = self.read(loc, s1)
            if v2 is None:
                if isloc and loc not in st.env: env[loc] = v1; continue
                v2 = self.read(loc, s2)
            env[loc] = ite(c, v1, v2)
        st.env = env; st.gens = gens; st.n = max(s1.n, s2.n)
        st.refs.update(s1.refs); st.refs.update(s2.refs)
        st.lcount = dict(s1.lcount)
        for k2, v2 in s2.lcount.items(): st.lcount[k2] = max(st.lcount.get(k2, 0), v2)
        return True
    def s_return(self, n, st):
        if n[2] is None: raise Ret(None)
        fr = self.retref(st)
        if fr: raise Ret(self.lv(n[2], st))
        raise Ret(self.rv(n[2], st))
    def retref(self, st): return getattr(self, '_retref', {}).get(st.frame, False)
    def s_break(self, n, st): raise Brk()
    def s_continue(self, n, st): raise Cont()
    def s_label(self, n, st): self.stmt(n[3], st)
    def s_goto(self, n, st): raise Unsupported('goto')
    def s_ostmt(self, n, st):
        if n[2] in ('NullStmt', 'GCCAsmStmt'): return
        raise Unsupported('statement ' + n[2])
    def s_try(self, n, st):
        hs = n[3]
        if self.spec: raise NotSimple()
        c = self.decide(1 + len(hs))
        if c == 0:
            try: self.stmt(n[2], st)
            except Thr:
                # goes to some handler: take each
                k = self.decide(len(hs)) if len(hs) > 1 else 0
                self.handler(hs[k], st)
        else:
            # an exception raised by a callee somewhere in the block
            h = hs[c - 1]
            self.event(st, Ev('catch', val=mk('str', h[0]), line=n[1], node=n, info='may-throw'))
            for loc in self.assigned(n[2], st): self.havoc(loc, st, 'try')
            self.handler(h, st)
    def handler(self, h, st):
        if h[1]:
            v = h[1]; loc = mk('L.var', v[0], st.frame, v[1]); st.refs[(st.frame, v[1])] = loc; st.env[loc] = mk('exc', h[0])
        self.stmt(h[2], st)
    def assigned(self, n, st):
        out = set()
        from db import walk
        for x in walk(n):
            if x[0] == 'bin' and (x[2] == '=' or (x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>='))): t = x[3]
            elif x[0] == 'un' and x[2] in ('++', '--'): t = x[4]
            elif x[0] == 'op' and x[2] in ('=', '+=', '-=', '*=', '/=') and x[3]: t = x[3][0]
            else: continue
            if t[0] == 'var' and (st.frame, t[3]) in st.refs: out.add(st.refs[(st.frame, t[3])])
            elif t[0] == 'mem' and t[2][0] == 'this': out.add(self.field(st.this, t[3]))
        return out

    def s_switch(self, n, st):
        v = self.rv(n[2], st)
        groups = []   # (labels, stmts)
        def add(s):
            k = s[0] if s else None
            if k == 'case':
                groups.append([s[2], []]); add(s[3])
            elif k == 'default':
                groups.append(['default', []]); add(s[2])
            elif groups and s is not None: groups[-1][1].append(s)
        body = n[3]
        for s in (body[2] if body and body[0] == 'seq' else [body]): add(s)
        labels = [(i, g[0]) for i, g in enumerate(groups)]
        conds = []
        for i, l in labels:
            if l == 'default': continue
            conds.append((i, equal(v, self.rv(l, st))))
        chosen = None
        for i, c in conds:
            if self.branch(c, st): chosen = i; break
        if chosen is None:
            d = [i for i, l in labels if l == 'default']
            if not d: return
            chosen = d[0]
        try:
            for g in groups[chosen:]:
                for s in g[1]: self.stmt(s, st)
        except Brk: pass
    def s_case(self, n, st): self.stmt(n[3], st)
    def s_default(self, n, st): self.stmt(n[2], st)

    def s_omp(self, n, st):
        kind = n[2]
        old = st.ctx
        if kind == 'critical':
            st.ctx = old + (('critical', n[5]),)
            try: self.stmt(n[4], st)
            finally: st.ctx = old
            return
        if kind == 'atomic': st.ctx = old + (('atomic', ''),)
        elif kind in ('parallel for', 'parallel', 'for', 'parallel for simd', 'sections', 'parallel sections', 'section', 'master', 'single'):
            st.ctx = old + (('omp ' + kind, n[1]),)
        try: self.stmt(n[4], st)
        finally: st.ctx = old

    # ---------- loops
    def loopid(self, n, st):
        k = (st.fn, n[1]); st.lcount[k] = st.lcount.get(k, 0) + 1
        return '%s:%d#%d' % (st.file.split('/')[-1], n[1], st.lcount[k])
    def const_int(self, t): return int(t.args[0]) if t.op == 'c' and t.args[0].denominator == 1 else None

    def s_for(self, n, st):
        _, line, init, cnd, inc, body = n
        if init is not None: self.stmt(init, st)
        iv, lo, hi, strict, step = self.induction(init, cnd, inc, st)
        if iv is not None and body is not None and self.var_written(body, iv[1]): iv = None
        if iv is not None and lo is not None and hi is not None and step:
            a, b = self.const_int(lo), self.const_int(hi)
            if a is not None and b is not None:
                if strict == '!=': strict = '<' if step > 0 else '>'
                cnt = 0; x = a; ok = lambda x: (x < b if strict == '<' else x <= b if strict == '<=' else x > b if strict == '>' else x >= b)
                vals = []
                while ok(x) and len(vals) <= 12: vals.append(x); x += step
                if len(vals) <= 12:
                    loc = st.refs[iv]
                    for val in vals:
                        st.env[loc] = const(val)
                        try: self.stmt(body, st)
                        except Cont: pass
                        except Brk: return
                    st.env[loc] = const(x)
                    return
        info = {'kind': 'for', 'line': line, 'lo': lo, 'hi': hi, 'cmp': strict, 'step': step, 'iv': None, 'cont': None, 'sized': [l.args[0] for l, v in st.env.items() if l.op == 'L.size' and v is hi]}
        self.generic_loop(n, st, info, iv, cnd, inc, body)
    def induction(self, init, cnd, inc, st):
        none = (None, None, None, None, None)
        var = None
        # the variable compared and incremented
        def isvar(e): return e and e[0] == 'var' and (st.frame, e[3]) in st.refs
        if inc is None or cnd is None: return none
        incs = [inc]
        if inc[0] == 'bin' and inc[2] == ',': incs = [inc[3], inc[4]]
        step = None
        for x in incs:
            if x[0] == 'un' and x[2] in ('++', '--') and isvar(x[4]): var = x[4]; step = 1 if x[2] == '++' else -1; break
            if x[0] == 'op' and x[2] in ('++', '--') and isvar(x[3][0]): var = x[3][0]; step = 1 if x[2] == '++' else -1; break
            if x[0] == 'bin' and x[2] in ('+=', '-=') and isvar(x[3]) and x[4][0] == 'int': var = x[3]; step = x[4][2] * (1 if x[2] == '+=' else -1); break
            if x[0] == 'bin' and x[2] == '=' and isvar(x[3]) and x[4][0] == 'bin' and x[4][2] == '+' and x[4][3][0] == 'var' and x[4][3][3] == x[3][3] and x[4][4][0] == 'int': var = x[3]; step = x[4][4][2]; break
        if var is None: return none
        key = (st.frame, var[3])
        lo = self.read(st.refs[key], st)
        c = cnd
        while c[0] == 'bin' and c[2] == '&&': c = c[3]
        op = None
        if c[0] == 'bin' and c[2] in ('<', '<=', '!=', '>', '>='): a, b, op = c[3], c[4], c[2]
        elif c[0] == 'op' and c[2] in ('<', '<=', '!=', '>', '>=') and len(c[3]) == 2: a, b, op = c[3][0], c[3][1], c[2]
        if op is None: return key, lo, None, None, step
        FL = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}
        if isvar(a) and a[3] == var[3]: other = b
        elif isvar(b) and b[3] == var[3]: other = a; op = FL[op]
        else: return key, lo, None, None, step
        try: hi = self.speculate(lambda s: self.rv(other, s), st.copy())
        except NotSimple: hi = None
        return key, lo, hi, op, step
    def var_written(self, body, vid):
        from db import walk
        for x in walk(body):
            t = None
            if x[0] == 'bin' and x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>='): t = x[3]
            elif x[0] == 'un' and x[2] in ('++', '--'): t = x[4]
            elif x[0] == 'op' and x[2] in ('++', '--', '=', '+=', '-='): t = x[3][0]
            if t and t[0] == 'var' and t[3] == vid: return True
        return False
    def s_while(self, n, st):
        # while (i<n) { ...; ++i; } is the for loop it spells
        b = n[4]
        if n[2] is None and b and b[0] == 'seq' and b[2] and b[2][-1][0] == 'expr':
            inc = b[2][-1][2]
            t = inc[4] if inc and inc[0] == 'un' and inc[2] in ('++', '--') else inc[3] if inc and inc[0] == 'bin' and inc[2] in ('+=', '-=') else inc[3][0] if inc and inc[0] == 'op' and inc[2] in ('++', '--') else None
            rest = ['seq', b[1], b[2][:-1]] + b[3:]
            if t and t[0] == 'var' and not self.has_continue(rest) and not self.var_written(rest, t[3]):
                iv, lo, hi, strict, step = self.induction(None, n[3], inc, st)
                if iv is not None and hi is not None: return self.s_for(['for', n[1], None, n[3], inc, rest], st)
        info = {'kind': 'while', 'line': n[1], 'lo': None, 'hi': None, 'cmp': None, 'step': None, 'iv': None, 'cont': None}
        self.generic_loop(n, st, info, None, n[3], None, n[4], pre=n[2])
    def has_continue(self, n):
        if not isinstance(n, list): return False
        if n and n[0] == 'continue': return True
        if n and n[0] in ('for', 'while', 'do', 'rfor', 'lambda'): return False
        return any(self.has_continue(x) for x in n)
    def s_do(self, n, st):
        # body at least once: treat as generic iteration
        c = n[2]
        if (c[0] == 'bool' and not c[2]) or (c[0] == 'int' and not c[2]):
            try: self.stmt(n[3], st)
            except (Brk, Cont): pass
            return
        info = {'kind': 'do', 'line': n[1], 'lo': None, 'hi': None, 'cmp': None, 'step': None, 'iv': None, 'cont': None}
        self.generic_loop(n, st, info, None, None, None, n[3])
    def s_rfor(self, n, st):
        _, line, var, rng, body = n
        c = self.lv(rng, st)
        ca = self.addr(c)
        info = {'kind': 'range', 'line': line, 'lo': ZERO, 'hi': mk('app', 'size', ca), 'cmp': '<', 'step': 1, 'iv': None, 'cont': ca}
        self.generic_loop(n, st, info, None, None, None, body, rvar=var, cont=ca)

    def generic_loop(self, n, st, info, iv, cnd, inc, body, pre=None, rvar=None, cont=None):
        lid = self.loopid(n, st)
        ivt = mk('iv', lid)
        self.stats['loops'] += 1
        info['id'] = lid; info['iv'] = ivt; self.loopinfo[lid] = info
        info['entry'] = {l: v for l, v in st.env.items() if l.op == 'L.var'}
        if iv is not None:
            loc_iv = st.refs[iv]; lo = info['lo']
            if lo is not None and lo.op == 'it':
                info['cont'] = lo.args[0]
        M = set()
        for rnd in range(4):
            h = st.copy(); h.events = []
            base_env = None
            for loc in sorted(M, key=self.depth):
                old = h.env.get(loc)
                self.write_raw(loc, mk('lh', lid, loc, kind=(old.kind if old is not None else None)), h)
            if iv is not None:
                lo = info['lo']
                if lo is not None and lo.op == 'it': h.env[loc_iv] = mk('it', lo.args[0], ivt)
                else: h.env[loc_iv] = ivt
            if rvar is not None:
                eloc = mk('L.e', cont, ivt)
                key = (h.frame, rvar[1])
                if rvar[3]: h.refs[key] = eloc
                else:
                    l = mk('L.var', rvar[0], h.frame, rvar[1]); h.refs[key] = l
                    h.env[l] = self.read(eloc, h, rvar[2])
            base_env = dict(h.env)
            def it(s):
                if pre is not None: self.stmt(pre, s)
                if cnd is not None:
                    c = self.cond(cnd, s)
                    c2 = self.simp(c, s)
                    if c2 is FALSE: raise Brk()
                    self.assume(c, s)
                try: self.stmt(body, s)
                except Cont: pass
                if inc is not None:
                    if iv is None: self.rv(inc, s, void=True)
                    else:
                        incs = [inc]
                        if inc[0] == 'bin' and inc[2] == ',': incs = [inc[3], inc[4]]
                        for x in incs:
                            tgt = x[4] if x[0] == 'un' else (x[3][0] if x[0] == 'op' else x[3])
                            if tgt[0] == 'var' and (s.frame, tgt[3]) == iv: continue
                            self.rv(x, s, void=True)
            sp = self.spec; self.spec_saved = sp
            paths = self.explore_in(it, h)
            new = set()
            for p in paths:
                for loc, v in p.st.env.items():
                    if base_env.get(loc) is not v:
                        if loc.op == 'L.var' and loc not in base_env: continue
                        if loc.op in ('L.e', 'L.f') and self.mentions(loc, ivt): continue
                        if base_env.get(loc) is None and p.st.env[loc] is self.read_default(loc, h): continue
                        new.add(loc)
            if new <= M: break
            M |= new
        anyev = any(p.events for p in paths)
        if anyev and self.spec: raise NotSimple()
        exits = [p for p in paths if p.end in ('return', 'throw')]
        brks = [p for p in paths if p.end == 'break' and (p.facts != h.facts or p.events)]
        if (exits) and self.spec and self.frames[-1].get('spec') == self.spec: raise NotSimple()
        info['paths'] = len(paths); self.loopruns.setdefault(lid, []).append((info, paths))
        ev = None
        if anyev or exits:
            ev = Ev('loop', info=info, paths=paths, line=n[1], node=n)
            self.event(st, ev)
        opts = 1 + len(exits) + (len(brks) if (not self.spec and len(brks) <= 4 and self.loop_break_paths) else 0)
        k = self.decide(opts) if opts > 1 else 0
        if k > 0:
            p = (exits + brks)[k - 1]
            oldev = st.events
            st.take(p.st.copy())
            st.events = oldev + [Ev('inloop', info=info, paths=[p], line=n[1])] if p.events else oldev + [Ev('inloop', info=info, paths=[p], line=n[1])]
            if p.end == 'return': raise Ret(p.val)
            if p.end == 'throw': raise Thr(p.val)
            return
        # normal exit
        falls = [p for p in paths if p.end in ('fall', 'continue')]
        for p in paths:
            for key, g in p.st.gens.items():
                if st.gens.get(key, 0) != g: st.gens[key] = max(st.gens.get(key, 0), g)
        for loc in sorted(M, key=self.depth):
            old = st.env.get(loc)
            if old is None: old = self.read(loc, st)
            head = mk('lh', lid, loc)
            deltas = []
            for p in falls + [q for q in paths if q.end == 'break']:
                v = p.st.env.get(loc, head)
                d = self.delta(v, head)
                if any(x is head for x in subterms(d)): deltas = None; break
                deltas.append(d)
            if deltas:
                ds = set(deltas)
                s = None; ok = old.kind if old.kind != 's' else next((x.kind for x in ds if x.kind != 's'), 's')
                if len(ds) == 1: s = mk('sum', lid, ds.pop(), kind=ok)
                elif ZERO in ds and len(ds) == 2: ds.discard(ZERO); s = mk('sumif', lid, ds.pop(), kind=ok)
                else: s = mk('sumx', lid, *sorted(ds), kind=ok)
                self.write_raw(loc, add(old, s), st)
            else:
                vs = {p.st.env.get(loc, head) for p in falls}
                if len(vs) == 1 and not any(x is head or x is ivt or x.op == 'lh' for x in subterms(next(iter(vs)))):
                    self.write_raw(loc, mk('lo', lid, loc, next(iter(vs)), kind=old.kind), st)
                else: self.write_raw(loc, mk('lo', lid, loc, kind=old.kind), st)
        # element stores indexed by the induction variable: the container has changed
        for p in paths:
            for loc in p.st.env:
                if loc.op in ('L.e', 'L.f') and loc not in st.env and self.mentions(loc, ivt):
                    b = loc.args[0]
                    st.gens[b] = st.gens.get(b, 0) + 1 if not self.mentions(b, ivt) else st.gens.get(b, 0)
        if iv is not None: self.write_raw(loc_iv, mk('lo', lid, loc_iv), st)
    loop_break_paths = True
    def delta(self, v, head):
        """v - head, looking into gated values"""
        if v.op == 'ite' and not any(x is head for x in subterms(v.args[0])): return ite(v.args[0], self.delta(v.args[1], head), self.delta(v.args[2], head))
        return sub(v, head)
    def read_default(self, loc, st):
        try: return self.read(loc, st)
        except Exception: return None
    def explore_in(self, it, h):
        # inside a speculation, the body may branch freely (its own decision frame) but must not record effects
        return self.explore(it, h)
    def mentions(self, t, x):
        return any(y is x for y in subterms(t))

    # ---------- conditions
    def cond(self, e, st):
        k = e[0]
        if k == 'bin' and e[2] in ('&&', '||'):
            a = self.cond(e[3], st)
            isand = e[2] == '&&'
            sa = self.simp(a, st)
            if isand and sa is FALSE: return FALSE
            if not isand and sa is TRUE: return TRUE
            if (sa is TRUE and isand) or (sa is FALSE and not isand): return self.cond(e[4], st)
            try:
                s2 = st.copy(); self.assume(a if isand else bnot(a), s2)
                n0 = len(s2.events)
                b = self.speculate(lambda s: self.cond(e[4], s), s2)
                if self.env_changed(st, s2): raise NotSimple()
                st.n = max(st.n, s2.n)
                st.refs.update(s2.refs)
                return band(a, b) if isand else bor(a, b)
            except NotSimple:
                if self.spec and self.frames[-1].get('spec') == self.spec: raise
                if self.branch(a, st): return self.cond(e[4], st) if isand else TRUE
                return FALSE if isand else self.cond(e[4], st)
        if k == 'un' and e[2] == '!': return bnot(self.cond(e[4], st))
        if k == 'op' and e[2] == '!': return bnot(self.cond(e[3][0], st))
        return nonzero(self.rv(e, st))
    def env_changed(self, a, b):
        for k, v in b.env.items():
            if a.env.get(k) is not v and not (k.op == 'L.var' and k not in a.env): return True
        return a.gens != b.gens

    # ---------- lvalues
    def lv(self, e, st):
        m = getattr(self, 'l_' + e[0], None)
        if m: return m(e, st)
        return mk('L.tmp', self.rv(e, st))
    def l_var(self, e, st):
        if e[4] in ('local', 'param', 'other') :
            loc = st.refs.get((st.frame, e[3]))
            if loc is not None: return loc
            # captured / enclosing variable of a lambda, or structured binding
            for f in range(st.frame, -1, -1):
                l = st.refs.get((f, e[3]))
                if l is not None: return l
            return mk('L.var', e[2], st.frame, e[3])
        if e[4] == 'slocal':
            loc = st.refs.get((st.frame, e[3]))
            if loc is not None: return loc
        return mk('L.g', e[2])
    def l_mem(self, e, st):
        _, line, base, q, ty, arrow = e[:6]
        if arrow: p = self.rv(base, st)
        else: p = self.addr(self.lv(base, st))
        return self.field(p, q)
    def l_this(self, e, st): return mk('L.tmp', st.this)
    def l_un(self, e, st):
        if e[2] == '*': return self.deref(self.rv(e[4], st))
        if e[2] in ('++', '--') and not e[3]:
            self.rv(e, st, void=True); return self.lv(e[4], st)
        return mk('L.tmp', self.rv(e, st))
    def l_idx(self, e, st):
        b = e[2]
        base = self.rv_arr(b, st)
        return mk('L.e', base, self.rv(e[3], st))
    def rv_arr(self, b, st):
        # arrays decay to the address of the array object
        if b[0] in ('mem', 'var'):
            ty = b[4] if b[0] == 'mem' else b[5]
            if ty.endswith(']'): return self.addr(self.lv(b, st))
        return self.rv(b, st)
    def l_cast(self, e, st):
        if e[3].endswith('*') or e[5].endswith('*'): return mk('L.tmp', self.rv(e, st))
        if e[2] in ('static', 'const', 'c', 'dynamic', 'reinterpret', 'func'):
            if is_int_type(e[3]) or e[3] in ('double', 'float'): return mk('L.tmp', self.rv(e, st))
            return self.lv(e[4], st)
        return mk('L.tmp', self.rv(e, st))
    def l_cond(self, e, st):
        c = self.simp(self.cond(e[2], st), st)
        if c is TRUE: return self.lv(e[3], st)
        if c is FALSE: return self.lv(e[4], st)
        try:
            a = self.speculate(lambda s: self.lv(e[3], s), st); b = self.speculate(lambda s: self.lv(e[4], s), st)
            if a is b: return a
            if a.op == 'L.tmp' or b.op == 'L.tmp': return mk('L.tmp', ite(c, self.read(a, st), self.read(b, st)))
            return mk('L.d', ite(c, self.addr(a), self.addr(b)))
        except NotSimple:
            return self.lv(e[3], st) if self.branch(c, st) else self.lv(e[4], st)
    def l_bin(self, e, st):
        if e[2] == '=' or e[2] in ('+=', '-=', '*=', '/='):
            self.rv(e, st, void=True); return self.lv(e[3], st)
        if e[2] == ',':
            self.rv(e[3], st, void=True); return self.lv(e[4], st)
        return mk('L.tmp', self.rv(e, st))
    def l_defarg(self, e, st): return self.lv(e[2], st)
    def l_op(self, e, st):
        op, args, key, q = e[2], e[3], e[4], e[5]
        if op == '()' and not (self.eig(e[7][0]) or 'Eigen' in q):
            v = self.rv(args[0], st); f = self.closure(v)
            if f is not None and f['key'] not in st.stack: return self.call_fn(f, f['key'], q, v.args[2], args[1:], ['call'] + e[1:], st, want='lv')
        f = self.db.fns.get(key)
        if f is not None and self.may_inline(f, st, False):
            return self.call_fn(f, key, q, None, args, e, st, want='lv')
        tys = e[7]
        if op == '[]' or op == '()':
            o = args[0]
            k0 = self.eig(tys[0])
            if k0 or (op == '()' and 'Eigen' in q):
                base = self.lv(o, st)
                idx = self.rv(args[1], st) if len(args) == 2 else mk('ij', *[self.rv(a, st) for a in args[1:]])
                return mk('L.c', base, idx)
            if op == '[]':
                base = self.lv(o, st) if not tys[0].endswith('*') else None
                b = self.addr(base) if base is not None else self.rv(o, st)
                if self.is_ptr_class(tys[0]): b = self.rv(o, st)
                idx = self.rv(args[1], st)
                if idx.op == 'it': pass
                return mk('L.e', b, idx)
        if op == '*' and len(args) == 1: return self.deref(self.rv(args[0], st))
        if op == '->' : return self.deref(self.rv(args[0], st))
        if op in ('=', '+=', '-=', '*=', '/=', '++', '--', '<<', '|=', '&='):
            if op == '<<' and 'Eigen' not in q:
                self.rv(e, st, void=True); return mk('L.tmp', mk('stream'))
            self.rv(e, st, void=True); return self.lv(args[0], st)
        return mk('L.tmp', self.rv(e, st))
    def eig(self, ty):
        return ty.startswith(('Eigen::', 'const Eigen::')) and 'Quaternion' not in ty[:24]
    def l_call(self, e, st):
        q = e[3]
        nm = q.split('::')[-1]
        oty = e[9] if len(e) > 9 else ''
        if q.startswith('Eigen::'):
            if nm in ('x', 'y', 'z', 'w') and e[4] is not None: return mk('L.c', self.lv(e[4], st), const('xyzw'.index(nm)))
            if nm in ('coeffRef', 'coeff') and e[4] is not None:
                a = [self.rv(x, st) for x in e[5]]
                return mk('L.c', self.lv(e[4], st), a[0] if len(a) == 1 else mk('ij', *a))
            if nm in ('noalias', 'derived', 'array', 'matrix'): return self.lv(e[4], st)
            if nm in ('angle', 'axis') and e[4] is not None and 'AngleAxis' in q: return mk('L.c', self.lv(e[4], st), mk('part', nm))
            if nm in ('row', 'col', 'diagonal', 'head', 'tail', 'segment', 'block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'transpose', 'adjoint', 'topRows', 'bottomRows', 'leftCols', 'rightCols') and e[4] is not None:
                # writable view of a part of the object
                return mk('L.c', self.lv(e[4], st), mk('part', nm, *[self.rv(x, st) for x in e[5]]))
            return mk('L.tmp', self.rv(e, st))
        if nm in ('operator*', 'operator->') and e[4] is not None: return self.deref(self.rv(e[4], st))
        if nm in ('at',) and q.startswith('std::'): return mk('L.e', self.addr(self.lv(e[4], st)), self.rv(e[5][0], st))
        if nm in ('front',) and q.startswith('std::'): return mk('L.e', self.addr(self.lv(e[4], st)), ZERO)
        if nm in ('back',) and q.startswith('std::'):
            b = self.addr(self.lv(e[4], st)); return mk('L.e', b, sub(st.env.get(mk('L.size', b)) or mk('app', 'size', b, const(self.gen(b, st))), ONE))
        if nm in ('move', 'forward') and q.startswith('std::'): return self.lv(e[5][0], st)
        if q == 'Serializable::cast' and e[4] is not None:
            return self.deref(self.strip(self.rv(e[4], st))) if e[8] or e[4][0] == 'this' else self.lv(e[4], st)
        r = self.call(e, st, want='lv')
        return r if isinstance(r, Term) and r.op.startswith('L.') else mk('L.tmp', r if r is not None else mk('void'))

    # ---------- rvalues
    def rv(self, e, st, void=False):
        if e is None: return mk('void')
        self.work += 1
        k = e[0]
        m = getattr(self, 'r_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(e, st)
    def r_int(self, e, st): return const(e[2])
    def r_float(self, e, st):
        try: return const(Fraction(e[2]))
        except ValueError: return mk('k', e[2])
    def r_bool(self, e, st): return TRUE if e[2] else FALSE
    def r_str(self, e, st): return mk('str', e[2])
    def r_null(self, e, st): return NULL
    def r_this(self, e, st): return st.this
    def r_enum(self, e, st): return const(e[3])
    def r_fref(self, e, st): return mk('fn', e[3])
    def r_var(self, e, st):
        if len(e) > 6: return const(e[6])
        loc = self.l_var(e, st)
        return self.read(loc, st, e[5])
    def r_mem(self, e, st): return self.read(self.l_mem(e, st), st, e[4])
    def r_idx(self, e, st): return self.read(self.l_idx(e, st), st, e[4])
    def r_defarg(self, e, st): return self.rv(e[2], st)
    def r_other(self, e, st):
        return mk('app', 'other:' + e[2], *[self.rv(x, st) for x in e[3]])
    def r_sizeof(self, e, st): return mk('sizeof', e[2])
    def r_lambda(self, e, st):
        t = mk('lambda', e[1], st.file, st.this)
        self.lambdas[t] = e
        return t
    def closure(self, v):
        """the body of a lambda known at the call, as a function"""
        if v.op != 'lambda': return None
        e = self.lambdas.get(v)
        if e is None or len(e) < 6 or e[5]: return None
        k = id(e)
        if k not in self._closures:
            self._closures[k] = {'q': 'lambda', 'key': 'lambda:%s:%d' % (v.args[1], e[1]), 'file': v.args[1], 'line': e[1], 'params': e[3], 'body': e[2], 'ret': e[4], 'cls': 'lambda'}
        return self._closures[k]
    def r_throw(self, e, st):
        v = self.rv(e[2], st) if e[2] else None
        raise Thr(v)
    def r_delete(self, e, st):
        v = self.rv(e[2], st); self.event_call(st, 'delete', None, [v], e); return mk('void')
    def r_new(self, e, st):
        a = e[3]
        st.n += 1
        o = mk('newobj', e[2], e[1], st.n)
        if a and a[0] == 'arr': return o
        args = [self.rv(x, st) for x in a]
        self.construct(e[2], a, args, o, st, e)
        return o
    def construct(self, cls, anodes, args, o, st, e):
        c = [f for f in self.db.byq.get(cls + '::' + cls.split('::')[-1], []) if f.get('ctor') and len(f['params']) >= len(args)]
        c = [f for f in c if len(f['params']) == len(args)] or []
        if len(c) == 1 and self.db.size(c[0]) < 400 and len(st.stack) < self.maxdepth and c[0]['key'] not in st.stack and c[0]['q'] not in self.opaque:
            self.call_fn(c[0], c[0]['key'], c[0]['q'], o, None, e, st, argvals=args)
        elif args:
            st.env[mk('L.f', o, '<ctor>')] = mk('app', 'ctor:' + cls, *args)
    def r_ctor(self, e, st): return self.rv_ctor(e, st)
    def rv_ctor(self, e, st, dest=None):
        ty, a = e[2], e[3]
        k = type_kind(ty)
        if self.is_ptr_class(ty):
            if not a: return NULL
            return self.rv(a[0], st)
        if k == 'v':
            args = [self.rv(x, st) for x in a]
            if len(args) >= 3: return mk('vec3', *args)
            if len(args) == 1: return args[0]
            return mk('undef', 'vec', kind='v')
        if k in ('m', 'q'):
            args = [self.rv(x, st) for x in a]
            if len(args) == 1: 
                if args[0].kind == k or args[0] is ZERO and k == 'm': return args[0]
                return mk('app', 'as_' + k, args[0], kind=k)
            return mk('app', 'mk_' + k, *args, kind=k)
        if ty.startswith('Eigen::AngleAxis'):
            return mk('app', 'AngleAxis', *[self.rv(x, st) for x in a], kind='q')
        if ty.startswith('std::pair'):
            args = [self.rv(x, st) for x in a]
            if len(args) == 2: return mk('obj', ty, 'std::pair::first', args[0], 'std::pair::second', args[1])
            if len(args) == 1: return args[0]
        if ty.startswith('std::__cxx11::basic_string') and len(a) >= 1:
            return self.rv(a[0], st)
        if ty in ('int', 'double', 'bool', 'long', 'float', 'unsigned int', 'unsigned long') and not a: return ZERO
        args = [self.rv(x, st) for x in a]
        if len(args) == 1 and ty.startswith('std::') : return args[0]
        # repo class built by value
        st.n += 1
        loc = dest if dest is not None else None
        nm = ty.split('<')[0]
        if nm in self.db.cls:
            o = mk('addr', dest) if dest is not None else mk('newobj', ty, e[1], st.n)
            self.event_call(st, 'ctor:' + nm, o, args, e)
            self.construct(nm, a, args, o, st, e)
            return mk('ld', mk('L.d', o), 0) if dest is None else mk('ctorv', ty)
        if dest is not None:
            self.event_call(st, 'ctor:' + nm, mk('addr', dest), args, e)
            return mk('ctorv', ty)
        return mk('app', 'ctor:' + ty, *args)
    def r_init(self, e, st):
        k = type_kind(e[3])
        args = [self.rv(x, st) for x in e[2]]
        if len(args) == 1 and (is_int_type(e[3]) or e[3] == 'double'): return args[0]
        return mk('app', 'init', *args, kind=k)
    def r_cast(self, e, st):
        kind, ty, sub_, fty = e[2], e[3], e[4], e[5]
        v = self.rv(sub_, st) if not (ty == 'void') else self.rv(sub_, st, void=True)
        if ty == 'bool': return nonzero(v)
        if kind == 'dynamic' and ty.endswith('*'): return mk('dyn', ty, v)
        if (is_int_type(ty)) and fty in ('double', 'float', 'long double'): 
            return v if v.op == 'c' and v.args[0].denominator == 1 else mk('trunc', v)
        if ty in ('double', 'float') and v.op in ('true', 'false'): return ONE if v is TRUE else ZERO
        return v
    def r_cond(self, e, st):
        c = self.simp(self.cond(e[2], st), st)
        if c is TRUE: return self.rv(e[3], st)
        if c is FALSE: return self.rv(e[4], st)
        try:
            s1 = st.copy(); self.assume(c, s1); a = self.speculate(lambda s: self.rv(e[3], s), s1)
            s2 = st.copy(); self.assume(bnot(c), s2); b = self.speculate(lambda s: self.rv(e[4], s), s2)
            if self.env_changed(st, s1) or self.env_changed(st, s2): raise NotSimple()
            st.n = max(s1.n, s2.n); st.refs.update(s1.refs); st.refs.update(s2.refs)
            return ite(c, a, b)
        except NotSimple:
            if self.branch(c, st): return self.rv(e[3], st)
            return self.rv(e[4], st)
    def r_un(self, e, st):
        op, post, x = e[2], e[3], e[4]
        if op == '!': return bnot(self.cond(x, st))
        if op == '-': return neg(self.rv(x, st))
        if op == '+': return self.rv(x, st)
        if op == '*': return self.read(self.deref(self.rv(x, st)), st, e[5])
        if op == '&': 
            if x[0] == 'fref': return mk('fn', x[3])
            return self.addr(self.lv(x, st))
        if op in ('++', '--'):
            loc = self.lv(x, st); old = self.read(loc, st, e[5])
            new = self.it_add(old, ONE if op == '++' else const(-1))
            self.write(loc, new, st, e[1], e, op); return old if post else new
        return mk('app', 'un' + op, self.rv(x, st))
    def it_add(self, a, d, sgn=1):
        if a.op == 'it': return mk('it', a.args[0], add(a.args[1], d, sgn))
        return add(a, d, sgn)
    def r_bin(self, e, st):
        op = e[2]
        if op in ('&&', '||'): return self.cond(e, st)
        if op == ',':
            self.rv(e[3], st, void=True); return self.rv(e[4], st)
        if op == '=':
            loc = self.lv(e[3], st); v = self.rv(e[4], st)
            if e[5] == 'bool': v = nonzero(v)
            self.write(loc, v, st, e[1], e); return v
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '%=', '^=', '<<=', '>>='):
            loc = self.lv(e[3], st); old = self.read(loc, st, e[6]); v = self.arith(op[:-1], old, self.rv(e[4], st), is_int_type(e[6]))
            self.write(loc, v, st, e[1], e, op); return v
        a = self.rv(e[3], st); b = self.rv(e[4], st)
        return self.arith(op, a, b, is_int_type(e[6]))
    def arith(self, op, a, b, isint):
        if op == '+': return self.it_add(a, b)
        if op == '-':
            if a.op == 'it' and b.op == 'it' and a.args[0] is b.args[0]: return sub(a.args[1], b.args[1])
            if a.op == 'it': return self.it_add(a, b, -1)
            return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if isint:
                if a.op == 'c' and b.op == 'c' and b.args[0] != 0: return const(int(a.args[0] / b.args[0]))
                return mk('idiv', a, b)
            return div(a, b)
        if op in ('<', '>', '<=', '>='):
            if a.op == 'it' and b.op == 'it': a, b = a.args[1], b.args[1]; isint = True
            if op == '<': return less(a, b, isint)
            if op == '>': return less(b, a, isint)
            if op == '<=': return lesseq(a, b, isint)
            return lesseq(b, a, isint)
        if op == '==': return equal(a, b) if not (a.op == 'it' and b.op == 'it') else (equal(a.args[1], b.args[1]) if a.args[0] is b.args[0] else FALSE)
        if op == '!=': return bnot(self.arith('==', a, b, isint))
        if op in ('&', '|', '^'):
            if a.op == 'c' and b.op == 'c':
                x, y = int(a.args[0]), int(b.args[0]); return const(x & y if op == '&' else x | y if op == '|' else x ^ y)
            if is_bool(a) and is_bool(b): return band(a, b) if op == '&' else bor(a, b) if op == '|' else mk('app', '^', a, b)
            x, y = sorted((a, b)); return mk('app', op, x, y)
        if a.op == 'c' and b.op == 'c' and op in ('%', '<<', '>>'):
            x, y = int(a.args[0]), int(b.args[0])
            if op == '<<': return const(x << y)
            if op == '>>': return const(x >> y)
            if y: return const(x % y if x >= 0 else -((-x) % y))
        if op == '%' and b.op == 'c':
            w = next((x for x in subterms(a) if x.op == 'ite' and constleaves(x) <= 4), None)
            if w is not None:
                l, r = (subst(a, lambda x, v=v: v if x is w else None) for v in w.args[1:])
                return ite(w.args[0], self.arith(op, l, b, isint), self.arith(op, r, b, isint))
        return mk('app', op, a, b)

    def r_op(self, e, st):
        op, args, key, q, ty, tys = e[2], e[3], e[4], e[5], e[6], e[7]
        f = self.db.fns.get(key)
        if f is not None and (q in self.opaque or not self.may_inline(f, st, False)):
            return self.call_opaque(key, q, args[0] if f.get('cls') else None, args[1:] if f.get('cls') else args, e, st)
        if f is not None:
            r = self.call_fn(f, key, q, None, args, e, st, want='rv')
            return r if r is not None else mk('void')
        if op == '()' and not (self.eig(tys[0]) or 'Eigen' in q):
            v = self.rv(args[0], st); f = self.closure(v)
            if f is not None and f['key'] not in st.stack:
                r = self.call_fn(f, f['key'], q, v.args[2], args[1:], ['call'] + e[1:], st, want='rv')
                return r if r is not None else mk('void')
            a = [self.rv(x, st) for x in args]
            return self.event_call(st, q, a[0], a[1:], e)
        if op in ('[]', '()') : return self.read(self.l_op(e, st), st, ty)
        if op in ('*', '->') and len(args) == 1: return self.read(self.l_op(e, st), st, ty) if op == '*' else self.rv(args[0], st)
        if op == '!' : return bnot(nonzero(self.rv(args[0], st)))
        if op == '=':
            loc = self.lv(args[0], st); v = self.rv(args[1], st)
            if self.is_ptr_class(tys[0]) and v is ZERO: v = NULL
            self.write(loc, v, st, e[1], e); return v
        if op in ('+=', '-=', '*=', '/='):
            loc = self.lv(args[0], st); old = self.read(loc, st, tys[0]); k = type_kind(tys[0])
            if k and old.kind == 's' and old.op in ('ld', 'hv', 'fv', 'app', 'undef', 'lh'): old.kind = k
            v = self.vec_arith(op[0], old, self.rv(args[1], st))
            self.write(loc, v, st, e[1], e, op); return v
        if op in ('++', '--'):
            loc = self.lv(args[0], st); old = self.read(loc, st); new = self.it_add(old, ONE if op == '++' else const(-1))
            self.write(loc, new, st, e[1], e, op); return old if len(args) == 2 else new
        if op == '<<' :
            if 'Eigen' in tys[0] and 'Eigen' in q:
                loc = self.lv(args[0], st); v = self.rv(args[1], st); self.write(loc, mk('app', 'commainit', v, kind=type_kind(tys[0])), st, e[1], e); return mk('comma', loc)
            # output streams: evaluate operands, no value
            a = [self.rv(x, st) for x in args]
            if 'ostream' in ty or 'stream' in tys[0]:
                self.event_call(st, 'stream<<', a[0], a[1:], e); return mk('stream')
            return mk('app', '<<', *a)
        if op == ',':
            a = [self.rv(x, st) for x in args]
            if a[0].op == 'comma':
                loc = a[0].args[0]; st.env[loc] = mk('app', 'commainit', st.env.get(loc, mk('void')), a[1], kind=st.env[loc].kind if loc in st.env else None)
                return a[0]
            return a[1]
        a = [self.rv(x, st) for x in args]
        if len(a) == 1:
            if op == '-': return neg(a[0])
            return mk('app', op, a[0])
        for x, t in zip(a, tys):
            k = type_kind(t)
            if k and x.kind == 's' and x.op in ('ld', 'hv', 'fv', 'app', 'undef', 'lh', 'lo'): x.kind = k
        if op in ('+', '-', '*', '/'): return self.vec_arith(op, a[0], a[1])
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.arith(op, a[0], a[1], False)
        return mk('app', op, *a)
    def vec_arith(self, op, a, b):
        if op == '+': return self.it_add(a, b)
        if op == '-': return self.arith('-', a, b, False)
        if op == '/': return div(a, b)
        if a.kind == 'm' or b.kind == 'm' or a.kind == 'q' or b.kind == 'q' or (a.kind != 's' and b.kind != 's'):
            if a.kind == 's' or b.kind == 's': return mul(a, b)
            if a.kind == 'q' and b.kind == 'q': return mk('app', 'qmul', a, b, kind='q')
            return bilinear('mul', a, b)
        return mul(a, b)

    # ---------- calls
    def r_call(self, e, st):
        q = e[3]
        if q.startswith('Eigen::') or (e[9] if len(e) > 9 else '').startswith('Eigen::'):
            r = self.eigen(e, st)
            if r is not None: return r
        if q == 'Serializable::cast' and e[4] is not None: return self.read(self.l_call(e, st), st)
        r = self.call(e, st, want='rv')
        return r if r is not None else mk('void')
    def r_icall(self, e, st):
        a = [self.rv(x, st) for x in e[3]]
        f = self.rv(e[2], st)
        return self.event_call(st, 'icall', f, a, e)
    def r_dmem(self, e, st): return mk('app', 'dmem', e[3])
    def r_dname(self, e, st): return mk('app', 'dname', e[2])
    def event_call(self, st, q, obj, args, e):
        if self.rec_call(q, obj, args, e, st):
            ev = Ev('call', q=q, obj=obj, args=args, line=e[1], node=e)
            self.event(st, ev)
            st.n += 1
            ev.val = mk('app', q, *( [obj] if obj is not None else []), *args, const(st.n))
            return ev.val
        return mk('app', q, *([obj] if obj is not None else []), *args)

    def eigen(self, e, st):
        q = e[3]; nm = q.split('::')[-1]; on = e[4]; an = e[5]
        if on is None:
            a = [self.rv(x, st) for x in an]
            if nm in ('Zero',): return ZERO
            if nm in ('Ones',): return mk('vec3', ONE, ONE, ONE) if type_kind(e[6]) != 'm' else mk('app', 'Ones', kind='m')
            if nm == 'Constant' and len(a) == 1: return mk('vec3', a[0], a[0], a[0])
            if nm in ('UnitX', 'UnitY', 'UnitZ'): return mk('vec3', *[ONE if 'XYZ'[i] == nm[-1] else ZERO for i in range(3)])
            if nm == 'Identity': return mk('app', 'Identity', kind='m')
            if nm == 'Unit' and len(a) == 1: return mk('app', 'Unit', *a, kind='v')
            return None if q in self.hooks else mk('app', nm, *a, kind=type_kind(e[6]))
        if nm in ('x', 'y', 'z', 'w') and not an: return self.read(self.l_call(e, st), st)
        if nm == 'extend' and len(an) == 1 and self.rec_call('AlignedBox::extend', None, (), e, st):
            o = self.lv(on, st); a = [self.rv(x, st) for x in an]
            self.event(st, Ev('call', q='AlignedBox::extend', obj=self.addr(o), args=a, line=e[1], node=e)); return self.addr(o)
        if nm in ('normalize', 'setZero', 'fill', 'setIdentity', 'setConstant', 'setOnes') :
            loc = self.lv(on, st); o = self.read(loc, st, e[9]); a = [self.rv(x, st) for x in an]
            k = type_kind(e[9]) or 'v'
            v = {'normalize': lambda: mk('normalized', o, kind=k), 'setZero': lambda: ZERO}.get(nm, lambda: mk('app', nm, *a, kind=k))()
            self.write(loc, v, st, e[1], e); return v
        ok = type_kind(e[9]) if len(e) > 9 else None
        o = self.rv(on, st)
        if ok and o.kind == 's' and o.op in ('ld', 'hv', 'fv', 'app', 'undef', 'lh', 'lo'): o.kind = ok
        a = [self.rv(x, st) for x in an]
        if nm == 'cross': return cross(o, a[0])
        if nm == 'dot': return dot(o, a[0])
        if nm == 'squaredNorm': return dot(o, o)
        if nm == 'norm':
            it = poly_items(o)
            if it and it[0][0] < 0: o = neg(o)
            return mk('app', 'norm', o)
        if nm == 'normalized': return mk('normalized', o, kind=o.kind)
        if nm in ('eval', 'derived', 'noalias', 'array', 'matrix', 'cast'): return o
        if nm in ('transpose',): return linear_map('transpose', o, kind=o.kind)
        if nm in ('angle', 'axis') and not a: return aapart(o, nm)
        if nm in ('conjugate', 'inverse', 'toRotationMatrix', 'cwiseAbs', 'cwiseProduct', 'cwiseQuotient', 'minCoeff', 'maxCoeff', 'sum', 'prod', 'trace', 'determinant', 'coeffs', 'angle', 'axis', 'row', 'col', 'size', 'rows', 'cols', 'isZero', 'min', 'max', 'isApprox', 'data', 'asDiagonal', 'head', 'tail', 'segment', 'block', 'coeff'):
            k = {'conjugate': 'q', 'inverse': o.kind, 'toRotationMatrix': 'm', 'cwiseAbs': 'v', 'cwiseProduct': 'v', 'cwiseQuotient': 'v', 'coeffs': 'v', 'axis': 'v', 'row': 'v', 'col': 'v', 'asDiagonal': 'm'}.get(nm)
            if nm == 'coeff': return comp(o, a[0] if len(a) == 1 else mk('ij', *a))
            return mk('app', 'e.' + nm, o, *a, kind=k)
        return mk('app', 'e.' + nm, o, *a, kind=type_kind(e[6]))

    PURE1 = {'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'floor', 'ceil', 'round', 'isnan', 'isinf', 'cbrt', 'log10', 'fmod', 'hypot', 'Sign', 'sign'}
    def call(self, e, st, want):
        _, line, key, q, on, an = e[:6]
        ty = e[6]
        virt = e[7]
        nm = q.split('::')[-1]
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, e, st)
            if r is not None: return r
        if q in self.opaque or key in self.opaque: return self.call_opaque(key, q, on, an, e, st)
        oty = e[9] if len(e) > 9 else ''
        # smart pointers
        if on is not None and self.is_ptr_class(oty.replace('*', '')):
            if nm == 'get' : return self.rv(on, st)
            if nm.startswith('operator bool'): return nonzero(self.rv(on, st))
            if nm == 'reset':
                loc = self.lv(on, st); v = self.rv(an[0], st) if an else NULL; self.write(loc, v, st, line, e); return mk('void')
            if nm == 'use_count' or nm == 'unique': return mk('app', nm, self.rv(on, st))
            if nm == 'swap':
                l1 = self.lv(on, st); l2 = self.lv(an[0], st); a, b = self.read(l1, st), self.read(l2, st); self.write(l1, b, st, line, e); self.write(l2, a, st, line, e); return mk('void')
            if nm in ('operator*', 'operator->'): return self.rv(on, st)
        if nm in ('static_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast'): return self.rv(an[0], st)
        if nm in ('dynamic_pointer_cast',): return mk('dyn', (e[10] if len(e) > 10 else '').split(',')[0] + '*', self.rv(an[0], st))
        if nm in ('make_shared',) :
            st.n += 1
            args = [self.rv(x, st) for x in an]
            return mk('newobj', (e[10] if len(e) > 10 else '?').split(',')[0], line, st.n)
        if q in ('std::swap', 'boost::swap', 'std::iter_swap'):
            l1 = self.lv(an[0], st); l2 = self.lv(an[1], st); a, b = self.read(l1, st), self.read(l2, st)
            self.write(l1, b, st, line, e, 'swap'); self.write(l2, a, st, line, e, 'swap'); return mk('void')
        if on is None or q.startswith('std::') and on is None:
            if nm in ('max', 'min', 'fmax', 'fmin') and len(an) == 2:
                x, y = self.rv(an[0], st), self.rv(an[1], st)
                if x is y: return x
                if x.op == 'c' and y.op == 'c': return const((max if 'max' in nm else min)(x.args[0], y.args[0]))
                x, y = sorted((x, y)); return mk('app', 'max' if 'max' in nm else 'min', x, y)
            if nm in ('abs', 'fabs', 'labs') and len(an) == 1:
                x = self.rv(an[0], st); it = poly_items(x)
                if it and it[0][0] < 0: x = neg(x)
                return mk('app', 'abs', x)
            if nm == 'pow' and len(an) == 2:
                x, y = self.rv(an[0], st), self.rv(an[1], st); n = self.const_int(y)
                if n is not None and 0 < n <= 4:
                    r = x
                    for _ in range(n - 1): r = mul(r, x)
                    return r
                return mk('app', 'pow', x, y)
            if nm in ('omp_get_thread_num', 'omp_get_max_threads', 'omp_get_num_threads') and not an: return mk('app', nm)
            if nm in self.PURE1: return mk('app', nm, *[self.rv(x, st) for x in an])
            if nm in ('isnan', 'isinf'): return mk('app', nm, self.rv(an[0], st))
            if nm in ('move', 'forward') and an: return self.rv(an[0], st)
        # std containers
        if on is not None and self.is_container(oty):
            r = self.container(e, st)
            if r is not None: return r
        f = self.db.fns.get(key)
        if f is not None and self.may_inline(f, st, virt):
            return self.call_fn(f, key, q, on, an, e, st, want)
        return self.call_opaque(key, q, on, an, e, st)
    def is_container(self, ty):
        ty = ty.replace('const ', '')
        return ty.startswith(('std::vector<', 'std::map<', 'std::unordered_map<', 'std::list<', 'std::__cxx11::list<', 'std::set<', 'std::deque<', 'boost::unordered', 'std::array<', 'std::multimap<', 'std::queue<', 'boost::multi_index', 'std::_Rb_tree'))
    def container(self, e, st):
        _, line, key, q, on, an = e[:6]
        nm = q.split('::')[-1]
        arrow = e[8]
        b = self.rv(on, st) if arrow else self.addr(self.lv(on, st))
        g = const(self.gen(b, st))
        szl = mk('L.size', b)
        def size(): return st.env.get(szl) or mk('app', 'size', b, g)
        if nm == 'size': return size()
        if nm == 'empty': return bnot(nonzero(size()))
        if nm in ('begin', 'cbegin'): return mk('it', b, ZERO)
        if nm in ('end', 'cend'): return mk('it', b, size())
        if nm in ('rbegin', 'crbegin', 'rend', 'crend'): return mk('app', nm, b, g)
        if nm in ('find', 'count', 'lower_bound', 'upper_bound'):
            k = self.rv(an[0], st)
            if nm == 'find': return mk('it', b, mk('pos', b, k, g))
            return mk('app', nm, b, k, g)
        if nm in ('at', 'front', 'back', 'operator[]'): return self.read(self.l_call(e, st), st, e[6])
        seqc = (e[9] if len(e) > 9 else '').replace('const ', '').startswith(('std::vector<', 'std::deque<'))
        if nm in MUTATORS:
            args = [self.rv(x, st) for x in an]
            r = self.event_call(st, 'std::' + nm, b, args, e)
            if seqc and nm in ('push_back', 'emplace_back') and len(args) <= 1:
                n0 = size()
                st.env[szl] = add(n0, ONE)
                if args: st.env[mk('L.e', b, n0)] = args[0]
                return r
            if seqc and nm == 'pop_back': st.env[szl] = sub(size(), ONE); return r
            if seqc and nm == 'resize' and args: st.env[szl] = args[0]; return r
            if nm in ('reserve', 'shrink_to_fit'): return r
            st.gens[b] = st.gens.get(b, 0) + 1
            if nm == 'clear': st.env[szl] = ZERO
            else: st.env.pop(szl, None)
            for kk in [k for k in st.env if k.op == 'L.e' and k.args[0] is b]: del st.env[kk]
            return r
        return None
    def may_inline(self, f, st, virt):
        q = f['q']
        if q in self.opaque or f['key'] in self.opaque: return False
        if f['key'] in st.stack or len(st.stack) >= self.maxdepth: return False
        if q in self.force: return True
        if self.inline_pred is not None and not self.inline_pred(f, st): return False
        if virt and self.db.over.get(f['key']): return False
        if self.db.size(f) > self.maxsize: return False
        return True
    def call_fn(self, f, key, q, on, an, e, st, want='rv', argvals=None):
        """expand a repository function in place"""
        self.stats['inlined'] += 1
        args = []
        params = f['params']
        this = None
        if f.get('cls') and not f.get('static'):
            if e[0] == 'op':
                o = an[0]; an = an[1:]
                this = self.addr(self.lv(o, st))
            elif isinstance(on, Term): this = on
            elif on is not None:
                arrow = e[8] if e[0] == 'call' else 1
                this = self.rv(on, st) if arrow or on[0] == 'this' else self.addr(self.lv(on, st))
            else: this = st.this
            this = self.strip(this)
        bind = []
        for i, p in enumerate(params):
            if argvals is not None:
                a = argvals[i] if i < len(argvals) else (self.rv(p[5], st) if p[5] else mk('void'))
                bind.append((p, 'v' if not p[3] else 'r', a if not p[3] else mk('L.tmp', a)))
                continue
            x = an[i] if an is not None and i < len(an) else p[5]
            if x is None: bind.append((p, 'v', mk('void'))); continue
            if p[3]: bind.append((p, 'r', self.lv(x, st)))
            else: bind.append((p, 'v', self.rv(x, st)))
        oldframe, oldthis, oldfile, oldstack, oldfn = st.frame, st.this, st.file, st.stack, st.fn
        st.n += 1
        fr = st.frame + 1
        while any(k[0] == fr for k in st.refs): fr += 1
        st.frame = fr; st.this = this if this is not None else st.this; st.file = f['file']; st.stack = oldstack + (f['key'],); st.fn = f['q']
        for p, kind, v in bind:
            if kind == 'r': st.refs[(fr, p[1])] = v
            else:
                loc = mk('L.var', p[0], fr, p[1]); st.refs[(fr, p[1])] = loc; st.env[loc] = self.conv(v, p[2])
        if not hasattr(self, '_retref'): self._retref = {}
        isref = f['ret'].rstrip().endswith('&')
        saved = self._retref.get(fr); self._retref[fr] = isref
        lc = st.lcount
        ret = None
        try:
            for iq, ie in f.get('inits') or []:
                if iq.startswith('base:') or iq == '?': continue
                self.write(self.field(st.this, iq), self.rv(ie, st) if ie else ZERO, st, f['line'])
            self.stmt(f['body'], st)
        except Ret as r:
            ret = r.v
        finally:
            st.frame, st.this, st.file, st.stack, st.fn = oldframe, oldthis, oldfile, oldstack, oldfn
            self._retref[fr] = saved
        if f.get('ctor'): return mk('void')
        if ret is None: return None
        if isref:
            return ret if want == 'lv' else self.read(ret, st, f['ret'].replace('const ', '').rstrip(' &'))
        if f['ret'] == 'bool': ret = nonzero(ret)
        return ret
    def call_opaque(self, key, q, on, an, e, st):
        obj = None
        if on is not None:
            arrow = e[8] if e[0] == 'call' else 0
            obj = self.rv(on, st) if (arrow or on[0] == 'this') else self.addr(self.lv(on, st))
            obj = self.strip(obj)
        # by-reference arguments are outputs unless const
        ptys = self.param_types(key)
        args = []; outs = []
        for i, x in enumerate(an):
            t = ptys[i] if i < len(ptys) else ''
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                loc = self.lv(x, st); args.append(self.read(loc, st)); outs.append((i, loc))
            else: args.append(self.rv(x, st))
        self.stats['opaque'][q] = self.stats['opaque'].get(q, 0) + 1
        r = self.event_call(st, q, obj, args, e)
        k = type_kind(e[6]) if len(e) > 6 and isinstance(e[6], str) else None
        if k and r.kind == 's': r.kind = k
        for i, loc in outs:
            if loc.op == 'L.tmp': continue
            old = st.env.get(loc)
            st.n += 1
            self.write(loc, mk('out', r, i, st.n, kind=old.kind if old is not None else None), st, e[1], e, 'out')
        for fq in self.clobbers.get(q, ()):     # fields an opaque callee is known to change
            st.gens[('field', fq)] = st.gens.get(('field', fq), 0) + 1
            for k in [k for k in st.env if k.op == 'L.f' and k.args[1] == fq]: del st.env[k]
        if q.endswith('throw_error_already_set'): raise Thr(mk('str', 'python error'))
        if q in ('exit', 'abort', 'std::terminate', 'std::exit', 'std::abort', 'raise'): pass
        if q in ('exit', 'std::exit', 'abort', 'std::abort', 'std::terminate'): raise Thr(mk('str', 'exit'))
        return r
    def param_types(self, key):
        i = key.find('(')
        if i < 0: return []
        s = key[i + 1:key.rfind(')')]
        out = []; d = 0; cur = ''
        for ch in s:
            if ch in '<([': d += 1
            if ch in '>)]': d -= 1
            if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out

# ---------- helpers for rules
def flat(path, loops=()):
    """(event, enclosing loop-body paths) over a path, entering loops"""
    for ev in path.events:
        if ev.kind in ('loop', 'inloop'):
            yield ev, loops
            for p in ev.paths:
                yield from flat(p, loops + ((ev, p),))
        else: yield ev, loops
def must_events(path):
    """events certain to happen on this path (loop bodies excluded)"""
    return [e for e in path.events if e.kind not in ('loop',)]
