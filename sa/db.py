"""Extraction of the program database from /repo's current working tree (clang front end, no execution)."""
import os, sys, json, hashlib, subprocess, glob, re, time, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
EXTRACT = os.path.join(CACHE, 'extract')
RES = '/usr/lib/llvm-18/lib/clang/18'

class AnalysisBroken(Exception):
    """the analysis cannot give an answer (error exit, neither pass nor violation)"""

BASEFLAGS = '''-w -std=gnu++14 -fopenmp -fPIC -DupdateGL=update -DSUITESPARSE_VERSION_4 -include /opt/vp/py3compat/py2names.h
-DYADE_VTK -DYADE_OPENMP -DQGLVIEWER_FOUND -DYADE_OPENGL -DYADE_QT5 -DYADE_CGAL -DFLOW_ENGINE -DLINSOLV -DTWOPHASEFLOW -DYADE_GL2PS -DLBM_ENGINE -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_ALIGN -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT -DCGAL_DISABLE_ROUNDING_MATH_CHECK -frounding-math
-DBOOST_MATH_DISABLE_FLOAT128=1 -DNDEBUG -DQT_NO_DEBUG -DQT_NO_FOREACH -DYADE_ODEINT -DYADE_VTK6 -DYADE_VTK8 -Dkiss_fft_scalar=double -ferror-limit=0'''.split()
INCS = '''/usr/lib/x86_64-linux-gnu/openmpi/include /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi /usr/lib/python3/dist-packages/numpy/core/include /usr/include/python3.12 /usr/include/eigen3 /usr/include/suitesparse'''.split()
SYS = '''/usr/include/vtk-9.1 /usr/include/x86_64-linux-gnu/qt5 /usr/include/x86_64-linux-gnu/qt5/QtWidgets /usr/include/x86_64-linux-gnu/qt5/QtGui /usr/include/x86_64-linux-gnu/qt5/QtCore /usr/include/x86_64-linux-gnu/qt5/QtXml /usr/include/x86_64-linux-gnu/qt5/QtOpenGL'''.split()

# the build's own list of translation-unit directories; files the build does not compile are listed with the reason
SRC_GLOBS = ['core/*.cpp', 'lib/base/*.cpp', 'lib/factory/*.cpp', 'lib/multimethods/*.cpp', 'lib/opengl/*.cpp', 'lib/serialization/*.cpp', 'lib/smoothing/*.cpp', 'lib/triangulation/*.cpp', 'lib/import/*.cpp', 'lib/pyutil/*.cpp', 'lib/high-precision/*.cpp',
             'pkg/*/*.cpp', 'pkg/*/*/*.cpp', 'py/*.cpp', 'py/*/*.cpp', 'gui/*.cpp', 'gui/*/*.cpp']
EXCLUDE = [r'^lib/voro', r'^lib/import/']

def sources():
    out = []
    for g in SRC_GLOBS:
        out += [os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, g))]
    out = sorted(set(p for p in out if not any(re.match(x, p) for x in EXCLUDE)))
    return out

def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = EXTRACT + '.sha'
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(CACHE, exist_ok=True)
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), EXTRACT], capture_output=True, text=True)
    if r.returncode: raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    open(stamp, 'w').write(h)

def file_bytes(p):
    try: return open(p, 'rb').read()
    except OSError: return b''

def tree_hash():
    h = hashlib.sha256()
    for top in ('core', 'lib', 'pkg', 'py', 'gui'):
        for dp, dn, fs in sorted(os.walk(os.path.join(REPO, top))):
            dn.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h', '.ipp', '.in', '.hh', '.tpp', '.cc')):
                    p = os.path.join(dp, f); h.update(p.encode()); h.update(file_bytes(p))
    h.update(file_bytes(os.path.join(REPO, 'CMakeLists.txt')))
    h.update(file_bytes(os.path.join(VERIF, 'tool', 'extract.cpp')))
    h.update(file_bytes(__file__))
    return h.hexdigest()

def gen_sources(d):
    """same as CMakeLists.txt: CONFIGURE_FILE(FlowEngine.{hpp,ipp}.in -> FlowEngine_<TF>.{hpp,ipp}, @ONLY)"""
    os.makedirs(d, exist_ok=True)
    names = set(re.findall(r'FlowEngine_(\w+)\.[hi]pp', ' '.join(open(p, errors='replace').read() for p in glob.glob(os.path.join(REPO, 'pkg/pfv/*')) if os.path.isfile(p))))
    for n in names:
        for ext in ('hpp', 'ipp'):
            src = os.path.join(REPO, 'pkg/pfv/FlowEngine.%s.in' % ext)
            if not os.path.exists(src): continue
            t = open(src, errors='replace').read()
            for var in ('TEMPLATE_FLOW_NAME', 'TF', 'TEMPLATE_NAME'):
                t = t.replace('@%s@' % var, n)
            o = os.path.join(d, 'FlowEngine_%s.%s' % (n, ext))
            if not os.path.exists(o) or open(o).read() != t: open(o, 'w').write(t)

def flags(gen):
    f = list(BASEFLAGS) + ['-I' + os.path.join(VERIF, 'tool', 'shim'), '-I' + REPO]
    f += ['-I' + x for x in INCS] + ['-I' + gen, '-I' + os.path.join(REPO, 'pkg/pfv')]
    for x in SYS: f += ['-isystem', x]
    f += ['-I/usr/include/QGLViewer', '-resource-dir', RES]
    return f

PCH = os.path.join(CACHE, 'pre.pch')
def ensure_pch(gen):
    """system headers only (boost, Eigen, Python, libstdc++): nothing of /repo is in it"""
    src = os.path.join(VERIF, 'tool', 'pre.hpp')
    fl = [x for x in flags(gen) if x != '-I' + gen]
    h = hashlib.sha256(file_bytes(src) + ' '.join(fl).encode()).hexdigest()
    stamp = PCH + '.sha'
    if os.path.exists(PCH) and os.path.exists(stamp) and open(stamp).read() == h: return True
    r = subprocess.run(['/usr/lib/llvm-18/bin/clang++', '-x', 'c++-header', src, '-o', PCH + '.%d' % os.getpid()] + fl, capture_output=True, text=True)
    if r.returncode: return False
    os.replace(PCH + '.%d' % os.getpid(), PCH); open(stamp, 'w').write(h)
    return True

def _weight(f):
    p = os.path.join(REPO, f)
    try: n = os.path.getsize(p)
    except OSError: n = 0
    w = 6 + n / 12000.
    if f.startswith('pkg/pfv') or 'riangulation' in f or 'Tesselation' in f: w += 12
    return w

def group(files, ngroups):
    # python modules define one BOOST_PYTHON_MODULE each: parse them alone
    alone = [f for f in files if f.startswith(('py/', 'gui/'))]
    rest = [f for f in files if f not in alone]
    gs = [[f] for f in alone]
    n = max(1, min(ngroups, len(rest)))
    bins = [[0., []] for _ in range(n)]
    hdr = 9.
    for f in sorted(rest, key=_weight, reverse=True):
        b = min(bins, key=lambda x: x[0]); b[1].append(f); b[0] += _weight(f) - 5
    for b in bins:
        if b[1]: gs.append(sorted(b[1]))
    return gs

def extract(files, ngroups=8):
    """parse the given sources (unity groups) and return the list of record files"""
    ensure_tool()
    th = tree_hash()
    key = hashlib.sha256((th + '|' + '|'.join(sorted(files)) + '|%d' % ngroups).encode()).hexdigest()[:20]
    d = os.path.join(CACHE, 'x', key)
    if os.path.exists(os.path.join(d, 'ok')):
        return sorted(glob.glob(os.path.join(d, '*.jsonl')))
    final = d; d = d + '.%d' % os.getpid(); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    gen = os.path.join(d, 'gen'); gen_sources(gen)
    fl = flags(gen)
    if ensure_pch(gen):
        i = fl.index('-include'); fl = ['-include-pch', PCH] + fl[:i] + fl[i + 2:]
    jobs = []
    for i, g in enumerate(group(files, ngroups)):
        u = os.path.join(d, 'u%02d.cpp' % i)
        with open(u, 'w') as fh:
            for f in g: fh.write('#include "%s"\n' % os.path.join(REPO, f))
        jobs.append((u, os.path.join(d, 'u%02d.jsonl' % i), g))
    def one(j):
        r = subprocess.run([EXTRACT, REPO, gen, j[1], j[0], '--'] + fl, capture_output=True, text=True, timeout=800)
        return j, r.returncode, r.stderr[-500:]
    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        for j, rc, err in ex.map(one, sorted(jobs, key=lambda j: -sum(_weight(f) for f in j[2]))):
            if rc or not os.path.exists(j[1]) or '"t":"end"' not in open(j[1], 'rb').read()[-200:].decode('latin1'):
                raise AnalysisBroken('front end failed on %s: %s' % (j[2], err))
    open(os.path.join(d, 'ok'), 'w').write('')
    shutil.rmtree(final, ignore_errors=True)
    try: os.rename(d, final); d = final
    except OSError: pass        # another run was faster
    # keep the cache small
    xs = sorted(glob.glob(os.path.join(CACHE, 'x', '*')), key=os.path.getmtime)
    for x in xs[:-12]: shutil.rmtree(x, ignore_errors=True)
    return sorted(glob.glob(os.path.join(d, '*.jsonl')))

# parse errors that exist on today's tree with clang but not with g++ (the build's compiler); reason each
KNOWN_ERRS = [('lib/triangulation/Tesselation.ipp', "cannot initialize a variable of type 'const int *'")]

class DB:
    def __init__(self, files, ngroups=8, want=None):
        t0 = time.time()
        self.files = list(files)
        self.fns = {}        # key -> fn record
        self.byq = {}        # qualified name -> [fn]
        self.cls = {}
        self.macros = []
        self.errors = []
        seen = set(); ms = set()
        for p in extract(files, ngroups):
            for line in open(p, encoding='utf-8'):
                if len(line) < 3: continue
                if line.startswith('{"t":"fn"'):
                    hd = line[:400]
                    r = json.loads(line)
                    k = (r['key'], r['file'], r['line'])
                    if k in seen: continue
                    seen.add(k)
                    if r['dep']:
                        self.byq.setdefault('dep:' + r['q'], []).append(r)
                        continue
                    self.byq.setdefault(r['q'], []).append(r)
                    if r['key'] not in self.fns: self.fns[r['key']] = r
                    else: self.fns[r['key'] + '@%s:%d' % (r['file'], r['line'])] = r
                elif line.startswith('{"t":"cls"'):
                    r = json.loads(line)
                    if r['dep'] and r['q'] in self.cls: continue
                    o = self.cls.get(r['q'])
                    if o is None or o['dep'] or o['inst']: self.cls[r['q']] = r
                elif line.startswith('{"t":"macro"'):
                    r = json.loads(line); k = (r['name'], r['file'], r['line'], r['text'])
                    if k in ms: continue
                    ms.add(k); self.macros.append(r)
                elif line.startswith('{"t":"err"'):
                    r = json.loads(line)
                    f = os.path.relpath(r['file'], REPO) if r['file'].startswith(REPO) else r['file']
                    if any(f == a and b in r['msg'] for a, b in KNOWN_ERRS): continue
                    self.errors.append((f, r['line'], r['msg']))
        self.derived = {}
        for q, c in self.cls.items():
            for b in c['bases']:
                self.derived.setdefault(b, []).append(q)
        self.over = {}
        for q, c in self.cls.items():
            for name, key, virt, pure, ovs, acc in c['methods']:
                for o in ovs: self.over.setdefault(o, []).append(key)
        self.load_s = time.time() - t0
        self._size = {}

    def require_clean(self):
        # gcc accepts `for(p : c)` with p declared before; clang reports it and recovers
        self.errors = [e for e in self.errors if 'range-based for loop requires type' not in e[2]]
        if self.errors:
            raise AnalysisBroken('front end errors: ' + '; '.join('%s:%d %s' % e for e in self.errors[:5]))

    def subclasses(self, q):
        out = set(); st = [q]
        while st:
            x = st.pop()
            for y in self.derived.get(x, []):
                if y not in out: out.add(y); st.append(y)
        return out
    def bases(self, q):
        out = []; st = [q]
        while st:
            x = st.pop()
            c = self.cls.get(x)
            if not c: continue
            for b in c['bases']:
                if b not in out: out.append(b); st.append(b)
        return out
    def fn(self, q, nparams=None):
        l = self.byq.get(q, [])
        if nparams is not None: l = [f for f in l if len(f['params']) == nparams]
        return l
    def one(self, q, nparams=None):
        l = self.fn(q, nparams)
        if len(l) != 1: raise AnalysisBroken('expected one definition of %s, found %d' % (q, len(l)))
        return l[0]
    def methods_of(self, cls):
        return [f for l in self.byq.values() for f in l if f.get('cls') == cls and not f['dep']]
    def size(self, f):
        k = id(f)
        if k not in self._size:
            n = 0; st = [f['body']]
            while st:
                x = st.pop()
                if isinstance(x, list):
                    n += 1; st.extend(y for y in x if isinstance(y, list))
            self._size[k] = n
        return self._size[k]

def walk(n):
    """all AST nodes below n"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int): yield x
            st.extend(reversed([y for y in x if isinstance(y, list)]))

def grep_files(pattern, files=None):
    """textual prefilter: only files whose text (or an included repo header of the same stem) mentions the pattern need parsing"""
    rx = re.compile(pattern)
    out = []
    for f in (files or sources()):
        if rx.search(open(os.path.join(REPO, f), errors='replace').read()): out.append(f)
    return out
