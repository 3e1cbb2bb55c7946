"""Fact base: runs the mkfacts extractor (clang AST) over every library translation
unit of the current /repo working tree and links the result into one Program.

The cache (build/facts) is keyed by the content of every source and header of the
tree, the extractor source and the flags: a changed tree is always re-extracted."""
import hashlib, json, os, subprocess, sys, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MK_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL_SRC = os.path.join(VERIF, 'tool', 'mkfacts.cpp')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """the analysis cannot give an answer (exit 2), neither pass nor violation"""


def sh(data):
    return hashlib.sha256(data).hexdigest()


def tool_path():
    return os.path.join(BUILD, 'mkfacts-' + sh(open(TOOL_SRC, 'rb').read())[:16])


def build_tool():
    exe = tool_path()
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', TOOL_SRC, '-o', tmp,
           '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build mkfacts:\n' + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def flags(repo):
    return ['-std=c++20', '-fopenmp', '-w', '-DNDEBUG', '-fvisibility=hidden',
            '-I' + repo + '/libs/MeshKernel/include', '-I' + repo + '/libs/MeshKernelApi/include',
            '-I' + VERIF + '/tool/stubs', '-I' + repo + '/tools', '-I' + repo + '/extern/triangle/src',
            '-include', 'bits/stdc++.h', '-isystem', '/usr/include/eigen3', '-DCMAKE_SRC_DIR=' + repo, '-DHAVE_SRC_LOC_IN_ERR_MSGS=0', '-DUSE_LIBFMT=0']


def sources(repo):
    """library translation units, from the tree (not from a possibly stale build)"""
    out = []
    for base in ('libs/MeshKernel/src', 'libs/MeshKernelApi/src'):
        for d, _, fs in os.walk(os.path.join(repo, base)):
            for f in fs:
                if f.endswith('.cpp'):
                    out.append(os.path.join(d, f))
    return sorted(out)


def headers(repo):
    out = []
    for base in ('libs/MeshKernel', 'libs/MeshKernelApi', 'extern/triangle'):
        for d, ds, fs in os.walk(os.path.join(repo, base)):
            if 'tests' in d.split(os.sep):
                continue
            for f in fs:
                if f.endswith(('.hpp', '.h', '.inl', '.ipp')):
                    out.append(os.path.join(d, f))
    return sorted(out)


def extract(repo=REPO, verbose=False):
    exe = build_tool()
    fl = flags(repo)
    hh = hashlib.sha256()
    for h in headers(repo):
        hh.update(os.path.relpath(h, repo).encode() + b'\0')
        hh.update(open(h, 'rb').read())
        hh.update(b'\0')
    hh.update(' '.join(fl).encode())
    hh.update(open(TOOL_SRC, 'rb').read())
    for d, _, fs in os.walk(os.path.join(VERIF, 'tool', 'stubs')):
        for f in sorted(fs):
            hh.update(open(os.path.join(d, f), 'rb').read())
    hkey = hh.hexdigest()
    fdir = os.path.join(BUILD, 'facts')
    os.makedirs(fdir, exist_ok=True)
    jobs = []
    outs = []
    for s in sources(repo):
        key = sh((hkey + os.path.relpath(s, repo)).encode() + open(s, 'rb').read())[:32]
        o = os.path.join(fdir, key + '.jsonl')
        outs.append((os.path.relpath(s, repo), o))
        if not os.path.exists(o) or os.environ.get('MK_FRESH'):
            jobs.append((s, o))

    def run(j):
        s, o = j
        tmp = o + '.tmp%d' % os.getpid()
        r = subprocess.run([exe, repo, tmp, s, '--'] + fl, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            return s, r.stderr[-2000:]
        os.replace(tmp, o)
        return s, None

    errs = []
    with cf.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        for s, e in ex.map(run, jobs):
            if e:
                errs.append('%s: %s' % (s, e))
    if errs:
        raise AnalysisBroken('translation units do not parse:\n' + '\n'.join(errs[:3]))
    keep = {o for _, o in outs}
    # bound the cache
    allf = []
    for f in os.listdir(fdir):
        p = os.path.join(fdir, f)
        try:
            if f.endswith('.jsonl'):
                allf.append((os.path.getmtime(p), p))
        except OSError:
            pass
    allf.sort()
    extra = [p for _, p in allf if p not in keep]
    for p in extra[:max(0, len(extra) - int(os.environ.get('MK_CACHE_KEEP', '400')))]:
        try:
            os.remove(p)
        except OSError:
            pass
    return outs


# ------------------------------------------------------------------ program model
class Type:
    __slots__ = ('s', 'ref', 'ptr', 'const', 'rec', 'targs', 'enum', 'b', 'arr', 'arrn', 'to', 'dep')

    def __repr__(self):
        return 'Type(%s)' % self.s


class FDecl:
    def __init__(self):
        self.defn = None
        self.overriders = []

    def __repr__(self):
        return 'F(%s)' % self.q


class Func:
    __slots__ = ('d', 'file', 'line', 'params', 'inits', 'body', 'tu', 'cache')

    def __repr__(self):
        return 'Func(%s)' % self.d.q

    @property
    def where(self):
        return '%s:%d' % (self.file, self.line)


class Record:
    pass


class Program:
    def __init__(self):
        self.types = {}      # spelling -> Type
        self.fdecls = {}     # usr -> FDecl
        self.funcs = []      # Func with bodies
        self.records = {}    # qualified name (incl. template args spelling for instantiations) -> Record
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.nnodes = 0

    # convenience
    def by_name(self, q):
        return [f for f in self.funcs if f.d.q == q]

    def rec(self, q):
        return self.records.get(q)

    def bases_of(self, q, seen=None):
        """qualified names of all (transitive) bases, q included"""
        seen = seen if seen is not None else []
        if q in seen:
            return seen
        seen.append(q)
        r = self.recs_by_q.get(q)
        if r:
            for b in r.bases:
                if b.rec:
                    self.bases_of(b.rec, seen)
        return seen

    def derives(self, q, base):
        return base in self.bases_of(q)


def load(repo=REPO):
    outs = extract(repo)
    P = Program()
    P.recs_by_q = {}
    nid = 0
    for tu, (src, path) in enumerate(outs):
        P.tus.append(src)
        recs = []
        tables = None
        with open(path) as fh:
            for ln in fh:
                d = json.loads(ln)
                if d['k'] == 'tables':
                    tables = d
                else:
                    recs.append(d)
        if tables is None:
            raise AnalysisBroken('truncated facts for ' + src)
        # types
        T = []
        for t in tables['types']:
            s = t['s']
            ty = P.types.get(s)
            if ty is None:
                ty = Type()
                ty.s = s
                P.types[s] = ty
                ty.ref = t.get('ref', 0)
                ty.ptr = t.get('ptr', 0)
                ty.const = bool(t.get('const'))
                ty.rec = t.get('rec')
                ty.enum = t.get('enum')
                ty.b = t.get('b')
                ty.arr = t.get('arr', 0)
                ty.arrn = t.get('arrn')
                ty.dep = t.get('dep', 0)
                ty.to = None
                ty.targs = None
            T.append(ty)
        for ty, t in zip(T, tables['types']):
            if ty.to is None:
                ty.to = T[t['to']] if t['to'] >= 0 else ty
            if ty.targs is None and 'targs' in t:
                ty.targs = [T[a] if isinstance(a, int) else a for a in t['targs']]
        # functions
        F = []
        fresh = []
        for f in tables['funcs']:
            u = f['u']
            fd = P.fdecls.get(u)
            if fd is None:
                fd = FDecl()
                P.fdecls[u] = fd
                fd.u = u
                fresh.append((fd, f))
            F.append(fd)
        for fd, f in fresh:
            fd.q = f['q']
            fd.n = f['n']
            fd.sys = bool(f.get('sys'))
            fd.ret = T[f['ret']]
            fd.p = [T[x] for x in f['p']]
            fd.nx = f.get('nx', 0)
            fd.c = bool(f.get('c'))
            fd.static = bool(f.get('static'))
            fd.nodiscard = bool(f.get('nodiscard'))
            fd.noreturn = bool(f.get('noreturn'))
            fd.dflt = bool(f.get('dflt'))
            fd.op = f.get('op')
            fd.cls = f.get('cls')
            fd.clst = T[f['clst']] if 'clst' in f else None
            fd.const = bool(f.get('const'))
            fd.virt = bool(f.get('virt'))
            fd.pure = bool(f.get('pure'))
            fd.acc = f.get('acc')
            fd.ov = [F[x] for x in f.get('ov', [])]
            fd.ctor = f.get('ctor')
            fd.dtor = bool(f.get('dtor'))
            fd.conv = bool(f.get('conv'))
            fd.asg = f.get('asg')
            fd.variadic = bool(f.get('variadic'))
            fd.tt = T
            for b in fd.ov:
                b.overriders.append(fd)
        pre = '%d:' % tu

        def fix(x):
            nonlocal nid
            if isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        fix(y)
                return
            k = x.get('k')
            if k is not None:
                nid += 1
                x['id'] = nid
            if 't' in x and isinstance(x['t'], int):
                x['t'] = T[x['t']] if x['t'] >= 0 else None
            if k in ('call', 'ctor', 'fref', 'mfref') and isinstance(x.get('f'), int):
                x['f'] = F[x['f']]
            for key in ('tt', 'ct', 'at', 'base'):
                if key in x and isinstance(x[key], int):
                    x[key] = T[x[key]]
            if 'd' in x and isinstance(x['d'], str) and x['d'][0] == 'v':
                x['d'] = pre + x['d']
            if k == 'omp':
                for c in x['cl']:
                    c['v'] = [pre + v if v[0] == 'v' else v for v in c['v']]
            for key, y in x.items():
                if isinstance(y, (dict, list)):
                    fix(y)

        for d in recs:
            if d['k'] == 'func':
                fd = F[d['f']]
                if fd.defn is not None:
                    continue
                fix(d['params'])
                fix(d['body'])
                if 'inits' in d:
                    fix(d['inits'])
                fn = Func()
                fn.d = fd
                fn.file = d['file']
                fn.line = d['l']
                fn.params = d['params']
                fn.inits = d.get('inits')
                fn.body = d['body']
                fn.tu = src
                fn.cache = {}
                fd.defn = fn
                P.funcs.append(fn)
            elif d['k'] == 'rec':
                ty = T[d['t']]
                if ty.s in P.records:
                    continue
                r = Record()
                r.q = d['q']
                r.t = ty
                r.file = d['file']
                r.line = d['l']
                r.bases = [T[b] for b in d['bases']]
                r.fields = []
                for f in d['fields']:
                    f['t'] = T[f['t']]
                    if 'init' in f:
                        fix(f['init'])
                    r.fields.append(f)
                r.methods = [F[m] for m in d['methods']]
                P.records[ty.s] = r
                P.recs_by_q.setdefault(r.q, r)
            elif d['k'] == 'enumdef':
                P.enums[d['q']] = d['v']
            elif d['k'] == 'global':
                if d['q'] not in P.globals:
                    d['t'] = T[d['t']]
                    if 'init' in d:
                        fix(d['init'])
                    P.globals[d['q']] = d
    P.nnodes = nid
    if len(P.tus) < 60 or len(P.funcs) < 1000:
        raise AnalysisBroken('only %d translation units / %d functions parsed' % (len(P.tus), len(P.funcs)))
    return P


# ------------------------------------------------------------------ generic walkers
def walk(x, into_lambda=True):
    """all dict nodes below x (pre-order)"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            if 'k' in y or True:
                yield y
            if not into_lambda and y.get('k') == 'lambda':
                stack.extend(c for c in y['caps'] if isinstance(c, dict))
                continue
            for v in reversed(list(y.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(y, list):
            for v in reversed(y):
                if isinstance(v, (dict, list)):
                    stack.append(v)


def func_nodes(fn, into_lambda=True):
    if fn.inits:
        yield from walk(fn.inits, into_lambda)
    yield from walk(fn.body, into_lambda)


if __name__ == '__main__':
    import time
    t = time.time()
    outs = extract()
    print('extract', len(outs), time.time() - t)
    t = time.time()
    P = load()
    print('load', time.time() - t, len(P.funcs), 'funcs', P.nnodes, 'nodes', len(P.records), 'records')
