"""Everything is computed in the projection of the mesh, grid or state it belongs to."""
import os
from ..facts import walk

MIN = {'arguments': 100, 'constructors': 5, 'projection_changes': 1}
ENUM = 'meshkernel::Projection'
# fixed projections that are meant: (file, called function) -> how many (planar formulas under a test of the projection, or of planar curves)
FIXED = {('Splines.hpp', 'ComputeDistance'): 1, ('CurvilinearGridOrthogonalization.cpp', 'ComputeDistance'): 4,
         ('Polygon.cpp', 'crossProduct'): 1, ('Operations.cpp', 'crossProduct'): 1}
CONVERSIONS = {'SourceProjection', 'TargetProjection', 'TransformationProjection'}
NAMES = {'ProjectionToString'}
EMPTY = {'meshkernel::Polygons'}            # made without points it means "everywhere" and has no coordinates
TREES = 'meshkernel::RTreeBase'


def isproj(t):
    if t is None or t.rec or t.ptr:
        return False
    return t.s.replace('const ', '').replace('&', '').strip() == ENUM


def strip(e):
    while isinstance(e, dict) and e.get('k') == 'cast':
        if e['e'].get('t') is not None and not isproj(e['e']['t']) and isproj(e.get('t')):
            return e
        e = e['e']
    return e


def roots(f):
    return [r for r in [f.body] + [i.get('e') for i in (f.inits or [])] if r]


def ptype(p):
    return p['t'] if isinstance(p, dict) else p


class Prov:
    def __init__(self, P):
        self.P = P
        self.rets = {}
        self.defs = {}

    def local(self, f):
        d = self.defs.get(f)
        if d is None:
            d = self.defs[f] = {}
            for r in roots(f):
                for n in walk(r):
                    if n.get('k') == 'decl':
                        for v in n['v']:
                            if v.get('init') is not None and 'd' in v:
                                d.setdefault(v['d'], []).append(v['init'])
                    elif n.get('k') == 'asg' and n.get('op') == '=' and strip(n['x']).get('k') == 'ref':
                        d.setdefault(strip(n['x'])['d'], []).append(n['y'])
        return d

    def of(self, e, f, seen=()):
        e = strip(e)
        k = e.get('k')
        if k == 'enum':
            return {('const', e['n'])}
        if k == 'mem':
            return {('field', e.get('f'))}
        if k == 'ref':
            ds = self.local(f).get(e['d'])
            if e.get('par') is not None and not ds:
                return {('param',)}
            if e['d'] in seen or not ds:
                return {('other',)}
            out = set()
            for x in ds:
                out |= self.of(x, f, seen + (e['d'],))
            return out
        if k == 'cond':
            out = set()
            for key in ('x', 'y', 'then', 'else', 'a', 'b'):
                if isinstance(e.get(key), dict):
                    out |= self.of(e[key], f, seen)
            return out
        if k in ('init', 'initlist'):
            a = e.get('a') or e.get('e')
            a = a if isinstance(a, list) else [a]
            return self.of(a[0], f, seen) if len(a) == 1 and isinstance(a[0], dict) else {('other',)}
        if k == 'cast':
            return {('number',)}
        if k == 'call' and e.get('f') is not None:
            fd = e['f']
            if fd.sys:
                a = e.get('a') or []
                return self.of(a[0], f, seen) if a and fd.n in ('move', 'exchange', 'forward', 'as_const') else {('other',)}
            if fd.n in CONVERSIONS:
                return {('conversion', fd.n)}
            return self.ret(fd)
        return {('other',)}

    def ret(self, fd):
        g = fd.defn
        if g is None:
            return {('other',)}
        if g not in self.rets:
            self.rets[g] = set()
            out = set()
            for n in walk(g.body) if g.body else ():
                if n.get('k') == 'ret' and n.get('e') is not None:
                    out |= self.of(n['e'], g)
            if any(not isproj(p['t']) and p['t'].b for p in g.params) and len({t for t in out if t[0] == 'const'}) > 1:
                out = {('number',)}          # translates a number into a projection
            self.rets[g] = out
        return self.rets[g]


def owners(P):
    """classes that have a projection of their own, and the field"""
    own = {}
    for r in P.records.values():
        for x in r.fields:
            if isproj(x['t']):
                own[r.q] = x['q'] if 'q' in x else r.q + '::' + x['n']
    return own


def field_of(P, own, cls):
    for q in [cls] + list(P.bases_of(cls)):
        if q in own:
            return own[q]
    return None


def where(f, n):
    return '%s:%s' % (f.file, n.get('l'))


def arguments(P, pv, rep):
    fixed = {}
    for f in P.funcs:
        base = os.path.basename(f.file)
        for r in roots(f):
            for n in walk(r):
                if n.get('k') not in ('call', 'ctor') or n.get('f') is None:
                    continue
                fd = n['f']
                if fd.op or fd.n in NAMES or fd.n == 'exchange':
                    continue
                args = n.get('a') or []
                for i, a in enumerate(args):
                    if fd.sys:
                        if not isproj(strip(a).get('t')) or fd.n in ('move', 'forward', 'format', 'make_format_args'):
                            continue
                    elif i >= len(fd.p) or not isproj(ptype(fd.p[i])):
                        continue
                    rep.count('arguments')
                    tags = pv.of(a, f)
                    const = [t for t in tags if t[0] == 'const']
                    if const:
                        if fd.ctor and f.d.ctor and not f.params and f.d.cls == fd.cls:
                            rep.ok()                                   # the default constructor
                            continue
                        key = (base, fd.n)
                        fixed[key] = fixed.get(key, 0) + 1
                        if fixed[key] <= FIXED.get(key, 0):
                            rep.ok('%s in %s: planar by design' % (fd.n, f.d.q))
                            continue
                        rep.bad('%s:%s' % (f.d.q, fd.n), where(f, n), '%s calls %s with the fixed projection %s instead of the projection of its mesh, grid or state' % (f.d.q, fd.n, const[0][1]))
                    elif ('number',) in tags and not (fd.ctor and fd.cls.endswith('::MeshKernelState') or fd.n.startswith(('make_', 'emplace', 'insert')) and fd.sys):
                        rep.bad('%s:%s' % (f.d.q, fd.n), where(f, n), '%s calls %s with a projection given by the caller instead of that of the state' % (f.d.q, fd.n))
                    else:
                        rep.ok('%s: %s gets the projection of its object' % (f.d.q, fd.n))


def fields(P, pv, own, rep):
    """what is stored as a projection"""
    names = set(own.values())
    for f in P.funcs:
        for i in f.inits or []:
            if i.get('field') in names and i.get('e') is not None and f.params and i.get('w'):
                tags = pv.of(i['e'], f)
                rep.count('stored')
                check_store(f, i['e'], i['field'], tags, rep)
        for n in walk(f.body) if f.body else ():
            if n.get('k') == 'asg' and n.get('op') == '=' and strip(n['x']).get('k') == 'mem' and strip(n['x']).get('f') in names:
                rep.count('stored')
                check_store(f, n, strip(n['x'])['f'], pv.of(n['y'], f), rep)


def check_store(f, n, q, tags, rep):
    for t in tags:
        if t[0] == 'const' or t[0] == 'number' or t[0] == 'conversion' and t[1] == 'SourceProjection':
            rep.bad('%s:%s' % (f.d.q, q), where(f, n), '%s stores %s in %s' % (f.d.q, {'const': 'a fixed projection', 'number': 'a number of the caller'}.get(t[0], 'the projection converted from'), q))
            return
    rep.ok('%s: %s' % (f.d.q, q))


def constructors(P, pv, own, rep):
    """a constructor that is told the projection keeps it"""
    for f in P.funcs:
        for p in f.params:
            if isproj(p['t']):
                used = any(n.get('k') == 'ref' and n['d'] == p['d'] for r in roots(f) for n in walk(r))
                rep.count('parameters')
                if not used:
                    rep.bad('%s:%s' % (f.d.q, p['n']), '%s:%s' % (f.file, getattr(f, 'line', '')), '%s ignores the projection it is given' % f.d.q)
                else:
                    rep.ok()
        if not f.d.ctor or f.d.cls is None:
            continue
        fld = field_of(P, own, f.d.cls)
        if fld is None or not f.params:
            continue
        src = set()
        for p in f.params:
            t = p['t'].to if (p['t'].ref or p['t'].ptr) and p['t'].to is not None else p['t']
            if isproj(p['t']) or t.rec and (field_of(P, own, t.rec)) or t.rec and t.rec.startswith('std::') and t.targs and any(hasattr(x, 'rec') and x.rec and field_of(P, own, x.rec) for x in t.targs):
                src.add(p['d'])
        if not src:
            continue
        rep.count('constructors')
        if sets(f, fld, src):
            rep.ok('%s keeps the projection it is given' % f.d.q)
        else:
            rep.bad('%s: %s' % (f.d.q, fld), '%s:%s' % (f.file, getattr(f, 'line', '')), 'the constructor of %s does not take over the projection it is given' % f.d.cls)


def mentions(e, src):
    return any(n.get('k') == 'ref' and n['d'] in src for n in walk(e))


def sets(f, fld, src):
    for i in f.inits or []:
        e = i.get('e')
        if e is None:
            continue
        if i.get('field') == fld and mentions(e, src):
            return True
        if not i.get('field') and mentions(e, src):         # base or delegated constructor
            return True
    for n in walk(f.body) if f.body else ():
        if n.get('k') == 'asg' and strip(n['x']).get('k') == 'mem' and strip(n['x']).get('f') == fld:
            return True
        if n.get('k') == 'call' and n.get('f') is not None and n['f'].op == '=' and n['f'].ctor is not True and mentions(n, src) and f.d.cls in (n['f'].cls or ''):
            return True
    return False


def defaults(P, own, rep):
    """no object with coordinates is made without a projection"""
    for f in P.funcs:
        if not f.body:
            continue
        for n in walk(f.body):
            c = None
            if n.get('k') == 'ctor' and n.get('f') is not None and not n.get('a') and not n['f'].sys:
                c = n['f'].cls
            elif n.get('k') == 'call' and n.get('f') is not None and n['f'].n in ('make_unique', 'make_shared') and not n.get('a'):
                t = n.get('t')
                t = t.targs[0] if t is not None and t.targs else None
                c = t.rec if t is not None and hasattr(t, 'rec') else None
            if c is None or c in EMPTY or field_of(P, own, c) is None:
                continue
            rep.count('made_without')
            rep.bad('%s:%s' % (f.d.q, c), where(f, n), '%s makes a %s without a projection' % (f.d.q, c.split('::')[-1]))


def has_trees(P, cls):
    for q in [cls] + list(P.bases_of(cls)):
        r = P.recs_by_q.get(q) or P.records.get(q)
        if r is not None:
            for x in r.fields:
                if TREES in x['t'].s:
                    return x['q'] if 'q' in x else q + '::' + x['n']
    return None


class Follow:
    """does an unconditional statement after a node, in its block or an enclosing one, satisfy a test?"""

    def __init__(self, P, test):
        self.P = P
        self.test = test            # (expression node) -> bool
        self.memo = {}

    def does(self, f):
        """the function, whatever path, satisfies the test"""
        if f in self.memo:
            return self.memo[f]
        self.memo[f] = False
        self.memo[f] = bool(f.body) and self.stmt(f.body)
        return self.memo[f]

    def stmt(self, s):
        if s is None:
            return False
        k = s.get('k')
        if k == 'blk':
            return any(self.stmt(x) for x in s['s'])
        if k == 'if':
            if self.exprs(s.get('c')):
                return True
            return self.stmt(s.get('then')) and self.stmt(s.get('else'))
        if k in ('for', 'while', 'switch', 'rfor'):
            if k == 'rfor' and any(x.get('k') in ('init', 'initlist') for x in walk(s['r'])):
                return self.stmt(s.get('body'))            # over a fixed list
            return False
        if k in ('do', 'try', 'omp'):
            return self.stmt(s.get('body'))
        if k == 'lambda':
            return False
        return self.exprs(s)

    def exprs(self, e):
        if not isinstance(e, (dict, list)):
            return False
        for n in walk(e):
            if self.test(n):
                return True
            if n.get('k') == 'call' and n.get('f') is not None and n['f'].defn is not None and not n['f'].sys and self.does(n['f'].defn):
                return True
        return False

    def after(self, root, target):
        """target (a node below root) is followed by a satisfying statement"""
        res = [None]

        def go(s):
            # returns True when target lies in s
            if s is target:
                return True
            if isinstance(s, list):
                for x in s:
                    if go(x):
                        return True
                return False
            if not isinstance(s, dict):
                return False
            if s.get('k') == 'blk':
                for i, x in enumerate(s['s']):
                    if go(x):
                        if any(self.stmt(y) for y in s['s'][i + 1:]):
                            res[0] = True
                        return True
                return False
            return any(go(x) for key, x in s.items() if key not in ('t', 'f') and isinstance(x, (dict, list)))
        go(root)
        return bool(res[0])


def trees(P, pv, own, rep):
    """a change of the projection of a mesh or grid is followed by new search trees, a conversion of a mesh of a state by the projection of the state"""
    for fld_cls, fld in own.items():
        tr = has_trees(P, fld_cls)
        if tr is None:
            continue

        def recreates(n, loc, tr=tr):
            """the tree of a location is replaced, or the whole table"""
            if n.get('k') == 'asg' and n.get('op') == '=':
                x = n['x']
            elif n.get('k') == 'call' and n.get('f') is not None and (n['f'].op == '=' or n['f'].n in ('insert_or_assign', 'swap')) and isinstance(n.get('o'), dict):
                x = n['o']
            else:
                return False
            if not any(m.get('k') == 'mem' and m.get('f') == tr for m in walk(x)):
                return False
            named = [m['n'].split('::')[-1] for m in walk(x if n['f'].n != 'insert_or_assign' else n['a'][0]) if m.get('k') == 'enum'] if n.get('k') == 'call' else \
                [m['n'].split('::')[-1] for m in walk(x) if m.get('k') == 'enum']
            return not named or loc in named
        Fs = [Follow(P, lambda n, loc=loc: recreates(n, loc)) for loc in ('Nodes', 'Edges', 'Faces')]
        for f in P.funcs:
            for n in walk(f.body) if f.body else ():
                hit = False
                if n.get('k') == 'asg' and n.get('op') == '=' and strip(n['x']).get('k') == 'mem' and strip(n['x']).get('f') == fld:
                    hit = True
                    v = strip(n['y'])
                    if f.d.ctor and v.get('k') == 'ref' and any(not i.get('field') and i.get('e') is not None and mentions(i['e'], {v['d']}) for i in f.inits or []):
                        hit = False              # the base was made with the same projection
                elif n.get('k') == 'call' and n.get('f') is not None and (not n['f'].sys or n['f'].n in ('exchange', 'swap')):
                    for i, a in enumerate(n.get('a') or []):
                        a = strip(a)
                        if a.get('k') == 'mem' and a.get('f') == fld and i < len(n['f'].p):
                            t = ptype(n['f'].p[i])
                            if t.ref and not t.const and t.to is not None and not t.to.const:
                                hit = True
                    if hit and n['f'].n == 'exchange' and not this_obj(n['a'][0]):
                        hit = False              # the moved-from object
                if not hit:
                    continue
                rep.count('projection_changes')
                if all(F.after(f.body, n) or any(F.stmt(x) for x in before(f, n)) for F in Fs):
                    rep.ok('%s: search trees made anew' % f.d.q)
                else:
                    rep.bad('%s: trees' % f.d.q, where(f, n), '%s changes the projection of a %s but keeps its search trees' % (f.d.q, fld_cls.split('::')[-1]))
    # the state follows its mesh
    st = own.get('meshkernelapi::MeshKernelState')
    if st is None:
        return
    F = Follow(P, lambda n: n.get('k') == 'asg' and n.get('op') == '=' and strip(n['x']).get('k') == 'mem' and strip(n['x']).get('f') == st)
    for f in P.funcs:
        if not f.d.q.startswith('meshkernelapi::'):
            continue
        for n in walk(f.body) if f.body else ():
            if n.get('k') == 'call' and n.get('f') is not None and n['f'].q.endswith('MeshConversion::Compute'):
                rep.count('conversions')
                if F.after(f.body, n) or any(F.stmt(x) for x in before(f, n)):
                    rep.ok('%s: the state takes the new projection' % f.d.q)
                else:
                    rep.bad('%s: state' % f.d.q, where(f, n), '%s converts the mesh of a state and keeps the old projection of the state' % f.d.q)
    # a conversion in place stores the new projection
    for f in P.funcs:
        if f.d.q.endswith('MeshConversion::Compute') and len(f.params) == 2:
            rep.count('conversions')
            W = Follow(P, lambda n: n.get('k') == 'asg' and n.get('op') == '=' and strip(n['x']).get('k') == 'mem' and strip(n['x']).get('f') in own.values())
            if W.stmt(f.body):
                rep.ok('%s stores the projection converted to' % f.d.q)
            else:
                rep.bad('%s: result' % f.d.q, '%s:%s' % (f.file, getattr(f, 'line', '')), '%s does not store the projection it converted to' % f.d.q)


def this_obj(e):
    e = strip(e)
    return e.get('k') == 'mem' and strip(e['b']).get('k') == 'this'


def before(f, n):
    """statements of the same block before n (whole-table moves in an assignment operator)"""
    out = []

    def go(s):
        if s is n:
            return True
        if isinstance(s, list):
            return any(go(x) for x in s)
        if not isinstance(s, dict):
            return False
        if s.get('k') == 'blk':
            for i, x in enumerate(s['s']):
                if go(x):
                    if f.d.op == '=':
                        out.extend(s['s'][:i])
                    return True
            return False
        return any(go(x) for key, x in s.items() if key not in ('t', 'f') and isinstance(x, (dict, list)))
    go(f.body)
    return out


PAIRS = ('meshkernel::Mesh::operator+=', 'meshkernel::Mesh2D::Merge', 'meshkernel::Contacts::Contacts')


def mixing(P, own, rep):
    """two meshes are only combined when their projections agree"""
    fs = set(own.values())

    def differ(P, f, depth=0):
        for n in walk(f.body) if f.body else ():
            if n.get('k') == 'if' and isinstance(n.get('c'), dict):
                c = n['c']
                ms = [m for m in walk(c) if m.get('k') == 'mem' and m.get('f') in fs or m.get('k') == 'call' and m.get('f') is not None and not m['f'].sys and isproj(m['f'].ret)]
                neq = any(m.get('k') == 'bin' and m['op'] in ('!=', '==') for m in walk(c))
                if len(ms) >= 2 and neq and throws(n):
                    return True
            if depth < 2 and n.get('k') == 'call' and n.get('f') is not None and n['f'].defn is not None and not n['f'].sys and n['f'].ret.s == 'void' and differ(P, n['f'].defn, depth + 1):
                return True
        return False

    def throws(n):
        for m in walk(n):
            if m.get('k') == 'throw':
                return True
            if m.get('k') == 'call' and m.get('f') is not None and m['f'].defn is not None and not m['f'].sys and any(x.get('k') == 'throw' for x in walk(m['f'].defn.body)):
                return True
        return False
    for q in PAIRS:
        for f in P.by_name(q):
            if len(f.params) < (2 if not f.d.cls or f.d.static or f.d.ctor else 1) or f.d.ctor and f.params[0]['t'].s.count('Contacts'):
                continue
            rep.count('combinations')
            if differ(P, f):
                rep.ok('%s refuses meshes of different projections' % q)
            else:
                rep.bad('%s: mixing' % q, '%s:%s' % (f.file, getattr(f, 'line', '')), '%s combines meshes without comparing their projections' % q)


def check(P, rep, tier):
    own = owners(P)
    pv = Prov(P)
    arguments(P, pv, rep)
    fields(P, pv, own, rep)
    constructors(P, pv, own, rep)
    defaults(P, own, rep)
    trees(P, pv, own, rep)
    mixing(P, own, rep)
