"""The caller's memory: inputs are left alone and nothing points into it after the call."""
import json
from ..api import api_functions
from ..effects import modref
from ..facts import func_nodes
from .c09_outputs import SPEC, plain_out

MIN = {'functions': 100, 'parameters': 200, 'classes': 20}
VIEWS = ('std::span', 'std::basic_string_view', 'std::reference_wrapper', 'Eigen::Map', 'Eigen::Ref', 'std::initializer_list')


def parts(t, out):
    if t is None or isinstance(t, str):
        return
    out.append(t)
    if t.to is not None and t.to is not t:
        parts(t.to, out)
    for a in t.targs or []:
        parts(a, out)


def library(P, t):
    """a class of the library that is not one of the structs the caller fills in"""
    r = t.rec or ''
    if r.startswith('meshkernel::'):
        return True
    return r.startswith('meshkernelapi::') and r in P.recs_by_q and not passed_in(P, r)


def passed_in(P, r):
    if not hasattr(P, '_caller_structs'):
        s = set()
        for f in api_functions(P):
            for t in f.d.p:
                u = t.to if (t.ref or t.ptr) and t.to is not None else t
                if u.rec:
                    s.add(u.rec)
        P._caller_structs = s
    return r in P._caller_structs


def outside(P, t):
    """the part of a type through which an object can point at memory that is not the library's"""
    ts = []
    parts(t, ts)
    for x in ts:
        if (x.ptr or x.ref) and x.to is not None and not library(P, x.to):
            return x
        if (x.rec or '') in VIEWS:
            return x
    return None


def check(P, rep, tier):
    spec = json.load(open(SPEC))
    M = modref(P)
    for f in api_functions(P):
        if f.body is None or f not in M.S:
            continue
        rep.count('functions')
        n = f.d.n
        ok = {tuple(x) for x in spec.get(n, ())}
        known = n in spec
        bad = set()
        for root, path in M.S[f].writes:
            if root == 'this' or root[0] != 'p':
                continue
            k = (root[1], next((c.split('::')[-1] for c in path if '::' in c), ''))
            if k in ok or (not known and plain_out(P, f, k[0])):
                continue
            t = f.d.p[k[0]]
            u = t.to if (t.ref or t.ptr) and t.to is not None else t
            if n not in spec and not u.const and (t.ref or t.ptr):
                continue        # a new function: what it may write cannot be known
            bad.add(k)
        for i, fld in sorted(bad):
            name = '%s.%s' % (f.params[i]['n'], fld) if fld else f.params[i]['n']
            rep.bad('%s:%s' % (n, name), f.where, '%s writes to %s of its caller, which is not one of its outputs' % (n, name))
        for i in range(len(f.params)):
            rep.count('parameters')
            if not any(k[0] == i for k in bad):
                rep.ok()
        for g in [f]:
            for node in func_nodes(g):
                if node.get('k') == 'delete' or node.get('k') == 'call' and node.get('f') is not None and node['f'].n in ('free', 'realloc'):
                    rep.bad('%s:frees' % n, '%s:%s' % (g.file, node.get('l')), '%s releases memory by hand' % n)
    # what outlives a call
    seen, work = set(), ['meshkernelapi::MeshKernelState', 'meshkernel::UndoActionStack']
    for q in list(P.recs_by_q):
        if 'meshkernel::UndoAction' in P.bases_of(q):
            work.append(q)
    subs = {}
    for q in P.recs_by_q:
        for b in P.bases_of(q):
            subs.setdefault(b, []).append(q)

    def follow(t):
        ts = []
        parts(t, ts)
        for x in ts:
            if x.rec:
                work.append(x.rec)

    for g in P.globals.values() if isinstance(P.globals, dict) else P.globals:
        if g.get('t') is None or g.get('t').const:
            continue
        follow(g['t'])
        x = outside(P, g['t'])
        if x is not None and str(g.get('q', g.get('n', ''))).startswith('meshkernel'):
            rep.bad('global:%s' % g.get('q', g.get('n')), g.get('n'), 'the variable %s outlives a call and can point at memory of the caller (%s)' % (g.get('n'), x.s))
    while work:
        q = work.pop()
        if q in seen:
            continue
        seen.add(q)
        r = P.recs_by_q.get(q)
        work.extend(subs.get(q, ()))
        if r is None:
            continue
        work.extend(P.bases_of(q))
        if not q.startswith('meshkernel'):
            continue
        rep.count('classes')
        for fd in r.fields:
            follow(fd['t'])
            x = outside(P, fd['t'])
            if x is not None:
                rep.bad('%s::%s' % (q, fd['n']), getattr(r, 'file', q), '%s::%s lives on after a call and can point at memory of the caller (%s)' % (q, fd['n'], x.s))
            else:
                rep.ok()
