"""Each kind of failure is reported with its own code, message and location."""
import re
from ..api import ApiFlow, api_functions
from ..facts import AnalysisBroken, func_nodes, walk
from ..errors import classes, unwrap, BASE
from ..throws import ExplicitThrows, handled

MIN = {'dispatch_paths': 20, 'error_classes': 3, 'code_getters': 3, 'throw_sites': 20}

# documented getter of each kind
GETTER = {
    'mkernel_get_exit_code_success': None,
    'mkernel_get_exit_code_meshkernel_error': 'meshkernel::MeshKernelError',
    'mkernel_get_exit_code_not_implemented_error': 'meshkernel::NotImplementedError',
    'mkernel_get_exit_code_algorithm_error': 'meshkernel::AlgorithmError',
    'mkernel_get_exit_code_constraint_error': 'meshkernel::ConstraintError',
    'mkernel_get_exit_code_mesh_geometry_error': 'meshkernel::MeshGeometryError',
    'mkernel_get_exit_code_linear_algebra_error': 'meshkernel::LinearAlgebraError',
    'mkernel_get_exit_code_range_error': 'meshkernel::RangeError',
    'mkernel_get_exit_code_stdlib_exception': 'std::out_of_range',
    'mkernel_get_exit_code_unknown_exception': 'other',
}
COPY = {'std::strncpy', 'strncpy', 'std::memcpy', 'memcpy', 'std::strcpy', 'strcpy', 'std::copy', 'std::copy_n', 'snprintf', 'std::snprintf'}


class F(ApiFlow):
    """'any' exceptions are split into one path per kind of error"""

    def setup(self, kinds, codefn, buf):
        self.kinds = kinds
        self.codefn = codefn
        self.buf = buf
        self.inh = 0

    def throw(self, st, ty):
        if ty == 'any' and not self.cur_exc and 'ty' not in st.aux:
            for k in self.kinds:
                s = st.copy()
                s.aux['ty'] = k
                super().throw(s, k)
            return
        if ty in ('any',) and 'ty' in st.aux:
            ty = st.aux['ty']
        super().throw(st, ty)

    def catches(self, h, ty):
        if ty == 'other':
            return 'yes' if 'v' not in h else 'no'
        return super().catches(h, ty)

    def on_throw(self, node, st, ty):
        if ty is not None and 'ty' not in st.aux:
            st.aux['ty'] = ty.rec or ty.s

    def on_catch(self, h, st, ty):
        st.aux['caught'] = True
        if 'ty' not in st.aux:
            st.aux['ty'] = ty
        if 'v' in h and not h['v']['t'].ref and not h['v']['t'].ptr:
            st.aux['sliced'] = h['ct'].rec

    def on_call(self, node, fd, obj, args, st):
        r = super().on_call(node, fd, obj, args, st)
        if r is not None:
            return r
        if fd.q in COPY and args:
            v = self.aval(st, args[0])
            tgt = v[1] if v[0] == 'addr' else v
            if tgt == self.buf and len(args) > 1:
                src = self.aval(st, args[1])
                st = st.copy()
                st.aux['msg'] = 'what' if (src[0] == 'call' and src[1].endswith('::what')) else 'text'
                return self.default_call(node, fd, obj, args, st)
        return None


def outputs(P, name):
    """values of the by-reference outputs of a trivial getter"""
    fs = [f for f in api_functions(P) if f.d.n == name]
    if not fs:
        raise AnalysisBroken('%s not found' % name)
    f = fs[0]
    a = ApiFlow(P)
    res, _ = a.run(f)
    out = []
    for s, v in res:
        out.append([s.store.get(('par', i, p['n'])) for i, p in enumerate(f.params)])
    return f, out


def check(P, rep, tier):
    cl, codefn = classes(P)
    codes = {}
    for q, (vals, fn) in cl.items():
        rep.count('error_classes')
        codes[q] = next(iter(vals)) if len(vals) == 1 else None
    # --- a: getters agree with the classes, codes are distinct
    want = {}
    for g, q in GETTER.items():
        f, out = outputs(P, g)
        rep.count('code_getters')
        vals = {o[0] for o in out}
        v = next(iter(vals)) if len(vals) == 1 else None
        v = v[1] if v is not None and v[0] == 'c' else None
        if v is None:
            rep.bad('%s:value' % g, f.where, '%s does not report one constant code' % g)
            continue
        want[q] = v
        if q in codes and codes[q] != v:
            rep.bad('%s:code' % g, f.where, '%s reports %s but a %s carries %s' % (g, v, q, codes[q]))
        elif q is None and v != 0:
            rep.bad('%s:code' % g, f.where, 'success is reported as %s' % v)
        else:
            rep.ok()
    seen = {}
    for q, v in list(codes.items()) + [(k, v) for k, v in want.items() if k in (None, 'std::out_of_range', 'other')]:
        if v in seen and v is not None:
            rep.bad('code-%s' % v, cl[q][1].where if q in cl else 'libs/MeshKernelApi/src/MeshKernel.cpp', 'status code %s stands for both %s and %s' % (v, seen[v], q))
        seen[v] = q
    # --- b: dispatch of every kind of exception in every API function
    ferr, eo = None, None
    fs = {f.d.n: f for f in api_functions(P)}
    if 'mkernel_get_error' not in fs or 'mkernel_get_geometry_error' not in fs:
        raise AnalysisBroken('mkernel_get_error / mkernel_get_geometry_error not found')
    buf = None
    for n in func_nodes(fs['mkernel_get_error']):
        if n.get('k') == 'call' and n.get('f') is not None and n['f'].q in COPY and len(n['a']) > 1:
            s = unwrap(n['a'][1])
            while s.get('k') in ('un', 'idx') and isinstance(s.get('e', s.get('b')), dict):
                s = s.get('e', s.get('b'))
            if s['k'] == 'ref' and s['d'][0] == 'g':
                buf = ('g', s['d'][2:])
    if buf is None:
        raise AnalysisBroken('the error message buffer was not found')
    _, go = outputs(P, 'mkernel_get_geometry_error')
    geo = [v for v in go[0] if v is not None and v[0] == 'g'] if go else []
    if len(geo) != 2:
        raise AnalysisBroken('mkernel_get_geometry_error does not report two stored values')
    given = geometry_fields(P, rep)

    def holds(v):
        return given.get(v[1] if v is not None and v[0] == 'call' else v[2] if v is not None and v[0] == 'fld' else None)
    kinds = sorted(codes) + ['std::out_of_range', 'std::bad_alloc', 'std::invalid_argument', 'other']
    for f in api_functions(P):
        a = F(P)
        a.setup(kinds, codefn, buf)
        res, exc = a.run(f)
        ok = True
        for s, v in res:
            if not s.aux.get('caught'):
                continue
            ty = s.aux.get('ty')
            rep.count('dispatch_paths')
            exp = codes.get(ty)
            if exp is None:
                exp = want.get('other') if ty == 'other' else want.get('std::out_of_range')
            got = None
            if v[0] == 'c':
                got = v[1]
            elif v[0] == 'call' and v[1] == codefn.q:
                got = codes.get(s.aux['sliced']) if s.aux.get('sliced') else codes.get(ty)
            elif v[0] == 'top':
                continue
            key = None
            if got != exp:
                key, why = 'code', 'a %s is reported with status %s instead of %s' % (ty, got, exp)
            elif 'msg' not in s.aux:
                key, why = 'message', 'no message is stored for a %s' % ty
            elif s.aux['msg'] != 'what' and ty != 'other':
                key, why = 'message', 'the message of a %s is not stored' % ty
            elif ty == 'meshkernel::MeshGeometryError':
                names = [holds(s.store.get(g)) for g in geo]
                if names != ['index', 'location']:
                    key, why = 'geometry', 'index and location of a mesh geometry error are not stored as such (%s)' % (names,)
            if key:
                ok = False
                rep.bad('dispatch:%s:%s' % (key, ty), f.where, '%s: %s' % (f.d.n, why))
        if ok:
            rep.ok('%s: every kind of exception is mapped to its own code and message' % f.d.n)
    # --- c: message buffers are never overrun
    g = P.globals.get(buf[1])
    if g is None or not g['t'].arr:
        raise AnalysisBroken('the error message buffer is not a fixed array')
    n_buf = g['t'].arrn
    for f in P.funcs:
        if not f.file.startswith('libs/MeshKernelApi/'):
            continue
        for n in func_nodes(f):
            if n.get('k') == 'call' and n.get('f') is not None and n['f'].q in COPY and n['a']:
                d = unwrap(n['a'][0])
                if d['k'] == 'ref' and d['d'] == 'g:' + buf[1]:
                    rep.count('message_writes')
                    c = constval(P, n['a'][2]) if len(n['a']) > 2 else None
                    if c is not None and c < n_buf - 1:
                        rep.bad('message-cut:%s' % f.d.q, '%s:%s' % (f.file, n['l']), 'copies only %s characters of a message into the %s-character buffer' % (c, n_buf))
                    elif c is None or c > n_buf - (1 if 'strn' in n['f'].q else 0):
                        rep.bad('message-bound:%s' % f.d.q, '%s:%s' % (f.file, n['l']), 'copies up to %s characters into the %s-character message buffer (no room for the terminator)' % (c, n_buf))
                    else:
                        rep.ok()
                # texts handed to the caller are handed out whole, and no more than that
                src = unwrap(n['a'][1]) if len(n['a']) > 1 else None
                g2 = P.globals.get(src['d'][2:]) if src is not None and src['k'] == 'ref' and src['d'][0] == 'g' else None
                if g2 is not None and g2['t'].arr and len(n['a']) > 2 and d['k'] == 'ref' and d['d'][0] != 'g':
                    rep.count('messages_handed_out')
                    c = constval(P, n['a'][2])
                    if c is not None and c != g2['t'].arrn:
                        rep.bad('message-out:%s' % f.d.q, '%s:%s' % (f.file, n['l']), 'copies %s of the %s characters of %s to the caller' % (c, g2['t'].arrn, src['n']))
                    else:
                        rep.ok()
    # --- d0: an error is not turned into another kind on its way out
    for f, h, took in handled(ExplicitThrows(P)):
        rep.count('handlers')
        took = {t for t in took if t == BASE or BASE in P.bases_of(t)}
        bad = None
        for n in walk(h['body']):
            if n.get('k') == 'throw' and n.get('e') is not None:
                ty = n['tt'].rec or n['tt'].s
                if took - {ty}:
                    bad = (n, ty, sorted(took - {ty})[0])
        if bad:
            rep.bad('replaced:%s' % f.d.q, '%s:%s' % (f.file, bad[0].get('l', f.line)), '%s raises a %s in place of the %s it caught' % (f.d.q, bad[1], bad[2]))
        else:
            rep.ok()
    # --- d: building the message cannot itself fail: placeholders and arguments agree
    for f in P.funcs:
        for n in func_nodes(f):
            if n.get('k') != 'throw' or n.get('e') is None:
                continue
            rep.count('throw_sites')
            ty = n['tt'].rec or ''
            e = unwrap(n['e'])
            if e['k'] != 'ctor' or BASE not in P.bases_of(ty):
                continue
            fs_ = [i for i, x in enumerate(e['a']) if unwrap(x).get('k') == 'ctor' and (unwrap(x)['f'].cls or '').endswith('FormatString')]
            if not fs_:
                continue
            i = fs_[0]
            fc = unwrap(e['a'][i])
            s = unwrap(fc['a'][0])
            nargs = len([x for x in e['a'][i + 1:]])
            if s['k'] != 'str' or nargs == 0:
                continue
            rep.count('formatted_throws')
            t = s['v'].replace('{{', '').replace('}}', '')
            ph = re.findall(r'\{([^}]*)\}', t)
            need = 0
            for p in ph:
                m = re.match(r'(\d+)', p)
                need = max(need, int(m.group(1)) + 1) if m else need
            auto = sum(1 for p in ph if not re.match(r'\d', p))
            need = max(need, auto)
            if need > nargs or t.count('{') != t.count('}'):
                rep.bad('format:%s:%s' % (f.d.q, s['v'][:40]), '%s:%s' % (f.file, n['l']),
                        'the message "%s" needs %d arguments but %d are given: formatting throws and the failure is reported as a different kind' % (s['v'], need, nargs))
            else:
                rep.ok()
    # --- e: every location has a name (the name is looked up while the message of an error is built, where a failure ends the process)
    loc = P.enums.get('meshkernel::Location')
    m = [g for q, g in P.globals.items() if g['t'].rec in ('std::map', 'std::unordered_map') and g['t'].targs and getattr(g['t'].targs[0], 'enum', None) == 'meshkernel::Location'
         and g['t'].targs[1].rec and 'string' in g['t'].targs[1].rec]
    if loc is None or not m:
        rep.notes.append('no table of location names found; clause e has no instance')
    else:
        have = {n['v'] for n in walk_enum(m[0].get('init'))}
        thrown = thrown_locations(P)
        rep.count('locations', len(loc))
        for n, v in loc:
            if v in have:
                rep.ok()
            elif v in thrown or thrown is None:
                rep.bad('location-name:%s' % n, m[0].get('file', '') + ':%s' % m[0].get('l', 0), 'location %s has no name but errors at that location are raised' % n)


def geometry_fields(P, rep):
    """accessor or field of a mesh geometry error -> 'index' | 'location', as set by its constructors"""
    q = 'meshkernel::MeshGeometryError'
    fields = {}
    ctors = [f for f in P.funcs if f.d.cls == q and f.d.ctor and f.d.ctor not in ('copy', 'move')]
    if not ctors:
        raise AnalysisBroken('the constructor of %s was not found' % q)
    for c in ctors:
        res, _ = ApiFlow(P).run(c)
        for s, _ in res:
            for p, v in s.store.items():
                if p[0] == 'fld' and p[1] == ('this',) and v[0] == 'par' and v[1] < 2:
                    k = ('index', 'location')[v[1]]
                    fields[p[2]] = k if fields.get(p[2], k) == k else None
    out = dict(fields)
    for f in P.funcs:
        if f.d.cls == q and not f.d.ctor and not f.params:
            res, _ = ApiFlow(P).run(f)
            vs = {fields.get(v[2]) if v[0] == 'fld' and v[1] == ('this',) else None for s, v in res}
            if len(vs) == 1:
                out[f.d.q] = vs.pop()
    return out


def thrown_locations(P):
    """locations passed to a mesh geometry error as a constant (others count as all)"""
    out = set()
    for f in P.funcs:
        for n in func_nodes(f):
            if n.get('k') == 'throw' and n.get('e') is not None and (n['tt'].rec or '') == 'meshkernel::MeshGeometryError':
                e = unwrap(n['e'])
                if e['k'] == 'ctor':
                    for a in e['a']:
                        a = unwrap(a)
                        if a.get('t') is not None and a['t'].enum == 'meshkernel::Location':
                            if a['k'] == 'enum':
                                out.add(a['v'])
                            else:
                                out |= {v for _, v in P.enums['meshkernel::Location']}
    return out


def walk_enum(x):
    from ..facts import walk
    return [n for n in walk(x) if n.get('k') == 'enum' and n.get('t') is not None and n['t'].enum == 'meshkernel::Location']


def constval(P, e):
    e = unwrap(e)
    if e['k'] == 'lit':
        return e['v']
    if 'cv' in e:
        return e['cv']
    if e['k'] == 'ref' and e['d'][0] == 'g':
        g = P.globals.get(e['d'][2:])
        if g is not None and 'init' in g:
            return constval(P, g['init'])
    if e['k'] == 'bin':
        a, b = constval(P, e['x']), constval(P, e['y'])
        if a is None or b is None:
            return None
        return {'+': a + b, '-': a - b, '*': a * b}.get(e['op'])
    if e['k'] == 'sizeof':
        return e.get('v')
    return None
