"""The C API: entry points, the state map, and a flow analysis that looks through everything defined in libs/MeshKernelApi."""
from .facts import AnalysisBroken
from .flow import Flow, Budget, NULL, contains, root
from . import errors

STATE = 'meshkernelapi::MeshKernelState'
STACK = 'meshkernel::UndoActionStack'
UNDO = 'meshkernel::UndoAction'


def api_functions(P):
    out = [f for f in P.funcs if f.d.c and f.d.n.startswith('mkernel_') and f.file.startswith('libs/MeshKernelApi/')]
    out.sort(key=lambda f: (f.file, f.line))
    if len(out) < 120:
        raise AnalysisBroken('only %d C API entry points found (expected about 170)' % len(out))
    return out


def state_map(P):
    m = [q for q, g in P.globals.items() if g['t'].rec in ('std::unordered_map', 'std::map') and g['t'].targs and len(g['t'].targs) > 1
         and getattr(g['t'].targs[1], 'rec', None) == STATE]
    if len(m) != 1:
        raise AnalysisBroken('the map from kernel id to state was not found (%s)' % m)
    return ('g', m[0])


def undo_stack(P):
    m = [q for q, g in P.globals.items() if g['t'].rec == STACK]
    if len(m) != 1:
        raise AnalysisBroken('the undo stack object was not found (%s)' % m)
    return ('g', m[0])


def id_params(f):
    """indices of by-value integer parameters that are kernel ids"""
    return [i for i, p in enumerate(f.params) if p['t'].b in ('int', 'uint') and not p['t'].ref and not p['t'].ptr and 'meshkernelid' in p['n'].lower()]


class ApiFlow(Flow):
    max_inline = 8

    def __init__(self, P):
        super().__init__(P)
        self.map = state_map(P)
        self.stack = undo_stack(P)
        if not hasattr(P, 'nothrow'):
            P.nothrow = NoThrow(P)
        if not hasattr(P, 'codefn'):
            P.codefn = errors.classes(P)[1]
        self.codefn = P.codefn
        self.status = set()
        if not hasattr(P, 'nevernull'):
            P.nevernull = NeverNull(P)
        self.nn = P.nevernull

    # ---- the status variable: 'ok', 'err' or unknown, kept apart by the typestate so that joins do not lose it
    def cls(self, v, st=None):
        if v[0] == 'c' and isinstance(v[1], int):
            return 'ok' if v[1] == 0 else 'err'
        if v[0] == 'call' and v[1] == self.codefn.q:
            return 'err'
        if st is not None and v[0] == 'top' and v[1] == 'j':
            return st.aux.get(('ec', v[2]))
        return None

    def write(self, st, p, v, node):
        if p[0] in ('g', 'v') and node is not None and node.get('k') == 'asg' and isinstance(node.get('y'), dict):
            t = node['y'].get('t')
            if t is not None and t.enum == 'meshkernel::ExitCode' or p in self.status:
                self.status.add(p)
                st.aux[('ec', p)] = self.cls(v, st)
        super().write(st, p, v, node)

    def entailed(self, st, a):
        if a[0] == '==' and ('c', 0) in a[1:]:
            x = a[1] if a[2] == ('c', 0) else a[2]
            c = self.cls(x, st)
            if c is not None:
                return c == 'ok'
        return super().entailed(st, a)

    def on_catch(self, h, st, ty):
        st.aux['caught'] = True

    def default_call(self, e, fd, ob, args, st):
        out = super().default_call(e, fd, ob, args, st)
        if fd is not None and self.nn.fd(fd, e):
            return [(s, ('new', self.site(e), 'ret')) for s, _ in out]
        return out

    def opaque_throws(self, fd):
        return not self.P.nothrow.fd(fd)

    def want_inline(self, fd, fn, node, st):
        return fn.file.startswith('libs/MeshKernelApi/')

    def on_call(self, node, fd, obj, args, st):
        if fd.q == 'std::rethrow_exception':
            self.on_throw(node, st, None)
            self.throw(st, self.cur_exc[-1] if self.cur_exc else 'any')
            return []
        return None

    # a state element: ('el', map, key)
    def state_of(self, p):
        """the kernel id key if path p lies inside a state of the map"""
        while isinstance(p, tuple) and p and p[0] in ('fld', 'el', 'deref', 'it', 'addr', 'copy', 'ref'):
            if p[0] == 'el' and p[1] == self.map:
                return p[2]
            p = p[1]
        return None


class NeverNull:
    """functions whose returned owning pointer is never null (greatest fixpoint over the call graph)"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def fd(self, fd, node=None):
        if fd is None or fd.ret.rec != 'std::unique_ptr' or fd.ret.ref:
            return False
        if fd.virt and not (node is not None and node.get('qual')):
            seen, st = [], [fd]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.append(x)
                    st.extend(x.overriders)
            ds = [x.defn for x in seen if not x.pure]
        else:
            ds = [fd.defn]
        return bool(ds) and all(d is not None and self.fn(d) for d in ds)

    def fn(self, f):
        if f in self.memo:
            return self.memo[f]
        self.memo[f] = True
        a = NNFlow(self.P)
        a.nn = self
        try:
            res, _ = a.run(f)
            r = bool(res) or not a.exhausted
            for s, v in res:
                if v[0] != 'new' and s.facts.get(('==',) + tuple(sorted((v, NULL), key=repr))) is not False:
                    r = False
        except Budget:
            r = False
        self.memo[f] = r
        return r


class NNFlow(Flow):
    exhausted = False

    def default_call(self, e, fd, ob, args, st):
        out = super().default_call(e, fd, ob, args, st)
        if self.nn.fd(fd, e):
            return [(s, ('new', self.site(e), 'ret')) for s, _ in out]
        return out


class NoThrow:
    """which functions can let an exception out (declared noexcept, C functions, or by inspection of the body)"""
    SAFE = {'std::move', 'std::forward', 'std::min', 'std::max', 'std::get', 'std::tie', 'std::addressof', 'std::swap', 'std::exchange', 'std::as_const',
            'std::strlen', 'std::strncpy', 'std::memcpy', 'std::memset', 'std::abs', 'std::sqrt', 'std::size', 'std::begin', 'std::end', 'std::clamp'}
    SAFEM = {'size', 'empty', 'begin', 'end', 'data', 'operator[]', 'operator*', 'operator->', 'front', 'back', 'get', 'operator bool', 'c_str', 'contains', 'count', 'reset',
             'clear', 'find', 'length', 'pop_back', 'pop_front'}

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def fd(self, fd, node=None):
        """True: cannot throw"""
        if fd is None:
            return False
        if fd.nx == 1:
            return True
        defs = []
        if fd.virt and not (node is not None and node.get('qual')):
            st = [fd]
            seen = []
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.append(x)
                st.extend(x.overriders)
            defs = [x.defn for x in seen if x.defn is not None]
            if any(x.defn is None and not x.pure and not x.nx == 1 and not x.sys for x in seen):
                return False
            if not defs:
                return False
        elif fd.defn is not None:
            defs = [fd.defn]
        if defs:
            return all(self.fn(f) for f in defs)
        if fd.sys:
            if fd.c or fd.q in self.SAFE:
                return True
            if fd.cls is not None and (fd.n in self.SAFEM) and not ('map' in fd.cls and fd.op == '[]'):
                return True
            if fd.cls in ('std::unique_ptr', 'std::shared_ptr', 'std::basic_string_view', 'std::span', '__gnu_cxx::__normal_iterator'):
                return True
        if fd.dflt or fd.dtor:
            # implicit: throws only if a subobject's operation does; copies of containers may
            return bool(fd.dtor or fd.ctor in ('move',) or fd.asg == 'move')
        return False

    def fn(self, f):
        if f in self.memo:
            return self.memo[f]
        self.memo[f] = True
        r = True
        if f.inits:
            r = all(self.node(i['e']) for i in f.inits if i.get('e') is not None)
        r = r and self.node(f.body)
        self.memo[f] = r
        return r

    def node(self, x):
        if isinstance(x, list):
            return all(self.node(y) for y in x if isinstance(y, (dict, list)))
        if not isinstance(x, dict):
            return True
        k = x.get('k')
        if k == 'throw':
            return False
        if k == 'try':
            if any('v' not in h for h in x['h']):
                return all(self.node(h['body']) for h in x['h'])
            return False
        if k == 'call' and not self.fd(x.get('f'), x):
            return False
        if k == 'ctor' and not self.fd(x.get('f'), x):
            t = x.get('t')
            if not (t is not None and x['f'].ctor in ('copy', 'dflt') and triv(self.P, t)):
                return False
        if k == 'new':
            return False
        if k == 'lambda':
            return all(self.node(c.get('init')) for c in x['caps'] if isinstance(c.get('init'), dict))
        return all(self.node(v) for v in x.values() if isinstance(v, (dict, list)))


def triv(P, t):
    """copying/default-constructing a value of this type cannot allocate"""
    if t.rec is None or t.ref or t.ptr:
        return True
    if t.rec == 'std::shared_ptr' or t.rec == 'std::unique_ptr':
        return True
    r = P.recs_by_q.get(t.rec)
    if r is None:
        return t.rec in ('std::pair', 'std::array', 'std::tuple', 'std::optional', 'std::span', 'std::basic_string_view', 'std::source_location') and all(
            isinstance(a, str) or a is None or triv(P, a) for a in (t.targs or []))
    return all(triv(P, f['t']) for f in r.fields) and all(triv(P, b) for b in r.bases)
