"""Kinds of numbers: inference, over the type-checked program, of which index space (nodes, edges, faces, positions in a face, positions
around a node) every integer belongs to.  Unification with let-polymorphism: a function is typed once from its body and
instantiated at each call, so helpers that work for any kind stay general; fields are monomorphic."""
from .facts import walk

VEC = {'std::vector', 'std::array', 'std::span', 'std::deque'}
TUP = {'std::pair', 'std::tuple'}
WRAP = {'std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::reference_wrapper'}
SETS = {'std::set', 'std::unordered_set'}


class N:
    __slots__ = ('p', 'con', 'args', 'kind', 'glob', 'why')

    def __init__(self, con=None, args=None, kind=None):
        self.p = None
        self.con = con
        self.args = args
        self.kind = kind
        self.glob = False
        self.why = None


def find(n):
    while n.p is not None:
        if n.p.p is not None:
            n.p = n.p.p
        n = n.p
    return n


def setglob(n):
    st = [n]
    while st:
        x = find(st.pop())
        if x.glob:
            continue
        x.glob = True
        if x.args:
            st += x.args


class Kinds:
    def __init__(self, P, seeds, rseeds, opaque=(), loose_fields=()):
        self.P = P
        self.opaque = set(opaque)
        self.loose = set(loose_fields)
        self.fields = {}
        self.globals = {}
        self.scheme = {}        # Func -> (params, ret)
        self.active = {}        # Func of the current component -> (params, ret)
        self.conflicts = []     # (Func, line, what)
        self.links = 0
        self.indexed = 0
        self.boundchecks = []
        for q, t in seeds.items():
            n = self.parse(t)
            setglob(n)
            self.fields[q] = n
        self.rseeds = rseeds

    def parse(self, t):
        if isinstance(t, str):
            return N('int', None, t)
        if t is None:
            return N()
        if t[0] == 'vec':
            return N('vec', [self.parse(t[1]), self.parse(t[2])])
        if t[0] == 'mat':
            return N('mat', [self.parse(x) for x in t[1:]])
        if t[0] == 'tup':
            return N('tup', [self.parse(x) for x in t[1:]])

    # ---- shapes
    def shape(self, t):
        if t is None:
            return N()
        if (t.ref or t.ptr) and t.to is not None and t.to is not t:
            return self.shape(t.to)
        if t.arr and t.to is not None and t.to is not t:
            return N('vec', [N('int'), self.shape(t.to)])
        if t.b in ('int', 'uint', 'long', 'ulong', 'size_t') or t.b and t.b.endswith('int'):
            return N('int')
        r = t.rec
        ta = [a for a in (t.targs or []) if not isinstance(a, (int, str))]
        if r in VEC and ta:
            return N('vec', [N('int'), self.shape(ta[0])])
        if r in SETS and ta:
            return N('vec', [N('int'), self.shape(ta[0])])
        if r in TUP and ta:
            return N('tup', [self.shape(a) for a in ta])
        if r == 'Eigen::Matrix' and ta:
            return N('mat', [N('int'), N('int'), self.shape(ta[0])])
        if r in WRAP and ta:
            return self.shape(ta[0])
        return N()

    # ---- unification
    def unify(self, a, b, node=None, what=''):
        st = [(a, b)]
        while st:
            x, y = st.pop()
            x, y = find(x), find(y)
            if x is y:
                continue
            if x.con and y.con and x.con != y.con:
                continue
            if x.con == 'tup' and y.con == 'tup' and len(x.args) != len(y.args):
                continue
            if x.kind and y.kind and x.kind != y.kind:
                if self.apart(x.kind, y.kind) and self.claimed(x.kind):
                    self.conflicts.append((self.fn, (node or {}).get('l'), x.kind, y.kind, what))
                continue
            self.links += 1
            if x.args and y.args:
                st += list(zip(x.args, y.args))
            if y.args and not x.args:
                x.args = y.args
            if not x.con:
                x.con = y.con
            if not x.kind:
                x.kind = y.kind
            y.p = x
            if x.glob != y.glob:
                g = x if not x.glob else y
                x.glob = False
                setglob(x)
                if g is y:
                    pass

    groups = {}

    def apart(self, a, b):
        """two kinds one of which was mistaken for the other (kinds of different groups are converted deliberately)"""
        return self.groups.get(a, 0) == self.groups.get(b, 0)

    def claimed(self, kind):
        return True

    def clash(self, a, b):
        """would unification fail?"""
        st, seen = [(a, b)], set()
        while st:
            x, y = st.pop()
            x, y = find(x), find(y)
            if x is y or (x, y) in seen or x.con and y.con and x.con != y.con:
                continue
            seen.add((x, y))
            if x.kind and y.kind and x.kind != y.kind:
                return True
            if x.args and y.args:
                st += list(zip(x.args, y.args))
        return False

    def inst(self, ns, keep=()):
        memo = {}
        st = list(keep)
        while st:
            x = find(st.pop())
            if x not in memo:
                memo[x] = x
                st += x.args or []

        def cp(n):
            n = find(n)
            if n.glob:
                return n
            if n in memo:
                return memo[n]
            m = N(n.con, None, n.kind)
            memo[n] = m
            if n.args:
                m.args = [cp(a) for a in n.args]
            return m
        return [cp(n) for n in ns]

    # ---- declarations
    def field(self, q, t):
        if q in self.loose:
            return self.shape(t)
        n = self.fields.get(q)
        if n is None:
            n = self.shape(t)
            setglob(n)
            self.fields[q] = n
        return n

    def var(self, d, t):
        if isinstance(d, str) and d.startswith('g'):
            return self.shape(t)
        n = self.env.get(d)
        if n is None:
            n = self.env[d] = self.shape(t)
        return n

    # ---- functions
    def order(self):
        """callees first"""
        P = self.P
        callees = {}
        for f in P.funcs:
            cs = []
            for root in [f.body] + [i.get('e') for i in (f.inits or [])]:
                if root is None:
                    continue
                for n in walk(root):
                    if n.get('k') in ('call', 'ctor') and n.get('f') is not None and n['f'].defn is not None:
                        cs.append(n['f'].defn)
            callees[f] = cs
        idx, low, onst, st, out = {}, {}, set(), [], []
        c = 0
        for r in P.funcs:
            if r in idx:
                continue
            work = [(r, iter(callees[r]))]
            idx[r] = low[r] = c
            c += 1
            st.append(r)
            onst.add(r)
            while work:
                f, it = work[-1]
                for g in it:
                    if g not in callees:
                        continue
                    if g not in idx:
                        idx[g] = low[g] = c
                        c += 1
                        st.append(g)
                        onst.add(g)
                        work.append((g, iter(callees[g])))
                        break
                    if g in onst:
                        low[f] = min(low[f], idx[g])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[f])
                    if low[f] == idx[f]:
                        comp = []
                        while True:
                            g = st.pop()
                            onst.discard(g)
                            comp.append(g)
                            if g is f:
                                break
                        out.append(comp)
        return out

    def run(self):
        for comp in self.order():
            self.active = {}
            for f in comp:
                ps = [self.shape(p['t']) for p in f.params]
                r = self.shape(f.d.ret) if not f.d.ctor else N()
                s = self.rseeds.get(f.d.q)
                if s is not None:
                    self.fn = f
                    self.unify(r, self.parse(s))
                self.active[f] = (ps, r)
            for f in comp:
                self.fn = f
                self.env = {}
                self.lams = {}
                self.curret = [self.active[f][1]]
                for p, n in zip(f.params, self.active[f][0]):
                    self.env[p['d']] = n
                for i in f.inits or []:
                    if i.get('e') is not None:
                        x = self.ev(i['e'])
                        q = i.get('field')
                        if isinstance(q, str):
                            n = self.fields.get(q)
                            if n is not None and q not in self.loose and i['e'].get('k') != 'ctor':
                                self.unify(n, x, i['e'], 'initialisation of ' + q)
                self.stmt(f.body)
            for f in comp:
                if f.d.q not in self.opaque:
                    self.scheme[f] = self.active[f]
            self.active = {}
        return self.conflicts

    # ---- statements and expressions in one walk
    def stmt(self, s):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.stmt(x)
            return
        k = s.get('k')
        if k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'rfor':
            if s.get('init'):
                self.stmt(s['init'])
            r = self.ev(s['r'])
            v = s['var']
            r = find(r)
            el = r.args[1] if r.con == 'vec' else N()
            n = self.var(v['d'], v['t'])
            self.unify(n, el, s, 'loop variable')
            self.binds(v, el)
            self.stmt(s['body'])
        elif k == 'ret':
            if s.get('e') is not None:
                x = self.ev(s['e'])
                self.unify(self.curret[-1], x, s['e'], 'return value')
        elif k == 'if':
            self.any(s.get('init'))
            if s.get('cv'):
                self.decl(s['cv'])
            self.any(s.get('c'))
            before = dict(self.env)
            self.any(s.get('then'))
            then, self.env = self.env, before
            self.any(s.get('else'))
            self.merge(then)
        elif k in ('for', 'while', 'do', 'switch', 'try'):
            before = dict(self.env)
            for key, x in s.items():
                if key not in ('k', 'l', 'le', 'id', 't', 'cl', 'dir'):
                    self.any(x)
            self.merge(before)
        elif k in ('blk', 'expr', 'case', 'default', 'omp', 'ostmt', 'label'):
            for key, x in s.items():
                if key in ('k', 'l', 'le', 'id', 't', 'cl', 'dir', 'cv'):
                    continue
                self.any(x)
        else:
            self.ev(s)

    def merge(self, other):
        """where paths meet, a variable that stands for different things on them stands for nothing in particular"""
        for d, n in other.items():
            m = self.env.get(d)
            if m is None:
                self.env[d] = n
            elif find(m) is not find(n):
                if self.clash(m, n):
                    self.env[d] = self.shapeof(n)
                else:
                    self.unify(m, n)

    def shapeof(self, n):
        n = find(n)
        return N(n.con, [self.shapeof(a) for a in n.args] if n.args else None)

    STM = {'blk', 'decl', 'expr', 'if', 'for', 'rfor', 'while', 'do', 'switch', 'case', 'default', 'ret', 'try', 'omp', 'ostmt', 'label', 'break', 'continue', 'goto', 'nop'}

    def any(self, x):
        if isinstance(x, list):
            for y in x:
                self.any(y)
        elif isinstance(x, dict):
            if x.get('k') in self.STM:
                self.stmt(x)
            elif 'k' in x:
                self.ev(x)
            else:
                for y in x.values():
                    if isinstance(y, (dict, list)):
                        self.any(y)

    def decl(self, v):
        if not isinstance(v, dict) or 'd' not in v:
            return
        n = self.var(v['d'], v.get('t'))
        if v.get('init') is not None:
            if v['init'].get('k') == 'lambda' or v['init'].get('k') == 'ctor' and v['init'].get('a') and v['init']['a'][0].get('k') == 'lambda':
                lam = v['init'] if v['init'].get('k') == 'lambda' else v['init']['a'][0]
                outer = set(self.env)
                self.lams[v['d']] = self.lam(lam) + (outer,)
                return
            x = self.ev(v['init'])
            self.unify(n, x, v['init'], 'value of ' + str(v.get('n')))
            self.binds(v, x)

    def binds(self, v, x):
        bs = v.get('bind')
        if not bs:
            return
        x = find(x)
        for i, b in enumerate(bs):
            if not isinstance(b, dict) or 'd' not in b:
                continue
            n = self.var(b['d'], b.get('t'))
            if x.con == 'tup' and i < len(x.args):
                self.unify(n, x.args[i])
            elif x.con == 'vec':
                self.unify(n, x.args[1])

    def lam(self, e):
        ps = []
        for p in e.get('params') or []:
            n = self.var(p['d'], p['t'])
            ps.append(n)
        r = N()
        self.curret.append(r)
        if e.get('body') is not None:
            self.stmt(e['body'])
        self.curret.pop()
        return ps, r

    def ev(self, e):
        k = e.get('k')
        m = getattr(self, 'e_' + str(k), None)
        if m is not None:
            return m(e)
        for key, x in e.items():
            if isinstance(x, (dict, list)) and key not in ('t', 'f'):
                self.any(x)
        return N()

    def e_ref(self, e):
        d = e['d']
        if e.get('cv') is not None or isinstance(d, str) and d.startswith('g'):
            return N()
        return self.var(d, e.get('t'))

    def e_lambda(self, e):
        self.lam(e)
        return N()

    def e_lit(self, e):
        return N()

    def e_mem(self, e):
        b = self.ev(e['b'])
        q = e.get('f')
        b = find(b)
        if q in ('std::pair::first', 'std::pair::second'):
            if b.con == 'tup':
                return b.args[0 if q.endswith('first') else 1]
            return self.shape(e.get('t'))
        if not isinstance(q, str):
            return self.shape(e.get('t'))
        return self.field(q, e.get('t'))

    def index(self, b, i, e):
        b = find(b)
        if b.con == 'vec':
            self.indexed += 1
            self.unify(b.args[0], i, e, 'index')
            return b.args[1]
        return self.shape(e.get('t'))

    def e_idx(self, e):
        return self.index(self.ev(e['b']), self.ev(e['i']), e)

    def e_asg(self, e):
        x, y = self.ev(e['x']), self.ev(e['y'])
        if e.get('op') == '=':
            self.assign(x, y, e['x'], e)
        return x

    def e_un(self, e):
        x = self.ev(e['e'])
        if e['op'].startswith(('++', '--')) or e['op'] in ('*', '&'):
            return x
        return N()

    def e_bin(self, e):
        x, y = self.ev(e['x']), self.ev(e['y'])
        if e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            if find(x).con == 'int' and find(y).con == 'int' and (self.name(e['x']) or self.name(e['y'])):
                self.unify(x, y, e, 'comparison')
            return N()
        if e['op'] == ',':
            return y
        if e['op'] in ('+', '-', '%') and find(x).con == 'int':
            if self.const(e['y']) or e['op'] == '%':
                return x
            if self.const(e['x']) and e['op'] == '+':
                return y
            if e['op'] == '+' and find(y).con == 'int' and find(x).kind and find(x).kind == find(y).kind:
                return x
        return N('int') if find(x).con == 'int' else N()

    def name(self, e):
        while e.get('k') == 'cast':
            e = e['e']
        if e.get('k') == 'call' and e.get('f') is not None and e['f'].n == 'size' and isinstance(e.get('o'), dict):
            e = e['o']
            while e.get('k') == 'cast':
                e = e['e']
        return e.get('k') in ('ref', 'mem') and e.get('cv') is None

    def const(self, e):
        while e.get('k') == 'cast':
            e = e['e']
        return e.get('k') == 'lit'

    def e_cond(self, e):
        self.ev(e['c'])
        ks = [k for k in ('x', 'y', 'then', 'else', 'a', 'b') if isinstance(e.get(k), dict)]
        r = [self.ev(e[k]) for k in ks]
        if len(r) == 2:
            if self.clash(r[0], r[1]):
                return self.shapeof(r[0])
            self.unify(r[0], r[1], e, 'alternatives')
            return r[0]
        return N()

    def e_cast(self, e):
        x = self.ev(e['e'])
        t = e.get('t')
        if t is not None and find(x).con == 'int' and self.shape(t).con != 'int':
            return N()
        return x

    def e_init(self, e):
        t = self.shape(e.get('t'))
        xs = e.get('a') or e.get('e') or e.get('s') or []
        xs = xs if isinstance(xs, list) else [xs]
        vs = [self.ev(x) for x in xs if isinstance(x, dict)]
        if t.con == 'tup' and len(vs) == len(t.args):
            for a, b in zip(t.args, vs):
                self.unify(a, b, e, 'pair')
        elif t.con == 'vec':
            if any(self.clash(vs[0], b) for b in vs[1:]):
                return t
            for b in vs:
                if find(b).con != 'vec' or find(t.args[1]).con == 'vec':
                    self.unify(t.args[1], b, e, 'element')
        return t

    e_initlist = e_init

    def e_ctor(self, e):
        fd = e.get('f')
        t = self.shape(e.get('t'))
        args = [self.ev(a) for a in e.get('a') or []]
        if fd is None:
            return t
        if t.con == 'vec' and fd.sys:
            ts = [a.get('t') for a in e.get('a') or []]
            if e.get('list'):
                if any(self.clash(args[0], b) for b in args[1:]):
                    return t
                for a in args:
                    f = find(a)
                    if f.con == 'vec':
                        self.unify(t.args[1], f.args[1])
                    else:
                        self.unify(t.args[1], a, e, 'element')
            elif len(args) == 1 and find(args[0]).con == 'vec':
                self.unify(t, args[0], e, 'copy')
            elif args and find(args[0]).con == 'int' and fd.n == 'vector':
                self.unify(t.args[0], args[0], e, 'size')
                if len(args) > 1 and find(args[1]).con != 'vec' or len(args) > 1 and find(t.args[1]).con == 'vec':
                    self.unify(t.args[1], args[1], e, 'element')
            return t
        if t.con == 'mat' and fd.sys:
            if len(args) == 2 and find(args[0]).con == 'int':
                self.unify(t.args[0], args[0], e, 'rows')
                self.unify(t.args[1], args[1], e, 'columns')
            elif len(args) == 1 and find(args[0]).con == 'mat':
                self.unify(t, args[0], e, 'copy')
            return t
        if t.con == 'tup' and fd.sys:
            if len(args) == 1 and find(args[0]).con == 'tup':
                self.unify(t, args[0])
            elif len(args) == len(t.args):
                for a, b in zip(t.args, args):
                    self.unify(a, b, e, 'pair')
            return t
        if len(args) == 1 and fd.sys:
            return args[0]
        self.apply(fd, args, e)
        return t

    def apply(self, fd, args, e):
        """a call of a function of the library"""
        f = fd.defn
        if f is None or fd.virt and fd.overriders or fd.q in self.opaque:
            return self.shape(e.get('t'))
        sc = self.active.get(f)
        if sc is None:
            sc = self.scheme.get(f)
            if sc is None:
                return self.shape(e.get('t'))
            ns = self.inst(list(sc[0]) + [sc[1]])
        else:
            ns = list(sc[0]) + [sc[1]]
        for p, a in zip(ns[:-1], args):
            self.unify(p, a, e, 'argument of ' + fd.n)
        return ns[-1]

    def e_call(self, e):
        fd = e.get('f')
        o = e.get('o')
        ov = self.ev(o) if isinstance(o, dict) else None
        if isinstance(e.get('fx'), dict):
            self.ev(e['fx'])
        args = [self.ev(a) for a in e.get('a') or []]
        if fd is None:
            return self.shape(e.get('t'))
        if not fd.sys:
            if fd.op == '()' and isinstance(o, dict) and o.get('k') == 'ref' and o['d'] in self.lams:
                ps, r, outer = self.lams[o['d']]
                *ps, r = self.inst(list(ps) + [r], [self.env[d] for d in outer if d in self.env])
                for p, a in zip(ps, args):
                    self.unify(p, a, e, 'argument')
                return r
            return self.apply(fd, args, e)
        n, op = fd.n, fd.op
        b = find(ov) if ov is not None else None
        if ov is not None and b.con == 'vec':
            cls = fd.cls
            if op == '[]' or n == 'at':
                return self.index(b, args[0], e)
            if n in ('size', 'ssize', 'length'):
                return b.args[0] if cls in ('std::vector', 'std::span', 'std::deque') else N('int')
            if n in ('resize', 'reserve', 'assign') and args and find(args[0]).con == 'int' and len(args) <= 2 and cls == 'std::vector':
                if n != 'reserve':
                    self.unify(b.args[0], args[0], e, 'size')
                if len(args) == 2:
                    self.unify(b.args[1], args[1], e, 'element')
                return N()
            if n in ('push_back', 'fill') or n == 'emplace_back' and len(args) == 1 or n in ('insert', 'emplace', 'contains', 'count', 'find', 'erase') and len(args) == 1 and cls in SETS:
                if find(b.args[1]).con == find(args[0]).con:
                    self.unify(b.args[1], args[0], e, 'element')
                if n == 'find':
                    return ov
                return N()
            if n == 'emplace_back':
                el = find(b.args[1])
                if el.con == 'tup' and len(el.args) == len(args):
                    for x, y in zip(el.args, args):
                        self.unify(x, y, e, 'element')
                return N()
            if n in ('front', 'back'):
                return b.args[1]
            if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data'):
                return ov
            if op == '=':
                self.assign(ov, args[0], o, e)
                return ov
            if n == 'swap':
                self.unify(ov, args[0], e, 'swap')
                return N()
            if op == '*' or n in ('operator*', 'operator->'):
                return b.args[1]
            return N()
        if b is not None and b.con == 'mat':
            if op == '()' and len(args) == 2 or n in ('coeff', 'coeffRef') and len(args) == 2:
                self.indexed += 1
                self.unify(b.args[0], args[0], e, 'row')
                self.unify(b.args[1], args[1], e, 'column')
                return b.args[2]
            if n in ('rows', 'cols'):
                return b.args[0 if n == 'rows' else 1]
            if n in ('resize', 'conservativeResize') and len(args) == 2:
                self.unify(b.args[0], args[0], e, 'rows')
                self.unify(b.args[1], args[1], e, 'columns')
                return N()
            if n in ('row', 'col') and len(args) == 1:
                self.unify(b.args[0 if n == 'row' else 1], args[0], e, n)
                return N('vec', [b.args[1 if n == 'row' else 0], b.args[2]])
            if op == '=':
                self.assign(ov, args[0], o, e)
                return ov
            if n == 'swap':
                self.unify(ov, args[0], e, 'swap')
            if n == 'transpose':
                return N('mat', [b.args[1], b.args[0], b.args[2]])
            return self.shape(e.get('t'))
        if op == '=' and ov is not None and args:
            self.unify(ov, args[0], e, 'assignment')
            return ov
        if op in ('*', '->') and ov is not None:
            # smart pointers are transparent; iterators carry their container
            return ov
        if n == 'get' and fd.q == 'std::get' and args:
            a = find(args[0])
            i = self.getidx(e, fd)
            if a.con == 'tup' and i is not None and i < len(a.args):
                return a.args[i]
            if a.con == 'vec':
                return a.args[1]
            return self.shape(e.get('t'))
        if fd.q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const') and args:
            return args[0]
        if fd.q in ('std::min', 'std::max') and len(args) >= 2:
            if find(args[0]).con == 'int' and find(args[1]).con == 'int':
                if self.clash(args[0], args[1]):
                    return N('int')
                self.unify(args[0], args[1], e, n)
            return args[0]
        if fd.q in ('std::swap', 'std::exchange') and len(args) == 2:
            self.unify(args[0], args[1], e, 'swap')
            return args[0]
        if fd.q in ('std::fill', 'std::find', 'std::count') and len(args) == 3:
            c = find(args[0])
            if c.con == 'vec':
                if find(c.args[1]).con == find(args[2]).con:
                    self.unify(c.args[1], args[2], e, n)
            return args[0]
        if fd.q in ('std::make_pair', 'std::make_tuple', 'std::tie'):
            return N('tup', [self.wrap(a) for a in args])
        if op in ('==', '!='):
            return N()
        return self.shape(e.get('t'))

    def assign(self, x, y, target, e):
        """a local variable may be reused for something of another kind: from here on it is that"""
        if target.get('k') == 'ref' and target['d'] in self.env and self.clash(x, y):
            self.env[target['d']] = y
            return
        self.unify(x, y, e, 'assignment')

    def wrap(self, n):
        return n

    def getidx(self, e, fd):
        for c in (e.get('ti'), fd.__dict__.get('ti')):
            if isinstance(c, int):
                return c
        import re
        m = re.search(r'get<(\d+)', fd.u if hasattr(fd, 'u') else '')
        return int(m.group(1)) if m else None
