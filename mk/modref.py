"""Interprocedural mod/ref ("effect") analysis over access paths.

A place is (root, fields): root is 'this', ('p', i), ('g', name), ('l', decl) for a local object or ('n', node) for an
object created here; pointers, references, smart pointers, iterators and container elements are transparent, so
`m_mesh->m_nodes[i].x` is this.m_mesh.m_nodes.x.  A write to the pointer itself ends in '='.
Summary of a function: written places (this/param/global), places its result may designate, and which of its
object's reference-like fields may designate which parameters (binds)."""
from .facts import walk

MAXLEN = 5
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::reference_wrapper', 'std::optional'}
# std:: member functions that are not const but do not write their object
NOWRITE = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data', 'operator[]', 'operator()', 'operator*', 'operator->', 'at', 'front', 'back',
           'find', 'get', 'size', 'empty', 'operator bool', 'lower_bound', 'upper_bound', 'value', 'has_value', 'equal_range', 'top', 'count', 'contains',
           'row', 'col', 'block', 'noalias', 'array', 'rowwise', 'colwise', 'transpose', 'lock', 'rdbuf', 'qbegin', 'qend', 'query', 'capacity', 'max_size',
           'base', 'c_str', 'length', 'rows', 'cols', 'value_or', 'native_handle', 'subspan', 'first', 'last'}
# std:: free functions that write nothing through their arguments
PUREFREE = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::min', 'std::max', 'std::abs', 'std::get', 'std::tie', 'std::addressof',
            'std::begin', 'std::end', 'std::size', 'std::ssize', 'std::next', 'std::prev', 'std::distance', 'std::make_pair', 'std::make_tuple', 'std::back_inserter',
            'std::accumulate', 'std::count', 'std::count_if', 'std::find', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::min_element',
            'std::max_element', 'std::minmax_element', 'std::equal', 'std::lower_bound', 'std::upper_bound', 'std::binary_search', 'std::inner_product',
            'std::for_each', 'std::adjacent_find', 'std::find_if_not', 'std::is_sorted', 'std::forward_as_tuple', 'std::make_unique', 'std::make_shared',
            'std::holds_alternative', 'std::get_if', 'std::search', 'std::mismatch', 'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::make_move_iterator',
            'std::ranges::find', 'std::ranges::find_if', 'std::ranges::any_of', 'std::ranges::all_of', 'std::ranges::none_of', 'std::ranges::count', 'std::ranges::size',
            'std::ranges::begin', 'std::ranges::end', 'std::ranges::min_element', 'std::ranges::max_element', 'std::ranges::for_each', 'std::ranges::equal',
            'std::ranges::contains', 'std::visit', 'std::advance', 'std::set_intersection', 'std::partial_sum_', 'std::clamp', 'std::minmax'}


def pl_add(p, *f):
    root, path = p
    if path and path[-1] == '=':
        path = path[:-1]
    for x in f:
        if x in path:              # recursive structures: fold
            path = path[:path.index(x) + 1]
        else:
            path = path + (x,)
    if len(path) > MAXLEN:
        path = path[:MAXLEN]
    return (root, path)


def refish(t):
    """a value of this type designates other storage"""
    if t is None:
        return True
    if t.ref or t.ptr:
        return True
    if t.rec is None:
        return False
    if t.rec in SMART or 'iterator' in t.rec.lower() or t.rec in ('std::span', 'std::basic_string_view'):
        return True
    if t.rec in ('std::tuple', 'std::pair'):
        return any((not isinstance(a, str)) and a is not None and refish(a) for a in (t.targs or []))
    return False


def is_ptrvar(t):
    return t is not None and not t.ref and (t.ptr or t.rec in SMART or (t.rec is not None and 'iterator' in t.rec.lower()) or t.rec == 'std::span')


def pointee_const(t):
    if t.ref or t.ptr:
        return bool(t.const) or bool(t.to is not None and t.to is not t and t.to.const)
    if t.rec in SMART and t.targs:
        a = t.targs[0]
        return (not isinstance(a, str)) and a is not None and bool(a.const)
    return False


class Summary:
    __slots__ = ('cast', 'writes', 'rets', 'binds', 'wsites')

    def __init__(self):
        self.writes = frozenset()
        self.cast = frozenset()
        self.rets = frozenset()
        self.binds = frozenset()   # (field path, place in params)
        self.wsites = {}

    def same(self, o):
        return self.writes == o.writes and self.rets == o.rets and self.binds == o.binds


class ModRef:
    def __init__(self, P, cut=None):
        self.P = P
        self.S = {}
        self.callers = {}
        self.cut = cut            # (function, written place) -> True: the effect is not passed on to callers
        self.run()

    # -------------------------------------------------------------- driver
    def targets(self, fd, node=None):
        """definitions a call may run"""
        out = []
        if fd.virt and not (node is not None and node.get('qual')):
            seen = []
            st = [fd]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.append(x)
                st.extend(x.overriders)
            out = [x.defn for x in seen if x.defn is not None]
        elif fd.defn is not None:
            out = [fd.defn]
        return out

    def field(self, q):
        r = self._fields.get(q, 0)
        if r == 0:
            r = None
            cls, _, n = q.rpartition('::')
            rec = self.P.recs_by_q.get(cls)
            if rec:
                for f in rec.fields:
                    if f['n'] == n:
                        r = (f['t'], bool(f.get('mut')))
            self._fields[q] = r
        return r

    def run(self):
        self._fields = {}
        for f in self.P.funcs:
            self.S[f] = Summary()
        work = list(self.P.funcs)
        inq = set(work)
        rounds = 0
        while work:
            rounds += 1
            if rounds > 60000:
                break
            f = work.pop()
            inq.discard(f)
            A = FuncModRef(self, f)
            s = A.run()
            if self.cut is not None:
                s.writes = frozenset(w for w in s.writes if not self.cut(f, w))
            for c in A.callees:
                self.callers.setdefault(c, set()).add(f)
            if not s.same(self.S[f]):
                self.S[f] = s
                for g in self.callers.get(f, ()):
                    if g not in inq:
                        inq.add(g)
                        work.insert(0, g)
            else:
                self.S[f] = s
        self.rounds = rounds

    def analyse(self, f):
        """final per-site effects: FuncModRef with .events"""
        A = FuncModRef(self, f)
        A.run()
        return A


class FuncModRef:
    def __init__(self, M, f):
        self.M = M
        self.f = f
        self.env = {}          # decl -> set of places (reference-like locals)
        self.bind = {}         # (place) -> set of places: reference-like members of local objects
        self.writes = {}       # place -> first node
        self.cast = set()      # places whose constness is cast away
        self.events = []       # (node, place, why)
        self.rets = set()
        self.callees = set()
        self.changed = True
        self.ptypes = {}
        self.cinfo = {}        # id(call) -> {definition: (places of the object, places of the arguments)}

    def run(self):
        f = self.f
        for i, p in enumerate(f.params):
            t = p['t']
            self.ptypes[p['d']] = t
            if t.ref or t.ptr or refish(t):
                self.env[p['d']] = {(('p', i), ())}
            else:
                self.env[p['d']] = {(('l', p['d']), ())}
                # a by-value parameter whose members point at caller storage
                self.byval = True
        self.byval_root = {p['d']: i for i, p in enumerate(f.params)}
        n = 0
        while self.changed and n < 6:
            n += 1
            self.changed = False
            self.events = []
            self.writes = {}
            self.binds = set()
            if f.inits is not None:
                for i in f.inits:
                    self.do_init(i)
            self.stmt(f.body)
        s = Summary()
        out = [p for p in self.writes if p[0] == 'this' or p[0][0] in ('p', 'g')]
        s.cast = frozenset(p for p in out if not self.writable(p) and any(c[0] == p[0] and p[1][:len(c[1])] == c[1] for c in self.cast))
        s.writes = frozenset(p for p in out if p in s.cast or self.writable(p))
        s.wsites = self.writes
        s.rets = frozenset(p for p in self.rets if p[0] == 'this' or p[0][0] in ('p', 'g'))
        s.binds = frozenset(self.binds)
        return s

    def addenv(self, d, ps):
        cur = self.env.setdefault(d, set())
        if not ps <= cur:
            cur |= ps
            self.changed = True

    def addbind(self, p, ps):
        ps = {x for x in ps if x != p}
        cur = self.bind.setdefault(p, set())
        if not ps <= cur:
            cur |= ps
            self.changed = True

    def do_init(self, i):
        e = i.get('e')
        if e is None:
            return
        if 'field' in i:
            ps = self.ev(e)
            if e['k'] == 'ctor' and ps:
                # member object constructed from arguments: keep its own binds below the field
                for q in ps:
                    for (b, tg) in list(self.bind.items()):
                        if b[0] == q[0] and q[0] != 'this':
                            for t in tg:
                                if t[0] != 'this' and t[0][0] in ('p', 'g'):
                                    self.binds.add(((i['field'],) + b[1], t))
            for p in ps:
                if p[0] != 'this' and p[0][0] in ('p', 'g'):
                    self.binds.add(((i['field'],), p))
        elif e['k'] == 'ctor':
            self.construct(e, e['f'], e['a'], ('this', ()))
        else:
            self.ev(e)

    def writable(self, p):
        """can this function write p without casting const away"""
        root, path = p
        if root == 'this':
            const = self.f.d.const
        elif root[0] == 'g':
            if root[1].startswith('std::'):
                return False
            g = self.M.P.globals.get(root[1])
            const = g is None or bool(g['t'].const)
        elif root[0] == 'p':
            t = self.f.params[root[1]]['t']
            const = pointee_const(t)
        else:
            return True
        for c in path:
            if c == '=':
                break
            ft = self.M.field(c)
            if ft is None:
                continue
            t, mut = ft
            if mut:
                const = False
            if t.ref or t.ptr or t.rec in SMART:
                if path[-1] == '=' and path[-2] == c:
                    break
                const = pointee_const(t)
            elif t.const:
                const = True
        return not const

    # -------------------------------------------------------------- writes
    def write(self, ps, node, why=''):
        for p in ps:
            self.writes.setdefault(p, node)
            self.events.append((node, p, why))

    def fld(self, p, q):
        r = pl_add(p, q)
        # substitute bound members of local objects
        out = set()
        for k in range(len(r[1]) + 1):
            key = (r[0], r[1][:k])
            if key in self.bind and k:
                for t in self.bind[key]:
                    x = t
                    for c in r[1][k:]:
                        x = pl_add(x, c)
                    out.add(x)
        out.add(r)
        return out

    # -------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'blk':
            for x in s['s']:
                self.stmt(x)
        elif k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'ret':
            if s.get('e') is not None:
                ps = self.ev(s['e'])
                if refish(self.f.d.ret) or (self.f.d.ret.rec is not None):
                    self.rets |= ps
        elif k == 'rfor':
            if 'init' in s:
                self.stmt(s['init'])
            r = self.ev(s['r'])
            v = s['var']
            t = v['t']
            if 'bind' in v:
                for b in v['bind']:
                    self.addenv(b['d'], set(r))
            if t is not None and (t.ref or is_ptrvar(t)):
                self.addenv(v['d'], set(r))
            else:
                self.addenv(v['d'], {(('l', v['d']), ())})
            self.stmt(s['body'])
        elif k == 'try':
            self.stmt(s['body'])
            for h in s['h']:
                self.stmt(h['body'])
        else:
            if 'cv' in s and isinstance(s['cv'], dict):
                self.decl(s['cv'])
            for key in ('init', 'c', 'inc', 'then', 'else', 'body', 's', 'e'):
                x = s.get(key)
                if isinstance(x, list):
                    for y in x:
                        self.any(y)
                elif x is not None:
                    self.any(x)

    STM = {'blk', 'decl', 'expr', 'ret', 'rfor', 'try', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'break', 'continue', 'nop', 'omp', 'ostmt', 'label', 'goto'}

    def any(self, x):
        if not isinstance(x, dict):
            return
        if x.get('k') in self.STM:
            self.stmt(x)
        elif 'k' in x:
            self.ev(x)

    def decl(self, v):
        t = v['t']
        ps = set()
        if v['d'][0] == 'g':
            if 'init' in v:
                self.ev(v['init'])
            return
        if 'init' in v:
            e = v['init']
            if e['k'] == 'ctor' and not refish(t) and not (e['f'].ctor in ('copy', 'move')):
                self.construct(e, e['f'], e['a'], (('l', v['d']), ()))
                self.addenv(v['d'], {(('l', v['d']), ())})
            else:
                ps = self.ev(e)
                if t is not None and (refish(t)):
                    self.addenv(v['d'], set(ps))
                else:
                    self.addenv(v['d'], {(('l', v['d']), ())})
                    # copy of an object: its reference-like members still designate the same storage
                    for p in ps:
                        if p[0] != 'this' and p[0][0] in ('n', 'l'):
                            for (b, tg) in list(self.bind.items()):
                                if b[0] == p[0] and b[1][:len(p[1])] == p[1]:
                                    self.addbind((('l', v['d']), b[1][len(p[1]):]), set(tg))
                    if e['k'] == 'lambda':
                        self.addenv(v['d'], set(ps))
        else:
            self.addenv(v['d'], {(('l', v['d']), ())})
        if 'bind' in v:
            for b in v['bind']:
                bt = b.get('t')
                if t is not None and t.ref or refish(bt):
                    self.addenv(b['d'], set(ps))
                else:
                    self.addenv(b['d'], {(('l', b['d']), ())})
                    if refish(t):
                        self.addenv(b['d'], set(ps))

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        """places designated by expression e"""
        if e is None:
            return set()
        k = e['k']
        if k == 'ref':
            d = e['d']
            if d[0] == 'g':
                return {(('g', d[2:]), ())}
            if d in self.env:
                return self.env[d]
            return set()
        if k == 'this':
            return {('this', ())}
        if k == 'mem':
            out = set()
            for p in self.ev(e['b']):
                out |= self.fld(p, e['f'])
            return out
        if k == 'call':
            return self.call(e)
        if k == 'ctor':
            fd = e['f']
            t = e.get('t')
            if fd.ctor in ('copy', 'move') and e['a']:
                ps = self.ev(e['a'][0])
                for x in e['a'][1:]:
                    self.ev(x)
                return set(ps)
            if t is not None and refish(t):
                out = set()
                for a in e['a']:
                    out |= self.ev(a)
                return out
            o = (('n', e['id']), ())
            self.construct(e, fd, e['a'], o)
            out = {o}
            if fd.sys or fd.cls in ('std::tuple', 'std::pair'):
                for a in e['a']:
                    if refish(a.get('t')) or a['k'] == 'lambda':
                        out |= self.ev(a)
            return out
        if k == 'asg':
            r = self.ev(e['y'])
            self.assign(e, e['x'], r, e['y'])
            return self.ev(e['x'])
        if k == 'un':
            ps = self.ev(e['e'])
            if e['op'][:2] in ('++', '--'):
                self.assign(e, e['e'], set(), None)
            return ps
        if k == 'bin':
            a = self.ev(e['x'])
            b = self.ev(e['y'])
            t = e.get('t')
            if e['op'] == ',':
                return b
            if t is not None and (t.ptr or t.rec):
                return a | b
            return set()
        if k == 'cond':
            self.ev(e['c'])
            return self.ev(e['x']) | self.ev(e['y'])
        if k == 'idx':
            self.ev(e['i'])
            return self.ev(e['b'])
        if k == 'cast':
            ps = self.ev(e['e'])
            if e.get('ck') == 'const' or e.get('ck') not in ('static', 'dynamic') and e.get('t') is not None and (e['t'].ptr or e['t'].ref) and not pointee_const(e['t']):
                self.cast |= set(ps)
            return ps
        if k == 'lambda':
            for c in e['caps']:
                if 'init' in c and isinstance(c['init'], dict):
                    self.addenv(c['d'], set(self.ev(c['init'])) or {(('l', c['d']), ())})
            for p in e['params']:
                t = p['t']
                if t is None or refish(t):
                    self.addenv(p['d'], set())
                else:
                    self.addenv(p['d'], {(('l', p['d']), ())})
            out = {(('lam', e['id']), ())}
            save = self.rets
            self.rets = set()
            if isinstance(e.get('body'), dict):
                self.stmt(e['body'])
            self.lamrets = getattr(self, 'lamrets', {})
            self.lamrets[e['id']] = self.rets
            self.rets = save
            self.lams = getattr(self, 'lams', {})
            self.lams[e['id']] = e
            return out
        if k in ('init', 'initlist'):
            out = set()
            t = e.get('t')
            o = (('n', e['id']), ())
            r = self.M.P.recs_by_q.get(t.rec) if t is not None and t.rec else None
            for i, a in enumerate(e['a']):
                ps = self.ev(a)
                if r is not None and i < len(r.fields):
                    if refish(r.fields[i]['t']):
                        self.addbind(pl_add(o, r.fields[i]['q']), set(ps))
                elif refish(a.get('t')):
                    out |= ps
            out.add(o)
            return out
        if k == 'new':
            for a in e['a']:
                self.ev(a)
            return {(('n', e['id']), ())}
        if k == 'throw':
            self.ev(e.get('e'))
            return set()
        out = set()
        for key, x in e.items():
            if isinstance(x, dict) and 'k' in x:
                out |= self.ev(x) if x['k'] not in self.STM else set()
                if x['k'] in self.STM:
                    self.stmt(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and 'k' in y:
                        if y['k'] in self.STM:
                            self.stmt(y)
                        else:
                            out |= self.ev(y)
        return out

    def assign(self, node, x, rps, y):
        """lvalue x is assigned"""
        if x['k'] == 'ref':
            d = x['d']
            if d[0] == 'g':
                self.write({(('g', d[2:]), ())}, node)
                return
            t = x.get('t')
            vt = self.vtype(d)
            if vt is not None and vt.ref:
                self.write(self.env.get(d, set()), node)
                return
            if is_ptrvar(t):
                self.addenv(d, set(rps))
                return
            self.write({(('l', d), ())}, node)
            self.copybinds((('l', d), ()), rps)
            return
        t = x.get('t')
        ps = self.ev(x)
        if is_ptrvar(t):
            self.write({(p[0], p[1] + ('=',)) for p in ps}, node)
            for p in ps:
                if p[0] != 'this' and p[0][0] in ('l', 'n') and p[1]:
                    self.addbind(p, set(rps))
                elif p[0] == 'this' and p[1]:
                    for q in rps:
                        if q[0] != 'this' and q[0][0] in ('p', 'g'):
                            self.binds.add((p[1], q))
        else:
            self.write(ps, node)

    def copybinds(self, dst, srcs):
        for p in srcs:
            if p[0] != 'this' and p[0][0] in ('n', 'l') and p != dst:
                for (b, tg) in list(self.bind.items()):
                    if b[0] == p[0] and b[1][:len(p[1])] == p[1]:
                        self.addbind((dst[0], dst[1] + b[1][len(p[1]):]), set(tg))

    def vtype(self, d):
        c = self.f.cache.get('vtypes')
        if c is None:
            c = {p['d']: p['t'] for p in self.f.params}
            for n in walk([self.f.body, self.f.inits or []]):
                if 'd' in n and 'n' in n and 't' in n and n.get('k') is None:
                    c[n['d']] = n['t']
            self.f.cache['vtypes'] = c
        return c.get(d)

    # -------------------------------------------------------------- calls
    def construct(self, node, fd, args, obj):
        aps = [self.ev(a) for a in args]
        fn = fd.defn
        if fn is None:
            if fd.sys or True:
                for a, p in zip(args, aps):
                    pass
            return
        self.apply(node, fd, [fn], {obj}, args, aps)

    def subst(self, place, objs, aps):
        root, path = place
        if root == 'this':
            base = objs
        elif root[0] == 'p':
            base = aps[root[1]] if root[1] < len(aps) else set()
        elif root[0] == 'g':
            return {place}
        else:
            return set()
        out = set()
        for b in base:
            cur = {b}
            for c in path:
                nxt = set()
                for x in cur:
                    if c == '=':
                        nxt.add((x[0], x[1] + ('=',)))
                    else:
                        nxt |= self.fld(x, c)
                cur = nxt
            out |= cur
        return out

    def apply(self, node, fd, defs, objs, args, aps):
        rets = set()
        for fn in defs:
            self.cinfo.setdefault(id(node), {})[fn] = (objs, aps)
            self.callees.add(fn)
            s = self.M.S[fn]
            for w in s.writes:
                self.write(self.subst(w, objs, aps), node, fn.d.q)
            for w in s.cast:
                self.cast |= self.subst(w, objs, aps)
            for r in s.rets:
                rets |= self.subst(r, objs, aps)
            for fpath, src in s.binds:
                for t in self.subst(src, objs, aps):
                    for o in objs:
                        p = o
                        for c in fpath:
                            p = pl_add(p, c)
                        if o[0] == 'this':
                            if t[0] != 'this' and t[0][0] in ('p', 'g'):
                                self.binds.add((p[1], t))
                        elif o[0][0] in ('l', 'n'):
                            self.addbind(p, {t})
        return rets

    def call(self, e):
        fd = e.get('f')
        objs = set()
        if 'o' in e:
            objs = self.ev(e['o'])
        elif 'fx' in e:
            objs = self.ev(e['fx'])
        args = e['a']
        aps = [self.ev(a) for a in args]
        lams = {}
        for ps in [objs] + aps:
            for p in ps:
                if p[0] != 'this' and p[0][0] == 'lam':
                    lams[p[0][1]] = self.lams.get(p[0][1])
        if fd is None or (fd.op == '()' and any(p[0] != 'this' and p[0][0] == 'lam' for p in objs)):
            # call of a closure: bind its parameters
            out = set()
            for lid, l in lams.items():
                if l is None:
                    continue
                for p, ps in zip(l['params'], aps):
                    if p['t'] is None or refish(p['t']):
                        self.addenv(p['d'], set(ps))
                out |= self.lamrets.get(lid, set())
            return out
        q, n = fd.q, fd.n
        defs = self.M.targets(fd, e)
        if defs:
            # closures passed down run with unknown arguments designating whatever the callee can reach
            rets = self.apply(e, fd, defs, objs, args, aps)
            return rets | self.newobj(e, fd)
        if lams:
            other = set()
            for a, ps in zip(args, aps):
                other |= {p for p in ps if p[0] == 'this' or p[0][0] != 'lam'}
            other |= {p for p in objs if p[0] == 'this' or p[0][0] != 'lam'}
            for l in lams.values():
                if l is None:
                    continue
                for p in l['params']:
                    if p['t'] is None or refish(p['t']):
                        self.addenv(p['d'], set(other))
        if q in ('std::make_unique', 'std::make_shared'):
            t = fd.ret.targs[0] if fd.ret.targs else None
            o = (('n', e['id']), ())
            r = self.M.P.records.get(t.s) if t is not None else None
            if r is not None:
                c = [m.defn for m in r.methods if m.ctor and m.ctor not in ('copy', 'move') and m.defn is not None and len(m.p) == len(args)]
                if c:
                    self.apply(e, c[0].d, c, {o}, args, aps)
            return {o}
        # standard library / no body
        wr = set()
        if fd.cls is not None and not fd.static and not fd.ctor:
            op = fd.op
            if op in ('=',) and fd.cls in SMART and 'o' in e:
                self.assign(e, e['o'], aps[0] if aps else set(), None)
                return objs
            if op == '=' and fd.cls in ('std::tuple', 'std::pair') and e['o']['k'] == 'call' and e['o'].get('f') is not None and e['o']['f'].q == 'std::tie':
                # std::tie(a, b) = f()
                for x in e['o']['a']:
                    if x['k'] == 'ref' and x['d'][0] == 'g' and x['d'][2:] == 'std::ignore':
                        continue
                    self.assign(e, x, aps[0] if aps else set(), None)
                return objs
            if n in ('reset', 'swap') and fd.cls in SMART and 'o' in e:
                self.assign(e, e['o'], aps[0] if aps else set(), None)
                if n == 'swap' and args:
                    self.assign(e, args[0], objs, None)
                return set()
            if op in ('=', '++', '--', '+=', '-=', '*=', '/=') and 'o' in e:
                it = is_ptrvar(e['o'].get('t'))
                if it:
                    if op == '=':
                        self.assign(e, e['o'], aps[0] if aps else set(), None)
                else:
                    self.assign(e, e['o'], aps[0] if aps else set(), None)
            elif not fd.const and n not in NOWRITE and not (fd.cls in SMART):
                wr |= objs
                for i, (a, ps) in enumerate(zip(args, aps)):
                    pt = fd.p[i] if i < len(fd.p) else None
                    if n == 'swap' or (n in ('splice', 'merge') and pt is not None and pt.ref and not pt.const):
                        wr |= ps
                # elements stored in a container of references/pointers
                for o in objs:
                    if o[0] != 'this' and o[0][0] in ('l', 'n'):
                        for a, ps in zip(args, aps):
                            if refish(a.get('t')) or a.get('t') is None:
                                pass
        elif q in ('std::swap', 'std::ranges::swap', 'std::exchange') and len(args) == 2:
            self.assign(e, args[0], aps[1], None)
            if q != 'std::exchange':
                self.assign(e, args[1], aps[0], None)
        elif q not in PUREFREE and not (fd.op in ('==', '!=', '<', '>', '+', '-', '<=', '>=', '*', '/', '<<', '<=>', '|')):
            for i, (a, ps) in enumerate(zip(args, aps)):
                pt = fd.p[i] if i < len(fd.p) else None
                at = a.get('t')
                if pt is None:
                    continue
                if (pt.ref == 1 or pt.ref == 2) and not pt.const and a.get('lv') and not (pt.to is not None and pt.to.const):
                    wr |= ps
                elif pt.ptr and not pt.const and not (pt.to is not None and pt.to.const):
                    wr |= ps
                elif pt.rec is not None and 'iterator' in pt.rec.lower() and 'const' not in pt.s.split('<')[0]:
                    if not _const_iter(pt):
                        wr |= ps
        elif fd.op in ('<<',) and args:
            wr |= aps[0]
        if wr:
            self.write({p for p in wr if p[0] == 'this' or p[0][0] != 'lam'}, e, q)
        rt = fd.ret
        if rt is not None and (refish(rt) or rt.rec is not None):
            out = set(objs)
            for a, ps in zip(args, aps):
                if objs and (fd.op in ('[]', '()') or n in ('at', 'row', 'col', 'block', 'find')):
                    continue
                if refish(a.get('t')) or a.get('lv'):
                    out |= {p for p in ps}
            return {p for p in out if p[0] == 'this' or p[0][0] != 'lam'} | self.newobj(e, fd)
        return set()

    def newobj(self, e, fd):
        if fd.ret is not None and fd.ret.rec is not None and not fd.ret.ref:
            return {(('n', e['id']), ())}
        return set()


def _const_iter(t):
    s = t.s
    if '__normal_iterator' in s or 'iterator' in s:
        inner = s[s.find('<') + 1:]
        return inner.lstrip().startswith('const ') or 'const_iterator' in s or 'const_iterator' in s
    return False
