"""Forward dataflow over the resolved AST with a disjunctive ("powerset") abstract
state: access paths, branch facts and a rule-specific typestate component, with
context-sensitive inlining of the callees a rule asks for and fixpoint iteration on
loops.  Joins merge states that agree on the typestate component (ESP style)."""
from .facts import walk

MAXSTATES = 40
MAXDEPTH = 9          # term depth, deeper terms are collapsed


def tdepth(t, lim=MAXDEPTH):
    if not isinstance(t, tuple):
        return 0
    d = 0
    for x in t:
        if isinstance(x, tuple):
            d = max(d, tdepth(x, lim))
    return d + 1


_has = {}


def contains(t, p):
    """does term t mention path p"""
    if t == p:
        return True
    if not isinstance(t, tuple):
        return False
    k = (id(t), id(p))
    for x in t:
        if isinstance(x, tuple) and contains(x, p):
            return True
    return False


def root(t):
    while isinstance(t, tuple) and t and t[0] in ('fld', 'el', 'deref', 'it'):
        t = t[1]
    return t


class State:
    __slots__ = ('store', 'facts', 'aux', 'hav')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.aux = {}
        self.hav = {}

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.aux = dict(self.aux)
        s.hav = dict(self.hav)
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.aux.items()), frozenset(self.hav.items()))

    def auxkey(self):
        return frozenset(self.aux.items())


class Frame:
    __slots__ = ('fn', 'this', 'ctx', 'depth')

    def __init__(self, fn, this, ctx, depth):
        self.fn = fn
        self.this = this
        self.ctx = ctx
        self.depth = depth


class Out:
    __slots__ = ('n', 'brk', 'cont', 'ret')

    def __init__(self, n=None):
        self.n = n or []
        self.brk = []
        self.cont = []
        self.ret = []


NULL = ('null',)
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__uniq_ptr_impl', 'std::__shared_ptr_access', 'std::weak_ptr', 'std::optional')
CONT = ('std::vector', 'std::array', 'std::deque', 'std::list', 'std::basic_string', 'std::span', 'std::__cxx11::basic_string',
        'std::__cxx11::list', 'std::_Vector_base', 'std::basic_string_view', 'lin_alg::Matrix', 'Eigen::Matrix', 'Eigen::PlainObjectBase',
        'Eigen::DenseCoeffsBase', 'Eigen::DenseBase', 'Eigen::EigenBase')
MAPS = ('std::unordered_map', 'std::map', 'std::set', 'std::unordered_set', 'std::multimap')
CONT_MUT = {'push_back', 'emplace_back', 'resize', 'clear', 'insert', 'erase', 'assign', 'pop_back', 'pop_front', 'push_front', 'emplace_front', 'emplace',
            'swap', 'shrink_to_fit', 'fill', 'splice', 'remove', 'remove_if', 'sort', 'reverse', 'unique', 'append', 'insert_or_assign', 'try_emplace', 'merge'}


def is_smart(t):
    return t is not None and t.rec in ('std::unique_ptr', 'std::shared_ptr') and not t.ptr


def is_recval(t):
    """by-value class type that has identity (not pointer-like, not tuple)"""
    return t is not None and t.rec and not t.ptr and not t.ref and t.rec not in ('std::unique_ptr', 'std::shared_ptr', 'std::tuple', 'std::pair',
                                                                                 'std::optional', '<lambda>')


NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}


class Flow:
    maxdepth = MAXDEPTH
    """subclass and override the hooks"""
    max_inline = 6

    def __init__(self, P):
        self.P = P
        self.exc = [[]]
        self.cur_exc = []
        self.lambdas = {}
        self.frames = []
        self.site_n = 0
        self.steps = 0
        self.budget = 400000

    # ------------------------------------------------------------ hooks
    def want_inline(self, fd, fn, node, st):
        return False

    def on_call(self, node, fd, obj, args, st):
        """return None (default handling) or a list of (state, value)"""
        return None

    def on_write(self, path, val, st, node):
        pass

    def on_havoc(self, path, st, node, why):
        pass

    def on_deref(self, v, st, node):
        pass

    def on_read(self, path, st, node):
        pass

    def on_element(self, base, idx, st, node, kind):
        pass

    def on_discard(self, node, val, st):
        """value of an expression statement"""
        pass

    def on_decl(self, var, val, st):
        pass

    def on_throw(self, node, st, ty):
        pass

    def on_opaque(self, node, fd, obj, args, st):
        """after an opaque (not inlined) call with repo-unknown effects"""
        pass

    def opaque_throws(self, fd):
        if fd is None:
            return True
        if fd.nx == 1 or fd.c:
            return False
        return True

    # ------------------------------------------------------------ helpers
    def frame(self):
        return self.frames[-1]

    def site(self, node):
        return (node['id'],) + self.frame().ctx

    def mk(self, t):
        if tdepth(t) > self.maxdepth:
            return ('top', hash(t) & 0xffffffff)
        return t

    def load(self, st, p, node=None):
        self.on_read(p, st, node)
        return self.load0(st, p)

    def load0(self, st, p, n=0):
        if n > 12:
            return ('top', 'cyc')
        v = st.store.get(p)
        if v is not None:
            if v[0] == 'ref':
                return self.load0(st, v[1], n + 1) if v[1] != p else v[1]
            if v[0] == 'copy':
                return p
            return v
        # a copied prefix
        if isinstance(p, tuple) and p[0] in ('fld', 'el'):
            b = p[1]
            chain = [p]
            while True:
                w = st.store.get(b)
                if w is not None and w[0] in ('copy',):
                    q = w[1]
                    for c in reversed(chain):
                        q = (c[0], q) + c[2:]
                    return self.load0(st, q, n + 1) if q != p else q
                if b in st.hav:
                    return ('at', st.hav[b], p)
                if isinstance(b, tuple) and b[0] in ('fld', 'el'):
                    chain.append(b)
                    b = b[1]
                else:
                    break
        if p in st.hav:
            return ('at', st.hav[p], p)
        return p

    def kill(self, st, p, fresh=False):
        """forget everything known about path p and below (reference members stay bound unless the object is created anew)"""
        for k in [k for k in st.store if k != p and contains(k, p)]:
            v = st.store[k]
            if v[0] == 'ref' and (k[0] == 'v' or (k[0] == 'fld' and not fresh)):
                continue
            del st.store[k]
        for k in [k for k, v in st.store.items() if v[0] not in ('ref', 'copy', 'addr', 'c') and v[0] == 'size' and contains(v, p)]:
            st.store[k] = ('at', ('k',), st.store[k])
        for k in [k for k in st.facts if contains(k, p)]:
            del st.facts[k]

    def write(self, st, p, v, node):
        self.on_write(p, v, st, node)
        self.kill(st, p)
        st.hav.pop(p, None)
        if p and p[0] == 'top':
            return
        st.store[p] = v

    def havoc(self, st, p, node, why='call'):
        self.on_havoc(p, st, node, why)
        self.kill(st, p)
        st.store.pop(p, None)
        st.hav[p] = self.site(node)

    def deref(self, v, st, node):
        self.on_deref(v, st, node)
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'new':
            return ('obj',) + v[1:]
        if v[0] == 'it':
            return self.mk(('el', v[1], ('top', 'it')))
        return self.mk(('deref', v))

    def tup(self, v, i):
        if v[0] == 'tuple' and i < len(v) - 1:
            return v[1 + i]
        return ('get', i, v)

    # ------------------------------------------------------------ conditions
    def atom(self, v, ty=None):
        """normalise a value used as a condition to (atom, polarity) or a bool"""
        if v[0] == 'c':
            return bool(v[1])
        if v == NULL:
            return False
        if v[0] in ('new', 'addr'):
            return True
        if v[0] == 'op':
            op = v[1]
            if op == '!':
                r = self.atom(v[2])
                if isinstance(r, bool):
                    return not r
                return (r[0], not r[1])
            if op in ('<', '>', '<=', '>=', '==', '!='):
                a, b = v[2], v[3]
                if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
                    return {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1], '==': a[1] == b[1], '!=': a[1] != b[1]}[op]
                if op in ('==', '!='):
                    if a == b:
                        return op == '=='
                    for x, y in ((a, b), (b, a)):
                        if y == NULL and x[0] in ('new', 'addr'):
                            return op == '!='
                    # comparison with a bool constant
                    for x, y in ((a, b), (b, a)):
                        if y[0] == 'c' and isinstance(y[1], bool):
                            r = self.atom(x)
                            if isinstance(r, bool):
                                return (r == y[1]) == (op == '==')
                            return (r[0], r[1] == (y[1] == (op == '==')))
                    # iterator from map.find compared with map.end
                    for x, y in ((a, b), (b, a)):
                        if x[0] == 'find' and y == ('mend', x[1]):
                            return (('t', ('contains', x[1], x[2])), op == '!=')
                    key = ('==',) + tuple(sorted((a, b), key=repr))
                    for x, y in ((a, b), (b, a)):
                        if x[0] == 'op' and x[1] == 'b2i' and y[0] == 'c' and y[1] in (0, 1):
                            return (('t', x[2]), (y[1] == 1) == (op == '=='))
                    return (key, op == '==')
                if a[0] == 'op' and a[1] == 'b2i' and b[0] == 'c':
                    if (op, b[1]) in (('>', 0), ('>=', 1)):
                        return (('t', a[2]), True)
                    if (op, b[1]) in (('<', 1), ('<=', 0)):
                        return (('t', a[2]), False)
                if b[0] == 'op' and b[1] == 'b2i' and a[0] == 'c':
                    if (op, a[1]) in (('<', 0), ('<=', 1)):
                        return (('t', b[2]), True)
                    if (op, a[1]) in (('>', 1), ('>=', 0)):
                        return (('t', b[2]), False)
                if op == '<':
                    return (('<', a, b), True)
                if op == '>':
                    return (('<', b, a), True)
                if op == '>=':
                    return (('<', a, b), False)
                if op == '<=':
                    return (('<', b, a), False)
        if v[0] == 'op' and v[1] == 'b2i':
            return (('t', v[2]), True)
        if ty is not None and (ty.ptr or is_smart(ty)):
            return (('==',) + tuple(sorted((v, NULL), key=repr)), False)
        if ty is not None and ty.b in ('int', 'uint'):
            return (('==',) + tuple(sorted((v, ('c', 0)), key=repr)), False)
        return (('t', v), True)

    def assume_val(self, st, v, truth, ty=None):
        r = self.atom(v, ty)
        if isinstance(r, bool):
            return [st] if r == truth else []
        a, pol = r
        want = (pol == truth)
        known = st.facts.get(a)
        if known is None:
            known = self.entailed(st, a)
        if known is not None:
            return [st] if known == want else []
        s = st.copy()
        s.facts[a] = want
        self.on_fact(s, a, want)
        return [s]

    def on_fact(self, st, atom, val):
        pass

    def entailed(self, st, a):
        """truth of atom a from other facts, or None"""
        if a[0] == '<':
            # a<b known false from b<a / a==b
            if st.facts.get(('<', a[2], a[1])) is True:
                return False
            if st.facts.get(('==',) + tuple(sorted((a[1], a[2]), key=repr))) is True:
                return False
            if a[2] == ('c', 0) and a[1][0] == 'size':
                return False
        if a[0] == '==':
            if st.facts.get(('<', a[1], a[2])) is True or st.facts.get(('<', a[2], a[1])) is True:
                return False
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] == 'c':
                    # x equal to another constant
                    for f, val in st.facts.items():
                        if val and f[0] == '==' and x in f[1:] and f != a:
                            o = f[1] if f[2] == x else f[2]
                            if o[0] == 'c' and o != y:
                                return False
        return None

    def assume(self, e, truth, st):
        """states in which condition e evaluates to truth"""
        self.tick()
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return self.assume(e['e'], not truth, st)
        if k == 'bin' and e['op'] in ('&&', '||'):
            conj = (e['op'] == '&&') == truth
            if conj:
                out = []
                for s in self.assume(e['x'], truth, st):
                    out += self.assume(e['y'], truth, s)
                return self.limit(out)
            out = self.assume(e['x'], truth, st)
            for s in self.assume(e['x'], not truth, st):
                out += self.assume(e['y'], truth, s)
            return self.limit(out)
        out = []
        for s, v in self.rv(e, st):
            out += self.assume_val(s, v, truth, e.get('t'))
        return out

    # ------------------------------------------------------------ joins
    def join2(self, a, b):
        s = State()
        s.aux = dict(a.aux)
        for k, v in a.store.items():
            w = b.store.get(k)
            if w == v:
                s.store[k] = v
            elif k[0] == 'v' and (v[0] == 'ref' or (w is not None and w[0] == 'ref')):
                s.store[k] = v if w is None else ('ref', ('top', 'jref', k))
                if w is None:
                    s.store[k] = v
            else:
                s.store[k] = ('top', 'j', k)
        for k, w in b.store.items():
            if k not in a.store:
                s.store[k] = ('top', 'j', k) if not (k[0] == 'v') else w
        for k, v in a.facts.items():
            if b.facts.get(k) == v and not self._mentions_top_of(k, s, a, b):
                s.facts[k] = v
        s.hav = dict(a.hav)
        s.hav.update(b.hav)
        return s

    def _mentions_top_of(self, k, s, a, b):
        return False

    def limit(self, states, cap=MAXSTATES):
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        states = list(seen.values())
        if len(states) <= cap:
            return states
        return self.merge(states)

    def merge(self, states):
        groups = {}
        for s in states:
            k = s.auxkey()
            groups[k] = self.join2(groups[k], s) if k in groups else s
        return list(groups.values())

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def throw(self, st, ty):
        lst = self.exc[-1]
        for i, (s, t) in enumerate(lst):
            if t == ty and s.aux == st.aux:
                if s.key() != st.key():
                    lst[i] = (self.join2(s, st), t)
                return
        lst.append((st, ty))

    # ------------------------------------------------------------ expressions
    def rv(self, e, st):
        """(state, value) of e as an rvalue"""
        if e is None:
            return [(st, ('top', 'none'))]
        if e['k'] == 'ref' and 'cv' in e:
            return [(st, ('c', e['cv']))]
        res = self.ev(e, st)
        if e.get('lv'):
            return [(s, self.load(s, p, e)) for s, p in res]
        return res

    def evs(self, es, st, f):
        """evaluate a list of expressions left to right"""
        res = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in f(e, s):
                    nxt.append((s2, vs + (v,)))
            if len(nxt) > MAXSTATES:
                nxt = nxt[:MAXSTATES]
            res = nxt
        return res

    def ev(self, e, st):
        self.tick()
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            return [(st, ('top', self.site(e)))]
        return m(e, st)

    def ev_ref(self, e, st):
        d = e['d']
        if d[0] == 'g':
            return [(st, ('g', d[2:]))]
        p = ('v', d)
        v = st.store.get(p)
        if v is not None and v[0] == 'ref':
            return [(st, v[1])]
        return [(st, p)]

    def ev_fref(self, e, st):
        return [(st, ('fn', e['f'].u))]

    def ev_mfref(self, e, st):
        return [(st, ('fn', e['f'].u))]

    def ev_enum(self, e, st):
        return [(st, ('c', e['v']))]

    def ev_lit(self, e, st):
        return [(st, ('c', e['v']))]

    def ev_str(self, e, st):
        return [(st, ('c', e['v']))]

    def ev_null(self, e, st):
        return [(st, NULL)]

    def ev_zero(self, e, st):
        t = e.get('t')
        if t is not None and (t.ptr or is_smart(t)):
            return [(st, NULL)]
        return [(st, ('c', 0))]

    def ev_this(self, e, st):
        return [(st, ('addr', self.frame().this))]

    def ev_srcloc(self, e, st):
        return [(st, ('c', 'loc'))]

    def ev_sizeof(self, e, st):
        return [(st, ('c', 8))]

    def ev_mem(self, e, st):
        out = []
        if e.get('arrow'):
            bs = [(s, self.deref(v, s, e)) for s, v in self.rv(e['b'], st)]
        else:
            bs = self.ev(e['b'], st)
        for s, b in bs:
            if b[0] == 'copyof':
                b = b[1]
            if b[0] == 'deref' and b[1][0] == 'find' and e['n'] == 'second':
                self.on_element(b[1][1], b[1][2], s, e, 'map')
                out.append((s, ('el', b[1][1], b[1][2])))
                continue
            p = self.mk(('fld', b, e['f']))
            v = s.store.get(p)
            if v is not None and v[0] == 'ref':
                p = v[1]
            elif e['n'] in ('first', 'second') and b[0] in ('tuple', 'ret', 'get'):
                v = self.tup(b, 0 if e['n'] == 'first' else 1)
                p = v
            out.append((s, p))
        return out

    def ev_idx(self, e, st):
        out = []
        for s, b in self.rv(e['b'], st):
            for s2, i in self.rv(e['i'], s):
                base = self.deref(b, s2, e) if (e['b'].get('t') is not None and e['b']['t'].ptr) else b
                if e['b'].get('t') is not None and e['b']['t'].arr and e['b'].get('lv'):
                    base = b
                self.on_element(base, i, s2, e, 'raw')
                out.append((s2, self.mk(('el', base, i))))
        return out

    def ev_cast(self, e, st):
        if e.get('lv'):
            return self.ev(e['e'], st) if e['e'].get('lv') else self.rv(e['e'], st)
        t = e.get('t')
        out = []
        for s, v in self.rv(e['e'], st):
            if t is not None and t.b in ('int', 'uint') and v[0] == 'c' and isinstance(v[1], float):
                v = ('c', int(v[1]))
            st_ = e['e'].get('t')
            if t is not None and st_ is not None and t.b in ('int', 'uint') and st_.b == 'float' and v[0] != 'c':
                v = ('op', 'trunc', v)
            out.append((s, v))
        return out

    def ev_un(self, e, st):
        op = e['op']
        out = []
        if op in ('++', '--', '++post', '--post'):
            for s, p in self.ev(e['e'], st):
                s = s.copy()
                old = self.load(s, p, e)
                o = op[:1]
                new = self.arith(o, old, ('c', 1))
                self.write(s, p, new, e)
                out.append((s, (p if e.get('lv') else new) if not op.endswith('post') else old))
            return out
        if op == '&':
            if e['e']['k'] in ('fref', 'mfref'):
                return self.ev(e['e'], st)
            return [(s, ('addr', p)) for s, p in self.ev(e['e'], st)]
        if op == '*':
            return [(s, self.deref(v, s, e)) for s, v in self.rv(e['e'], st)]
        for s, v in self.rv(e['e'], st):
            if op == '!':
                r = self.atom(v, e['e'].get('t'))
                if isinstance(r, bool):
                    out.append((s, ('c', not r)))
                else:
                    out.append((s, self.mk(('op', '!', v)) if e['e'].get('t') is None or e['e']['t'].b == 'bool' else self.mk(('op', '==', v, NULL if (e['e']['t'].ptr or is_smart(e['e']['t'])) else ('c', 0)))))
            elif op == '-' and v[0] == 'c' and isinstance(v[1], (int, float)):
                out.append((s, ('c', -v[1])))
            else:
                out.append((s, self.mk(('op', 'u' + op, v))))
        return out

    def arith(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c' and type(a[1]) in (int, float) and type(b[1]) in (int, float):
            try:
                if op == '+':
                    return ('c', a[1] + b[1])
                if op == '-':
                    return ('c', a[1] - b[1])
                if op == '*':
                    return ('c', a[1] * b[1])
            except Exception:
                pass
        # (x + c1) +- c2
        if op in '+-' and b[0] == 'c' and a[0] == 'op' and a[1] in '+-' and len(a) == 4 and a[3][0] == 'c' and type(b[1]) is int and type(a[3][1]) is int:
            n = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
            if n == 0:
                return a[2]
            return ('op', '+', a[2], ('c', n)) if n > 0 else ('op', '-', a[2], ('c', -n))
        return self.mk(('op', op, a, b))

    def ev_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            out = [(s, ('c', True)) for s in self.assume(e, True, st)]
            out += [(s, ('c', False)) for s in self.assume(e, False, st)]
            return out
        out = []
        if op == ',':
            for s, _ in self.ev(e['x'], st):
                out += self.ev(e['y'], s)
            return out
        for s, a in self.rv(e['x'], st):
            for s2, b in self.rv(e['y'], s):
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    v = ('op', op, a, b)
                    r = self.atom(v)
                    out.append((s2, ('c', r) if isinstance(r, bool) else self.mk(v)))
                else:
                    out.append((s2, self.arith(op, a, b)))
        return out

    def ev_asg(self, e, st):
        out = []
        op = e['op']
        for s, v in self.rv(e['y'], st):
            for s2, p in self.ev(e['x'], s):
                s2 = s2.copy()
                if op == '=':
                    w = v
                else:
                    w = self.arith(op[:-1], self.load(s2, p, e), v)
                self.write(s2, p, w, e)
                out.append((s2, p))
        return out

    def ev_cond(self, e, st):
        out = []
        f = self.ev if e.get('lv') else self.rv
        for truth, br in ((True, e['x']), (False, e['y'])):
            for s in self.assume(e['c'], truth, st):
                out += f(br, s)
        return out

    def ev_throw(self, e, st):
        if e.get('e') is not None:
            ty = e['tt']
            for s, _ in self.ev(e['e'], st):
                self.on_throw(e, s, ty)
                self.throw(s, ty.rec or ty.s)
        else:
            self.on_throw(e, st, None)
            self.throw(st, self.cur_exc[-1] if self.cur_exc else 'any')
        return []

    def ev_new(self, e, st):
        out = []
        for s, vs in self.evs(e['a'], st, self.rv):
            out.append((s, ('new', self.site(e), e['at'].s)))
        return out

    def ev_delete(self, e, st):
        return [(s, ('top', 'del')) for s, v in self.rv(e['e'], st)]

    def ev_lambda(self, e, st):
        self.lambdas[e['id']] = (e, self.frame())
        return [(st, ('lam', e['id']))]

    def ev_init(self, e, st):
        t = e.get('t')
        res = self.evs(e['a'], st, self.rv)
        if t is not None and t.rec and not t.ptr:
            r = self.P.recs_by_q.get(t.rec)
            out = []
            for s, vs in res:
                if t.rec in ('std::pair', 'std::tuple'):
                    out.append((s, ('tuple',) + vs))
                    continue
                o = ('obj', self.site(e), t.s)
                s = s.copy()
                self.kill(s, o, True)
                if r is not None:
                    for f, v in zip(r.fields, vs):
                        s.store[('fld', o, f['q'])] = v
                out.append((s, o))
            return out
        if len(e['a']) == 1:
            return [(s, vs[0]) for s, vs in res]
        if not e['a']:
            return self.ev_zero(e, st)
        return [(s, ('tuple',) + vs) for s, vs in res]

    def ev_initlist(self, e, st):
        return [(s, ('tuple',) + vs) for s, vs in self.evs(e['a'], st, self.rv)]

    def ev_stmtexpr(self, e, st):
        o = self.exec(e['s'], [st])
        return [(s, ('top', self.site(e))) for s in o.n]

    def ev_other(self, e, st):
        return [(s, ('top', self.site(e))) for s, _ in self.evs(e.get('a', []), st, self.rv)]

    # ------------------------------------------------------------ construction
    def ev_ctor(self, e, st):
        fd = e['f']
        t = e['t']
        args = e['a']
        kind = fd.ctor
        rec = t.rec if t is not None else None
        if kind in ('copy', 'move') and len(args) >= 1:
            out = []
            a = args[0]
            for s, p in self.ev(a, st):
                if not a.get('lv'):
                    out.append((s, p))
                    continue
                if is_recval(t.to if t.ref else t):
                    o = ('obj', self.site(e), t.s)
                    s = s.copy()
                    self.kill(s, o, True)
                    s.store[o] = ('copy', p)
                    self.on_copy(e, p, o, s)
                    out.append((s, o))
                    continue
                v = self.load(s, p, e)
                if kind == 'move':
                    s = s.copy()
                    self.on_move(p, v, s, e)
                    s.store[p] = NULL if rec in SMART else ('moved',)
                out.append((s, v))
            return out
        if rec in ('std::unique_ptr', 'std::shared_ptr'):
            if not args or (len(args) == 1 and args[0]['k'] == 'null'):
                return [(st, NULL)]
            out = []
            for s, p in self.ev(args[0], st):
                if args[0].get('lv'):
                    v = self.load(s, p, e)
                    at = args[0].get('t')
                    # converting move: unique_ptr<Base>(unique_ptr<Derived>&&)
                    if at is not None and at.rec in SMART and (args[0]['k'] == 'call'):
                        s = s.copy()
                        self.on_move(p, v, s, e)
                        if at.rec == 'std::unique_ptr' or True:
                            s.store[p] = NULL if at.rec == 'std::unique_ptr' or _is_move(args[0]) else v
                else:
                    v = p
                out.append((s, v))
            return out
        if rec in ('std::tuple', 'std::pair'):
            out = []
            for s, vs in self.evs(args, st, self.rv):
                # converting constructor from another tuple/pair
                if len(vs) == 1 and args[0].get('t') is not None and (args[0]['t'].rec in ('std::tuple', 'std::pair')):
                    out.append((s, vs[0]))
                else:
                    out.append((s, ('tuple',) + vs))
            return out
        # generic object
        out = []
        fn = fd.defn
        for s, ps in self.evs(args, st, self.argval):
            o = ('obj', self.site(e), t.s if t is not None else '')
            s = s.copy()
            self.kill(s, o, True)
            s.store.pop(o, None)
            s.hav.pop(o, None)
            r = self.on_call(e, fd, o, ps, s)
            if r is not None:
                out += r
                continue
            if fn is not None and self.can_inline(fd, fn, e, s):
                for s2, _ in self.inline(fn, s, o, ps, e):
                    out.append((s2, o))
            else:
                if fn is not None:
                    self.bind_ctor_refs(fn, s, o, ps)
                s = self.opaque(e, fd, o, ps, s)
                out.append((s, o))
        return out

    def on_copy(self, node, src, dst, st):
        pass

    def on_move(self, p, v, st, node):
        pass

    def bind_ctor_refs(self, fn, st, o, args):
        """without inlining a constructor, remember which reference/pointer members alias its arguments"""
        if not fn.inits:
            return
        amap = {p['d']: a for p, a in zip(fn.params, args)}
        for i in fn.inits:
            if 'field' in i and i.get('e') is not None:
                x = i['e']
                addr = False
                if x['k'] == 'un' and x['op'] == '&':
                    x = x['e']
                    addr = True
                y = x
                if y['k'] == 'ctor' and len(y['a']) == 1:
                    y = y['a'][0]
                if y['k'] == 'call' and len(y['a']) == 1 and y.get('f') is not None and y['f'].q == 'std::move':
                    y = y['a'][0]
                if y['k'] == 'ref' and y['d'] in amap:
                    a = amap[y['d']]
                    fld = ('fld', o, i['field'])
                    fty = self.field_type(i['field'])
                    if addr:
                        st.store[fld] = ('addr', a[1]) if a[0] == 'L' else a[1]
                    elif fty is not None and fty.ref:
                        st.store[fld] = ('ref', a[1]) if a[0] == 'L' else a[1]
                    else:
                        st.store[fld] = self.load0(st, a[1]) if a[0] == 'L' else a[1]

    def field_type(self, q):
        cls, n = q.rsplit('::', 1)
        r = self.P.recs_by_q.get(cls)
        if r:
            for f in r.fields:
                if f['n'] == n:
                    return f['t']
        return None

    # arguments are tagged: ('L', lvalue path) or ('R', value)
    def argval(self, e, st):
        if e.get('lv') and not (e['k'] == 'ref' and 'cv' in e):
            return [(s, ('L', p)) for s, p in self.ev(e, st)]
        return [(s, ('R', v)) for s, v in self.rv(e, st)]

    def aval(self, st, a):
        return self.load0(st, a[1]) if a[0] == 'L' else a[1]

    # ------------------------------------------------------------ calls
    def ev_call(self, e, st):
        fd = e.get('f')
        out = []
        # object
        if 'o' in e:
            o = e['o']
            if e.get('arrow'):
                objs = [(s, self.deref(v, s, e)) for s, v in self.rv(o, st)]
            elif o.get('lv'):
                objs = self.ev(o, st)
            else:
                objs = self.rv(o, st)
        elif 'fx' in e:
            objs = self.rv(e['fx'], st)
        else:
            objs = [(st, None)]
        for s, ob in objs:
            for s2, args in self.evs(e['a'], s, self.argval):
                out += self.call(e, fd, ob, list(args), s2)
        return out

    def call(self, e, fd, ob, args, st):
        if fd is None:
            if ob is not None and ob[0] == 'lam':
                return self.call_lambda(e, ob, args, st)
            st = self.opaque(e, None, ob, args, st)
            return [(st, ('ret', self.site(e)))]
        if ob is not None and fd.op == '()':
            l = ob
            for _ in range(4):
                if l[0] == 'lam':
                    return self.call_lambda(e, l, args, st)
                n = l[1] if l[0] in ('ref', 'copy') else self.load0(st, l)
                if n == l or not isinstance(n, tuple):
                    break
                l = n
        r = self.on_call(e, fd, ob, args, st)
        if r is not None:
            return r
        r = self.model(e, fd, ob, args, st)
        if r is not None:
            return r
        fn = fd.defn
        if fn is not None and not (fd.virt and not e.get('qual') and fd.overriders) and self.can_inline(fd, fn, e, st):
            return self.inline(fn, st, ob, args, e)
        return self.default_call(e, fd, ob, args, st)

    def default_call(self, e, fd, ob, args, st):
        pure = self.is_pure(fd, args)
        if fd.ret.b == 'void' and not fd.ret.ptr:
            pure = False
        if pure:
            v = self.mk(('call', fd.q, ob) + tuple(self.aval(st, a) for a in args))
            st = self.opaque(e, fd, ob, args, st)
        else:
            st = self.opaque(e, fd, ob, args, st)
            v = ('ret', self.site(e))
            if fd.ret.ref == 1:
                v = self.mk(('rfld', fd.q, ob) + tuple(self.aval(st, a) for a in args))
        return [(st, v)]

    def is_pure(self, fd, args):
        if fd.cls is not None and not fd.static and not fd.const:
            return False
        for p in fd.p:
            if (p.ref == 1 or p.ptr) and not p.const:
                return False
            if p.ref == 2:
                return False
        return True

    def opaque(self, e, fd, ob, args, st):
        """effects of a call that is not looked into"""
        if self.opaque_throws(fd):
            self.throw(st, 'any')
        s = st.copy()
        # closures run an unknown number of times
        for a in args:
            v = a[1]
            if a[0] == 'R' and v[0] == 'lam':
                s = self.run_closure(e, v, s)
        self.on_opaque(e, fd, ob, args, s)
        if fd is None or (fd.cls is not None and not fd.static and not fd.const and not fd.ctor):
            if ob is not None:
                self.havoc(s, ob, e, 'obj')
        ps = fd.p if fd is not None else [None] * len(args)
        for i, a in enumerate(args):
            p = ps[i] if i < len(ps) else None
            if a[0] == 'L' and (p is None or (p.ref == 1 and not p.const)):
                self.havoc(s, a[1], e, 'arg')
            v = self.aval(s, a)
            if p is not None and p.ptr and not p.const and v[0] in ('addr', 'it'):
                self.havoc(s, v[1], e, 'ptr')
        return s

    def run_closure(self, e, lam, st):
        res = self.call_lambda(e, lam, None, st)
        outs = [st] + [s for s, _ in res]
        m = self.merge(self.limit(outs))
        # join everything into one state
        r = m[0]
        for x in m[1:]:
            r = self.join2(r, x)
        return r

    def call_lambda(self, e, lam, args, st):
        node, fr = self.lambdas[lam[1]]
        if node.get('dep') or 'body' not in node or any(f.ctx and f.ctx[0] == ('lam', node['id']) for f in self.frames):
            return [(st, ('ret', self.site(e)))]
        s = st.copy()
        for i, p in enumerate(node['params']):
            d = ('v', p['d'])
            self.kill(s, d)
            if args is not None and i < len(args):
                a = args[i]
                if p['t'] is not None and p['t'].ref and a[0] == 'L':
                    s.store[d] = ('ref', a[1])
                else:
                    s.store[d] = self.aval(s, a)
            else:
                s.store[d] = ('ref', ('top', 'lp', p['d'])) if p['t'] is not None and p['t'].ref else ('top', 'lp', p['d'])
        for c in node['caps']:
            if 'init' in c and c.get('byref'):
                for s2, a in self.argval(c['init'], s)[:1]:
                    s = s2.copy()
                    s.store[('v', c['d'])] = ('ref', a[1]) if a[0] == 'L' else a[1]
            elif 'init' in c:
                for s2, v in self.rv(c['init'], s)[:1]:
                    s = s2.copy()
                    s.store[('v', c['d'])] = v
        f = Frame(fr.fn, fr.this, (('lam', node['id']),) + self.frame().ctx, self.frame().depth + 1)
        self.frames.append(f)
        try:
            o = self.exec(node['body'], [s])
        finally:
            self.frames.pop()
        res = [(x, v) for x, v in o.ret] + [(x, ('void',)) for x in o.n]
        return self.limit_res(res)

    def limit_res(self, res):
        if len(res) <= 1:
            return res
        seen = {}
        for s, v in res:
            seen.setdefault((s.key(), v), (s, v))
        res = list(seen.values())
        if len(res) > MAXSTATES:
            byv = {}
            for s, v in res:
                byv.setdefault((s.auxkey(), v), []).append(s)
            res = []
            for (_, v), ss in byv.items():
                for s in self.merge(ss):
                    res.append((s, v))
        return res

    def can_inline(self, fd, fn, node, st):
        if self.frame().depth >= self.max_inline:
            return False
        if any(f.fn is fn for f in self.frames):
            return False
        return self.want_inline(fd, fn, node, st)

    def inline(self, fn, st, ob, args, node):
        s = st.copy()
        decls = self.locals_of(fn)
        for d in decls:
            self.kill(s, ('v', d))
            s.store.pop(('v', d), None)
        for i, p in enumerate(fn.params):
            d = ('v', p['d'])
            if i >= len(args):
                continue
            a = args[i]
            if p['t'].ref:
                if a[0] == 'L':
                    s.store[d] = ('ref', a[1])
                elif a[1][0] in ('obj', 'deref', 'top', 'ret', 'tuple', 'rfld') and not p['t'].ptr:
                    # bind a reference to a temporary: the value stands for the object
                    if a[1][0] in ('obj', 'deref', 'rfld'):
                        s.store[d] = ('ref', a[1])
                    else:
                        s.store[d] = a[1]
                else:
                    s.store[d] = a[1]
            else:
                v = self.aval(s, a)
                if v[0] == 'obj':
                    s.store[d] = ('ref', v)
                else:
                    s.store[d] = v
        ctx = (node['id'],) + self.frame().ctx if self.frames else (node['id'],)
        f = Frame(fn, ob, ctx[:4], self.frame().depth + 1)
        self.frames.append(f)
        try:
            states = [s]
            if fn.inits is not None:
                states = self.run_inits(fn, states, ob)
            o = self.exec(fn.body, states)
            self.on_inline_exit(fn, o)
        finally:
            self.frames.pop()
        res = [(x, v) for x, v in o.ret] + [(x, ('void',)) for x in o.n]
        out = []
        for x, v in res:
            x = x.copy()
            for d in decls:
                x.store.pop(('v', d), None)
            out.append((x, v))
        return self.limit_res(out)

    def on_inline_exit(self, fn, o):
        pass

    def run_inits(self, fn, states, ob):
        for i in fn.inits:
            nxt = []
            for s in states:
                if 'field' in i:
                    fty = self.field_type(i['field'])
                    if fty is not None and fty.ref:
                        for s2, p in self.ev(i['e'], s):
                            s2 = s2.copy()
                            s2.store[('fld', ob, i['field'])] = ('ref', p)
                            nxt.append(s2)
                    else:
                        if i['e'] is None:
                            nxt.append(s)
                            continue
                        for s2, v in self.rv(i['e'], s):
                            s2 = s2.copy()
                            p = ('fld', ob, i['field'])
                            self.kill(s2, p)
                            s2.store[p] = ('ref', v) if v[0] == 'obj' else v
                            nxt.append(s2)
                elif 'base' in i and i['e'] is not None and i['e']['k'] == 'ctor':
                    e = i['e']
                    for s2, ps in self.evs(e['a'], s, self.argval):
                        bfn = e['f'].defn
                        if bfn is not None and self.frame().depth < self.max_inline + 2:
                            for s3, _ in self.inline(bfn, s2, ob, list(ps), e):
                                nxt.append(s3)
                        else:
                            nxt.append(s2)
                elif 'deleg' in i and i['e'] is not None and i['e']['k'] == 'ctor':
                    e = i['e']
                    for s2, ps in self.evs(e['a'], s, self.argval):
                        bfn = e['f'].defn
                        if bfn is not None:
                            for s3, _ in self.inline(bfn, s2, ob, list(ps), e):
                                nxt.append(s3)
                        else:
                            nxt.append(s2)
                else:
                    nxt.append(s)
            states = self.limit(nxt)
        return states

    def locals_of(self, fn):
        r = fn.cache.get('locals')
        if r is None:
            r = [p['d'] for p in fn.params]
            for n in walk(fn.body):
                if 'd' in n and 'n' in n and 't' in n and n.get('k') is None and n['d'][0] != 'g':
                    r.append(n['d'])
            r = list(dict.fromkeys(r))
            fn.cache['locals'] = r
        return r

    # ------------------------------------------------------------ models of std
    def model(self, e, fd, ob, args, st):
        q, n, cls = fd.q, fd.n, fd.cls
        if fd.sys and fd.op in ('==', '!='):
            vs = ([self.load0(st, ob) if ob[0] in ('v', 'fld') else ob] if ob is not None else []) + [self.aval(st, a) for a in args]
            if len(vs) == 2 and {vs[0][0], vs[1][0]} == {'find', 'mend'}:
                return [(st, ('op', fd.op, vs[0], vs[1]))]
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref'):
            a = args[0]
            return [(st, a[1])]
        if q == 'std::addressof':
            return [(st, ('addr', args[0][1]))]
        if q in ('std::make_unique', 'std::make_shared'):
            return self.make(e, fd, args, st)
        if cls in SMART or (cls is None and fd.sys and n in ('operator==', 'operator!=') and args and len(args) == 2 and self.ptrish(e)):
            return self.smart(e, fd, ob, args, st)
        if cls in MAPS:
            return self.mapcall(e, fd, ob, args, st)
        if cls in CONT and fd.sys or cls in ('lin_alg::Matrix',):
            return self.contcall(e, fd, ob, args, st)
        if q in ('std::ranges::size', 'std::size', 'std::ssize'):
            return [(st, ('size', args[0][1]))]
        if q in ('std::tie',):
            return [(st, ('tie',) + tuple(a[1] for a in args))]
        if q in ('std::make_tuple', 'std::make_pair', 'std::forward_as_tuple'):
            return [(st, ('tuple',) + tuple(self.aval(st, a) for a in args))]
        if cls in ('std::tuple', 'std::pair') and fd.op == '=':
            s = st.copy()
            v = self.aval(s, args[0])
            if ob is not None and ob[0] == 'tie':
                for i, lv in enumerate(ob[1:]):
                    if lv[0] == 'g' and lv[1] == 'std::ignore':
                        continue
                    self.write(s, lv, self.tup(v, i), e)
                return [(s, ob)]
            self.write(s, ob, v, e)
            return [(s, ob)]
        if q == 'std::get' and len(args) == 1:
            v = self.aval(st, args[0])
            i = self.get_index(e, fd)
            if i is not None:
                if args[0][0] == 'L' and args[0][1][0] == 'v' and v[0] in ('ret', 'get') and e.get('lv'):
                    # one part of a result that is kept in a local variable: a place of its own
                    p = ('fld', args[0][1], 'get%d' % i)
                    s = st.copy()
                    s.store.setdefault(p, self.tup(v, i))
                    return [(s, p)]
                if args[0][0] == 'L' and v[0] != 'tuple':
                    return [(st, ('fld', args[0][1], 'get%d' % i))] if v == args[0][1] else [(st, self.tup(v, i))]
                return [(st, self.tup(v, i))]
        if q in ('std::swap', 'std::ranges::swap') or (n == 'swap' and cls in SMART):
            a = args[0][1] if cls not in SMART else ob
            b = args[-1][1]
            s = st.copy()
            va, vb = self.load0(s, a), self.load0(s, b)
            self.write(s, a, vb, e)
            self.write(s, b, va, e)
            return [(s, ('void',))]
        if q == 'std::exchange':
            s = st.copy()
            old = self.load0(s, args[0][1])
            self.write(s, args[0][1], self.aval(s, args[1]), e)
            return [(s, old)]
        if cls and cls.startswith('std::function') and fd.op == '()':
            v = self.load0(st, ob)
            if v[0] == 'lam':
                return self.call_lambda(e, v, args, st)
            return None
        # implicit copy/move assignment of a class object
        if fd.asg and fd.dflt:
            s = st.copy()
            a = args[0]
            if cls in ('std::tuple', 'std::pair'):
                return None
            src = a[1]
            self.on_assign_object(e, ob, src, s)
            self.write(s, ob, ('copy', src) if a[0] == 'L' or src[0] == 'obj' else src, e)
            return [(s, ob)]
        if cls and n in ('begin', 'end', 'cbegin', 'cend') and fd.sys:
            return [(st, ('it', ob))]
        if cls and 'iterator' in cls and fd.op in ('*', '->'):
            v = self.load0(st, ob) if ob is not None else ('top', 'it')
            return [(st, self.deref(v, st, e) if fd.op == '*' else v)]
        return None

    def on_assign_object(self, node, dst, src, st):
        pass

    def get_index(self, e, fd):
        # template argument of std::get from the USR: "...@get<#VI1#..." -> use element types instead
        t = e['a'][0].get('t')
        rt = e.get('t')
        if t is None or not t.targs or rt is None:
            return None
        import re
        m = re.search(r'get>#V.*?I(\d+)', fd.u) or re.search(r'@F@get<#?\w*?(\d+)', fd.u)
        cand = [i for i, a in enumerate(t.targs) if not isinstance(a, str) and a is not None and (a is rt or a is rt.to or a.to is rt.to)]
        if len(cand) == 1:
            return cand[0]
        return None

    def ptrish(self, e):
        for a in e['a']:
            t = a.get('t')
            if t is not None and (t.rec in SMART):
                return True
        return False

    def make(self, e, fd, args, st):
        t = fd.ret.targs[0] if fd.ret.targs else None
        v = ('new', self.site(e), t.s if t else '')
        s = st.copy()
        o = ('obj',) + v[1:]
        self.kill(s, o, True)
        s.store.pop(o, None)
        s.hav.pop(o, None)
        if t is not None and t.rec:
            k = self.find_ctor(t, args)
            if k is not None:
                r = self.on_call(e, k.d, o, args, s)
                if r is None:
                    if self.can_inline(k.d, k, e, s):
                        return [(s2, v) for s2, _ in self.inline(k, s, o, args, e)]
                    self.bind_ctor_refs(k, s, o, args)
            elif len(args) == 1:
                # copy/move construction of the pointee
                s.store[o] = ('copy', args[0][1])
        self.throw(st, 'any')
        return [(s, v)]

    def find_ctor(self, t, args):
        r = self.P.records.get(t.s)
        if r is None:
            return None
        c = [m.defn for m in r.methods if m.ctor and m.ctor not in ('copy', 'move') and m.defn is not None and len(m.p) == len(args)]
        if len(c) == 1:
            return c[0]
        return None

    def smart(self, e, fd, ob, args, st):
        n, op = fd.n, fd.op
        if op == '->' or n == 'operator->' or n == 'get' or n == '_M_get':
            return [(st, self.load(st, ob, e))]
        if op == '*' or n == 'value':
            return [(st, self.deref(self.load(st, ob, e), st, e))]
        if n == 'operator bool' or fd.conv or n == 'has_value':
            return [(st, ('op', '!=', self.load(st, ob, e), NULL))]
        if n == 'reset':
            s = st.copy()
            v = self.aval(s, args[0]) if args else NULL
            if args and e['a'] and e['a'][0].get('dflt'):
                v = NULL
            self.write(s, ob, v, e)
            return [(s, ('void',))]
        if n == 'release':
            s = st.copy()
            v = self.load(s, ob, e)
            s.store[ob] = NULL
            return [(s, v)]
        if op == '=':
            s = st.copy()
            a = args[0]
            v = self.aval(s, a)
            if a[0] == 'L' and e['a'] and _is_move(e['a'][0]):
                self.on_move(a[1], v, s, e)
                s.store[a[1]] = NULL
            if not (e['a'] and e['a'][0].get('t') is not None and (e['a'][0]['t'].rec in SMART)) and e['a'] and e['a'][0]['k'] == 'null':
                v = NULL
            self.write(s, ob, v, e)
            return [(s, ob)]
        if n in ('operator==', 'operator!='):
            vs = ([self.load0(st, ob)] if ob is not None else []) + [self.aval(st, a) for a in args]
            if len(vs) == 2:
                return [(st, ('op', n[8:], vs[0], vs[1]))]
        if n == 'use_count':
            return [(st, ('ret', self.site(e)))]
        return None

    def mapcall(self, e, fd, ob, args, st):
        n, op = fd.n, fd.op
        if n == 'contains':
            return [(st, ('contains', ob, self.aval(st, args[0])))]
        if n == 'count':
            return [(st, ('op', 'b2i', ('contains', ob, self.aval(st, args[0]))))]
        if n == 'find':
            return [(st, ('find', ob, self.aval(st, args[0])))]
        if n in ('end', 'cend'):
            return [(st, ('mend', ob))]
        if op == '[]':
            k = self.aval(st, args[0])
            self.on_element(ob, k, st, e, 'map')
            self.throw(st, 'any')
            return [(st, self.mk(('el', ob, k)))]
        if n == 'at':
            k = self.aval(st, args[0])
            self.throw(st, 'std::out_of_range')
            s = st.copy()
            s.facts[('t', ('contains', ob, k))] = True
            self.on_element(ob, k, s, e, 'at')
            return [(s, self.mk(('el', ob, k)))]
        if n in ('size',):
            return [(st, ('size', ob))]
        if n == 'empty':
            return [(st, ('op', '==', ('size', ob), ('c', 0)))]
        if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'erase', 'clear', 'extract', 'merge', 'swap'):
            s = st.copy()
            self.throw(st, 'any')
            self.on_map_mutation(ob, n, args, s, e)
            self.havoc(s, ob, e, 'map.' + n)
            if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and args:
                k = self.aval(s, args[0])
                if k[0] == 'tuple':
                    k = k[1]
                s.facts[('t', ('contains', ob, k))] = True
            return [(s, ('ret', self.site(e)))]
        return None

    def on_map_mutation(self, ob, n, args, st, node):
        pass

    def contcall(self, e, fd, ob, args, st):
        n, op = fd.n, fd.op
        if n in ('size', 'length', 'ssize'):
            return [(st, ('size', ob))]
        if n in ('rows', 'cols', 'capacity', 'max_size'):
            return [(st, (n, ob))]
        if n == 'empty':
            return [(st, ('op', '==', ('size', ob), ('c', 0)))]
        if op in ('[]', '()') or n in ('operator[]', 'operator()'):
            idx = tuple(self.aval(st, a) for a in args)
            i = idx[0] if len(idx) == 1 else ('tuple',) + idx
            self.on_element(ob, i, st, e, 'vec')
            return [(st, self.mk(('el', ob, i)))]
        if n == 'at':
            self.throw(st, 'std::out_of_range')
            return [(st, self.mk(('el', ob, self.aval(st, args[0]))))]
        if n == 'front':
            self.on_element(ob, ('c', 0), st, e, 'front')
            return [(st, self.mk(('el', ob, ('c', 0))))]
        if n == 'back':
            self.on_element(ob, ('c', 0), st, e, 'back')
            return [(st, self.mk(('el', ob, ('last',))))]
        if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'c_str'):
            if n in ('data', 'c_str'):
                return [(st, ('addr', ob))]
            return [(st, ('it', ob))]
        if n == 'reserve':
            self.throw(st, 'any')
            return [(st, ('void',))]
        if op == '=':
            s = st.copy()
            a = args[0]
            self.on_assign_object(e, ob, a[1], s)
            self.write(s, ob, ('copy', a[1]) if a[0] == 'L' or a[1][0] == 'obj' else ('val', a[1]), e)
            return [(s, ob)]
        if n in CONT_MUT:
            s = st.copy()
            self.throw(st, 'any')
            for i, a in enumerate(args):
                if a[0] == 'R' and a[1][0] == 'lam':
                    s = self.run_closure(e, a[1], s)
            self.on_container(e, n, ob, args, s)
            self.havoc(s, ob, e, 'cont.' + n)
            return [(s, self.mk(('el', ob, ('last',))) if n in ('emplace_back', 'emplace_front') else ('ret', self.site(e)))]
        return None

    def on_container(self, node, name, ob, args, st):
        pass

    # ------------------------------------------------------------ statements
    def exec(self, s, states):
        self.tick()
        if s is None or not states:
            return Out(list(states))
        states = self.limit(states)
        return getattr(self, 'st_' + s['k'])(s, states)

    def st_nop(self, s, states):
        return Out(states)

    def st_ostmt(self, s, states):
        o = Out(states)
        for x in s.get('s', []):
            r = self.exec(x, o.n)
            o = self.seq(o, r)
        return o

    def seq(self, o, r):
        r2 = Out(r.n)
        r2.brk = o.brk + r.brk
        r2.cont = o.cont + r.cont
        r2.ret = o.ret + r.ret
        return r2

    def st_blk(self, s, states):
        o = Out(states)
        for x in s['s']:
            if not o.n:
                break
            o = self.seq(o, self.exec(x, o.n))
        return o

    def st_expr(self, s, states):
        out = []
        for st in states:
            for s2, v in (self.ev(s['e'], st)):
                self.on_discard(s['e'], v, s2)
                out.append(s2)
        return Out(self.limit(out))

    def st_decl(self, s, states):
        for v in s['v']:
            states = self.declare(v, states)
        return Out(states)

    def declare(self, v, states):
        out = []
        d = ('v', v['d'])
        for st in states:
            if v['d'][0] == 'g':      # static local
                out.append(st)
                continue
            t = v['t']
            if 'init' not in v:
                st = st.copy()
                self.kill(st, d)
                st.store.pop(d, None)
                if is_recval(t):
                    o = ('obj', ('decl', v['d']), t.s)
                    self.kill(st, o)
                    st.store[d] = ('ref', o)
                elif is_smart(t):
                    st.store[d] = NULL
                else:
                    st.store[d] = ('uninit', v['d'])
                out.append(st)
                continue
            e = v['init']
            if t is not None and t.ref:
                res = self.ev(e, st) if e.get('lv') else self.rv(e, st)
                for s2, p in res:
                    s2 = s2.copy()
                    self.kill(s2, d)
                    s2.store[d] = ('ref', p) if (e.get('lv') or p[0] in ('obj', 'deref', 'fld', 'el', 'rfld')) else p
                    self.bindings(v, p, s2)
                    self.on_decl(v, p, s2)
                    out.append(s2)
            else:
                for s2, val in self.rv(e, st):
                    s2 = s2.copy()
                    self.kill(s2, d)
                    s2.hav.pop(d, None)
                    if is_recval(t) and val[0] in ('obj',):
                        s2.store[d] = ('ref', val)
                    elif is_recval(t) and e.get('lv'):
                        s2.store[d] = ('copy', val)
                    else:
                        s2.store[d] = val
                    self.bindings(v, val, s2)
                    self.on_decl(v, val, s2)
                    out.append(s2)
        return self.limit(out)

    def bindings(self, v, val, st):
        if 'bind' not in v:
            return
        for i, b in enumerate(v['bind']):
            bd = ('v', b['d'])
            if 'e' in b and b['e'] is not None:
                x = b['e']
                if x['k'] == 'mem':
                    st.store[bd] = ('ref', ('fld', val, x['f'])) if val[0] not in ('tuple', 'ret', 'get') else self.tup(val, i)
                else:
                    st.store[bd] = self.tup(val, i)
            else:
                st.store[bd] = self.tup(val, i)

    def st_if(self, s, states):
        out = Out()
        if 'init' in s:
            states = self.exec(s['init'], states).n
        if 'cv' in s:
            states = self.declare(s['cv'], states)
        t, f = [], []
        for st in states:
            t += self.assume(s['c'], True, st)
            f += self.assume(s['c'], False, st)
        r1 = self.exec(s['then'], t)
        r2 = self.exec(s['else'], f) if 'else' in s else Out(f)
        out.n = self.limit(r1.n + r2.n)
        out.brk = r1.brk + r2.brk
        out.cont = r1.cont + r2.cont
        out.ret = r1.ret + r2.ret
        return out

    def loop(self, s, states, cond, body, inc, post=False):
        """fixpoint; returns Out"""
        out = Out()
        seen = {}
        work = self.limit(states)
        exits = []
        self.enter_loop(s, work)
        # forget, at the loop head, what the body may change
        mod = self.loop_mods(s)
        work = [self.generalise(st, mod, s) for st in work]
        work = self.limit(work, 8) if len(work) <= 8 else self.merge(work)
        n = 0
        first = True
        while work and n < 6:
            n += 1
            new = [st for st in work if st.key() not in seen]
            for st in new:
                seen[st.key()] = st
            if not new:
                break
            t = []
            if cond is None or (post and first):
                t = new
            else:
                for st in new:
                    t += cond(st, True)
                    exits += cond(st, False)
            first = False
            r = body(t)
            out.ret += r.ret
            exits_b = r.brk
            exits += exits_b
            nxt = r.n + r.cont
            if inc is not None:
                nxt = inc(nxt)
            if post:
                tt = []
                for st in nxt:
                    tt += cond(st, True)
                    exits += cond(st, False)
                nxt = tt
            nxt = [self.generalise(st, mod, s) for st in nxt]
            nxt = self.merge(nxt) if len(nxt) > 4 else nxt
            work = nxt
            if n >= 3 and work:
                # widen: join with everything seen that has the same typestate
                w = []
                for st in work:
                    for o in list(seen.values()):
                        if o.aux == st.aux:
                            st = self.join2(o, st)
                    w.append(st)
                work = w
        out.n = self.limit(exits)
        self.leave_loop(s, out)
        return out

    def enter_loop(self, s, states):
        pass

    def leave_loop(self, s, out):
        pass

    def loop_mods(self, s):
        """local variables assigned in the loop"""
        if '_mods' in s:
            return s['_mods']
        m = set()
        for n in walk(s):
            k = n.get('k')
            if k == 'asg' or (k == 'un' and n['op'][:2] in ('++', '--')):
                x = n['x'] if k == 'asg' else n['e']
                if x['k'] == 'ref':
                    m.add(x['d'])
            elif k == 'call' and n.get('op') in ('=', '+=', '-=', '++', '--', '*=', '/=') and n.get('o') is not None and n['o']['k'] == 'ref':
                m.add(n['o']['d'])
        s['_mods'] = sorted(m)
        return s['_mods']

    def generalise(self, st, mods, s):
        st2 = None
        for d in mods:
            p = ('v', d)
            v = st.store.get(p)
            if v is None or v[0] == 'ref':
                continue
            if is_ptr_value(v):
                continue
            if st2 is None:
                st2 = st.copy()
            tv = ('top', 'L', s['id'], d)
            self.kill(st2, p)
            for k in [k for k in st2.facts if contains(k, tv)]:
                del st2.facts[k]
            st2.store[p] = tv
        return st2 or st

    def st_for(self, s, states):
        if 'init' in s:
            states = self.exec(s['init'], states).n
        cond = (lambda st, tr: self.assume(s['c'], tr, st)) if 'c' in s else None

        def inc(sts):
            o = []
            for st in sts:
                o += [x for x, _ in self.ev(s['inc'], st)] if 'inc' in s else [st]
            return self.limit(o)
        return self.loop(s, states, cond, lambda sts: self.exec(s['body'], sts), inc)

    def st_while(self, s, states):
        return self.loop(s, states, lambda st, tr: self.assume(s['c'], tr, st), lambda sts: self.exec(s['body'], sts), None)

    def st_do(self, s, states):
        return self.loop(s, states, lambda st, tr: self.assume(s['c'], tr, st), lambda sts: self.exec(s['body'], sts), None, post=True)

    def st_rfor(self, s, states):
        if 'init' in s:
            states = self.exec(s['init'], states).n
        st2 = []
        for st in states:
            for x, r in (self.ev(s['r'], st) if s['r'].get('lv') else self.rv(s['r'], st)):
                x = x.copy()
                x.store[('v', 'range%d' % s['id'])] = ('ref', r)
                st2.append(x)
        v = s['var']
        d = ('v', v['d'])

        def cond(st, tr):
            if not tr:
                return [st]
            x = st.copy()
            r = x.store.get(('v', 'range%d' % s['id']), ('ref', ('top', 'r')))[1]
            self.kill(x, d)
            el = self.mk(('el', r, ('top', 'L', s['id'])))
            for k in [k for k in x.facts if contains(k, el)]:
                del x.facts[k]
            for k in [k for k in x.store if contains(k, el)]:
                del x.store[k]
            if v['t'] is not None and v['t'].ref:
                x.store[d] = ('ref', el)
            else:
                lv = self.load0(x, el)
                x.store[d] = ('copy', el) if is_recval(v['t']) else lv
            self.bindings(v, el, x)
            self.on_decl(v, el, x)
            return [x]
        return self.loop(s, st2, cond, lambda sts: self.exec(s['body'], sts), None)

    def st_switch(self, s, states):
        if 'init' in s:
            states = self.exec(s['init'], states).n
        if 'cv' in s:
            states = self.declare(s['cv'], states)
        # flatten the body into labelled statements
        items = []

        def flat(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['s']
            items.append((labels, x))
        body = s['body']
        for x in (body['s'] if body['k'] == 'blk' else [body]):
            flat(x)
        out = Out()
        has_default = any(l['k'] == 'default' for ls, _ in items for l in ls)
        allcases = [l for ls, _ in items for l in ls if l['k'] == 'case']
        entry = []
        rest = []
        for st in states:
            for x, v in self.rv(s['c'], st):
                entry.append((x, v))
        cur = []
        for x, v in entry:
            r = [x]
            for c in allcases:
                cvs = self.rv(c['e'], x)
                cv = cvs[0][1] if cvs else ('top', 'c')
                nr = []
                for y in r:
                    nr += self.assume_val(y, ('op', '==', v, cv), False)
                r = nr
            rest += r
        flow = []
        for ls, x in items:
            add = []
            for l in ls:
                if l['k'] == 'default':
                    add += rest
                else:
                    for y, v in entry:
                        cvs = self.rv(l['e'], y)
                        cv = cvs[0][1] if cvs else ('top', 'c')
                        add += self.assume_val(y, ('op', '==', v, cv), True)
            flow = self.limit(flow + add)
            r = self.exec(x, flow)
            out.ret += r.ret
            out.cont += r.cont
            out.n += r.brk
            flow = r.n
        out.n += flow
        if not has_default:
            self.on_switch_fallthrough(s, rest)
            out.n += rest
        out.n = self.limit(out.n)
        return out

    def on_switch_fallthrough(self, s, states):
        pass

    def st_case(self, s, states):
        return self.exec(s['s'], states)

    st_default = st_case
    st_label = st_case

    def st_goto(self, s, states):
        return Out()

    def st_break(self, s, states):
        o = Out()
        o.brk = states
        return o

    def st_continue(self, s, states):
        o = Out()
        o.cont = states
        return o

    def st_ret(self, s, states):
        o = Out()
        for st in states:
            if 'e' in s and s['e'] is not None:
                rt = self.frame().fn.d.ret
                islam = bool(self.frame().ctx) and isinstance(self.frame().ctx[0], tuple)
                if rt.ref and not islam and s['e'].get('lv'):
                    res = self.ev(s['e'], st)
                else:
                    res = self.rv(s['e'], st)
                for x, v in res:
                    self.on_return(s, v, x)
                    o.ret.append((x, v))
            else:
                o.ret.append((st, ('void',)))
        o.ret = self.limit_res(o.ret)
        return o

    def on_return(self, s, v, st):
        pass

    def st_omp(self, s, states):
        return self.exec(s.get('body'), states)

    def st_try(self, s, states):
        self.exc.append([])
        r = self.exec(s['body'], states)
        caught = self.exc.pop()
        out = Out(r.n)
        out.brk, out.cont, out.ret = r.brk, r.cont, r.ret
        pend = caught
        for h in s['h']:
            if not pend:
                break
            sel = []
            left = []
            for st, ty in pend:
                m = self.catches(h, ty)
                if m in ('yes', 'maybe'):
                    sel.append((st, ty))
                if m in ('no', 'maybe'):
                    left.append((st, ty))
            pend = left
            for st, ty in sel:
                st = st.copy()
                if 'v' in h:
                    st.store[('v', h['v']['d'])] = ('ref', ('exc', h['ct'].s))
                self.on_catch(h, st, ty)
                self.cur_exc.append(ty if ty != 'any' or 'v' not in h else (h['ct'].rec or 'any'))
                rr = self.exec(h['body'], [st])
                self.cur_exc.pop()
                out.n += rr.n
                out.brk += rr.brk
                out.cont += rr.cont
                out.ret += rr.ret
        for st, ty in pend:
            self.throw(st, ty)
        out.n = self.limit(out.n)
        return out

    def on_catch(self, h, st, ty):
        pass

    def catches(self, h, ty):
        if 'v' not in h:
            return 'yes'
        ht = h['ct'].rec or h['ct'].s
        if ty == 'any':
            return 'maybe'
        if ty == ht or ht in self.bases(ty):
            return 'yes'
        if ty in self.bases(ht):
            return 'maybe'
        return 'no'

    STDEXC = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'],
              'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::bad_alloc': ['std::exception'],
              'std::length_error': ['std::logic_error', 'std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'],
              'std::domain_error': ['std::logic_error', 'std::exception'], 'std::bad_optional_access': ['std::exception'],
              'std::overflow_error': ['std::runtime_error', 'std::exception']}

    def bases(self, ty):
        out = list(self.P.bases_of(ty))
        for b in list(out):
            out += self.STDEXC.get(b, [])
        return out

    # ------------------------------------------------------------ entry
    def run(self, fn, setup=None):
        """analyse fn; returns (normal results [(state,value)], escaping exceptions [(state,type)])"""
        self.exc = [[]]
        self.cur_exc = []
        self.steps = 0
        st = State()
        this = ('this',)
        for i, p in enumerate(fn.params):
            d = ('v', p['d'])
            sym = ('par', i, p['n'])
            if p['t'].ref:
                st.store[d] = ('ref', sym)
            elif is_recval(p['t']):
                st.store[d] = ('ref', sym)
            else:
                st.store[d] = sym
        if setup:
            setup(st)
        self.frames = [Frame(fn, this, (), 0)]
        states = [st]
        if fn.inits is not None:
            states = self.run_inits(fn, states, this)
        o = self.exec(fn.body, states)
        res = [(x, v) for x, v in o.ret] + [(x, ('void',)) for x in o.n]
        return res, self.exc[0]


class Budget(Exception):
    pass


def is_ptr_value(v):
    return v == NULL or v[0] in ('new', 'addr', 'lam')


def _is_move(e):
    """expression yields an xvalue (std::move(...))"""
    return e['k'] == 'call' and e.get('f') is not None and e['f'].q in ('std::move', 'std::forward')
