"""What applying and taking back an undo action writes: a list of (place, value) pairs per path, loops kept abstract."""
from .facts import walk
from .flow import Flow, Out, contains

MESHES = ('meshkernel::Mesh', 'meshkernel::Mesh2D', 'meshkernel::Mesh1D', 'meshkernel::CurvilinearGrid')


class SigFlow(Flow):
    """paths of a function with the writes to places below `roots`, in order"""
    max_inline = 8
    maxdepth = 18

    def __init__(self, P, roots=(('this',),)):
        super().__init__(P)
        self.roots = roots

    def rooted(self, p):
        while isinstance(p, tuple) and p and p[0] in ('fld', 'el', 'deref', 'addr'):
            if p in self.roots:
                return True
            p = p[1]
        return p in self.roots

    # values are frozen at the moment of the write: copies refer to the old contents
    def write(self, st, p, v, node):
        if self.rooted(p):
            self.freeze(st, p)
            val = self.frozen(st, v)
            st.aux['sig'] = st.aux.get('sig', ()) + ((p, val),)
        super().write(st, p, v, node)

    def freeze(self, st, p):
        for k, v in list(st.store.items()):
            if v[0] == 'copy' and (contains(v[1], p) or contains(p, v[1])):
                st.store[k] = ('copy', self.old(st, v[1]))

    def old(self, st, q):
        w = st.store.get(q)
        if w is not None and w[0] == 'copy':
            return w[1]
        if w is not None and w[0] not in ('ref',):
            return ('val', w)
        return ('init', q)

    def frozen(self, st, v):
        if v[0] == 'copy':
            return ('copy', self.resolve(st, v[1]))
        return v

    def resolve(self, st, q, n=0):
        """the initial place whose contents q has now"""
        w, m = self.stored(st, q)
        if n < 10 and w is not None:
            if w[0] in ('copy', 'ref'):
                return subst(self.resolve(st, w[1], n + 1), m)
            return ('val', subst(w, m))
        if isinstance(q, tuple) and q[0] in ('fld', 'el') and n < 10:
            b = self.resolve(st, q[1], n + 1)
            if b != q[1]:
                return (q[0], b) + q[2:]
        return q

    def stored(self, st, q):
        """what is stored at q, up to renaming of loop variables"""
        w = st.store.get(q)
        if w is None and isinstance(q, tuple) and q[0] == 'el' and tops(q[2]):
            k = alpha(q[2])
            for p, v in st.store.items():
                if p[0] == 'el' and p[1] == q[1] and p != q and tops(p[2]) and alpha(p[2]) == k:
                    return v, dict(zip(tops(p[2]), tops(q[2])))
        return w, {}

    def model(self, e, fd, ob, args, st):
        if fd.q in ('std::swap_ranges', 'std::ranges::swap_ranges') and len(args) >= 3:
            vs = [self.aval(st, a) for a in args]
            if all(v[0] == 'it' for v in vs[:3]) and vs[0][1] == vs[1][1]:
                return [(self.swapped(st, vs[0][1], vs[2][1], e), ('void',))]
        if fd.n == 'swap' and fd.sys and ob is not None and len(args) == 1 and not (fd.cls or '').startswith('std::unique_ptr'):
            return [(self.swapped(st, ob, args[0][1], e), ('void',))]
        if fd.q in ('std::swap', 'std::ranges::swap', 'std::iter_swap'):
            return [(self.swapped(st, args[0][1], args[1][1], e), ('void',))]
        if fd.sys and (fd.n == 'transform' or '__transform_fn' in fd.q) and any(self.aval(st, a)[0] == 'lam' for a in args):
            vs = [(a, self.aval(st, a)) for a in args]
            lam = next(v for a, v in vs if v[0] == 'lam')
            rng, out = vs[0], next((v for a, v in reversed(vs[:-1] if vs[-1][1][0] == 'lam' else vs) if v[0] == 'it'), None)
            src = rng[1][1] if rng[1][0] == 'it' else rng[0][1]
            if out is not None:
                it = ('top', 'L', 'tr')
                el = ('el', src, it)
                res = []
                for s, v in self.call_lambda(e, lam, [('L', el)], st):
                    s = s.copy()
                    if v[0] in ('fld', 'el', 'rfld', 'obj'):
                        v = ('copy', v)
                    self.write(s, ('el', out[1], it), v, e)
                    res.append((s, ('void',)))
                return res
        return super().model(e, fd, ob, args, st)

    def swapped(self, st, a, b, e):
        s = st.copy()
        va, vb = self.cur(s, a), self.cur(s, b)
        self.write(s, a, vb, e)
        self.write(s, b, va, e)
        return s

    def cur(self, st, p):
        w = st.store.get(p)
        if w is not None and w[0] != 'ref':
            return w
        if w is not None:
            return self.cur(st, w[1])
        return ('copy', ('init', self.resolve(st, p)))

    def loop(self, s, states, cond, body, inc, post=False):
        """one abstract iteration stands for the loop"""
        mod = self.loop_mods(s)
        t = []
        for st in states:
            init = tuple(sorted((str(d), st.store.get(('v', d))) for d in mod if st.store.get(('v', d)) is not None and st.store.get(('v', d))[0] == 'c'))
            g = self.generalise(st, mod, s)
            before = set(g.facts)
            for x in (cond(g, True) if cond is not None else [g]):
                x = x.copy()
                rng = x.store.get(('v', 'range%d' % s['id']))
                what = (rng,) if rng is not None else tuple(norm((a, x.facts[a])) for a in x.facts if a not in before) + tuple(v for _, v in init)
                ids = frozenset(v for a in x.facts if a not in before for v in tops(a))
                x.aux['sig'] = x.aux.get('sig', ()) + (('loop', what, self.direction(s), ids),)
                t.append(x)
        r = body(t)
        o = Out(r.n + r.cont + r.brk)
        o.ret = r.ret
        return o

    def direction(self, s):
        """does the loop go backwards?"""
        if s['k'] == 'rfor':
            return 'rev' if any('reverse' in str(n.get('n') or '') + (n['f'].q if n.get('f') is not None and not isinstance(n.get('f'), str) else '') for n in walk(s['r'])) else 'fwd'
        for part in ('inc', 'c', 'body'):
            for n in walk(s.get(part) or {}) if part != 'body' or s['k'] in ('while', 'do') else ():
                if n.get('k') == 'un' and n['op'][:2] == '--' or n.get('k') == 'call' and n.get('op') == '--':
                    return 'rev'
        for n in walk(s.get('init') or {}):
            if n.get('k') == 'call' and n.get('f') is not None and n['f'].n in ('rbegin', 'crbegin'):
                return 'rev'
        return 'fwd'

    def on_call(self, e, fd, ob, args, st):
        if fd.cls == 'meshkernel::UndoAction' and fd.n in ('Commit', 'Restore') and ob is not None:
            s = st.copy()
            s.aux['sig'] = s.aux.get('sig', ()) + (('child', fd.n, ob),)
            self.throw(st, 'any')
            return [(s, ('void',))]
        if fd.sys and fd.n == 'for_each' or fd.sys and fd.op == '()' and 'for_each' in fd.q:
            vs = [self.aval(st, a) for a in args]
            lam = next((v for v in vs if v[0] == 'lam'), None)
            if lam is not None and vs[0][0] != 'lam':
                rng = vs[0][1] if vs[0][0] == 'it' else args[0][1]
                rev = any(n.get('k') == 'call' and n.get('f') is not None and (n['f'].n in ('rbegin', 'crbegin') or 'reverse' in n['f'].q) for a in e['a'] for n in walk(a)) or 'reverse' in str(vs[0])
                s = st.copy()
                s.aux['sig'] = s.aux.get('sig', ()) + (('loop', (rng,), 'rev' if rev else 'fwd', frozenset()),)
                return [(x, ('void',)) for x, _ in self.call_lambda(e, lam, [('L', ('el', rng, ('top', 'L', 'fe')))], s)]
        return None

    def want_inline(self, fd, fn, node, st):
        return True

    def can_inline(self, fd, fn, node, st):
        if not super().can_inline(fd, fn, node, st):
            return False
        if fd.cls in MESHES and not fd.const and fd.n not in ('CommitAction', 'RestoreAction') and fd.ret.b == 'void' and not fd.ret.ptr:
            return False        # recomputes derived data
        return True

    def opaque(self, e, fd, ob, args, st):
        self.throw(st, 'any')
        if fd.cls in MESHES and not fd.const and ob is not None and self.rooted(ob) and not flags_only(self.P, fd):
            st = st.copy()
            st.aux['sig'] = st.aux.get('sig', ()) + (('derive', fd.n, ob),)
        return st


def flags_only(P, fd):
    """a setter of the flags that say what has to be recomputed"""
    from .effects import modref
    w = modref(P).S.get(fd.defn)
    return w is not None and all(root == 'this' and path and all('RequiresUpdate' in c for c in path if '::' in c) for root, path in w.writes)


def tops(t):
    """the loop variables in a term, in order"""
    if isinstance(t, tuple):
        if t and t[0] == 'top' and len(t) > 1 and t[1] == 'L':
            return [t]
        return [v for x in t for v in tops(x)]
    return []


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(subst(x, m) for x in t)
    return t


def alpha(t):
    """loop variables numbered in order of appearance"""
    m = {}
    for v in tops(t):
        m.setdefault(v, ('i', len(m)))
    return subst(t, m)


def clean(t):
    """the value a term stands for: copies and initial contents are the thing itself"""
    if isinstance(t, tuple) and t:
        if t[0] in ('copy', 'init', 'val', 'ref') and len(t) == 2 and isinstance(t[1], tuple):
            return clean(t[1])
        t = tuple(clean(x) for x in t)
        if t[0] == 'tuple' and len(t) == 3 and all(isinstance(x, tuple) and x and x[0] == 'fld' for x in t[1:]) and t[1][1] == t[2][1] and \
           (t[1][2].split('::')[-1], t[2][2].split('::')[-1]) == ('first', 'second'):
            return t[1][1]
    return t


def linear(t):
    """coefficients of a linear term: ({atom: factor}, constant)"""
    if isinstance(t, tuple) and t:
        if t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return {}, t[1]
        if t[0] == 'op' and len(t) == 3 and t[1] == '-':
            d, c = linear(t[2])
            return {x: -k for x, k in d.items()}, -c
        if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-'):
            a, b = linear(t[2]), linear(t[3])
            k = 1 if t[1] == '+' else -1
            d = dict(a[0])
            for x, c in b[0].items():
                d[x] = d.get(x, 0) + k * c
            return {x: c for x, c in d.items() if c}, a[1] + k * b[1]
    return {t: 1}, 0


def norm(t):
    """loop variables without their identity"""
    if isinstance(t, tuple):
        if t and t[0] == 'top' and len(t) > 1 and t[1] == 'L':
            return ('i',)
        return tuple(norm(x) for x in t)
    return t
