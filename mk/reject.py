"""Is a given value of a parameter refused?  Constant propagation of one bad value through the call,
following every callee that receives it."""
import math
import re
from .api import ApiFlow
from .facts import walk
from .flow import Budget, Out, contains
from .outputs import nothing_there

CMP = {'std::greater': lambda a, b: a > b, 'std::greater_equal': lambda a, b: a >= b, 'std::less': lambda a, b: a < b, 'std::less_equal': lambda a, b: a <= b,
       'std::equal_to': lambda a, b: a == b, 'std::not_equal_to': lambda a, b: a != b}


ALGOS = ('any_of', 'none_of', 'all_of', 'find', 'find_if', 'find_if_not', 'count', 'count_if', 'contains', 'binary_search')
RANGES = re.compile(r'std::ranges::_*(\w+?)_fn')

BIG = (1 << 31) - 1


def huge(x):
    return x[0] == 'c' and isinstance(x[1], int) and x[1] >= BIG or x[0] == 'op' and x[1] == '-' and len(x) == 4 and huge(x[2]) and not huge(x[3])


def below(p, root):
    while isinstance(p, tuple) and p:
        if p == root:
            return True
        if p[0] in ('fld', 'el', 'deref', 'it', 'addr', 'ref', 'copy'):
            p = p[1]
        else:
            return False
    return False


def constant_list(fd):
    """a function without parameters that hands out a container"""
    t = fd.ret.to if fd.ret.ref and fd.ret.to is not None else fd.ret
    return not fd.p and fd.cls is None and t.rec in ('std::vector', 'std::array', 'std::set', 'std::unordered_set')


class RejectFlow(ApiFlow):
    max_inline = 12

    def __init__(self, P, root, value, deep=False):
        super().__init__(P)
        self.deep = deep            # recognise the value itself, also inside objects
        self.root = root            # the parameter (struct or number)
        self.value = ('c', value)
        self.values = {self.value} | ({('c', value % (1 << w)) for w in (32, 64)} if isinstance(value, int) and value < 0 else set())
        self.big = isinstance(value, int) and (value >= BIG or value < 0)
        self.budget = 300000
        self.fuzzy = set()          # answers of library functions about the value that are not understood

    def has(self, st, a):
        """does an argument carry the value?"""
        p = a[1]
        if below(p, self.root):
            return True
        if isinstance(p, tuple) and p[0] == 'v' and st.aux.get(('carry', p[1])):
            return True
        v = self.aval(st, a)
        for _ in range(3):
            if self.deep and v in self.values or below(v, self.root):
                return True
            if not isinstance(v, tuple) or v[0] not in ('ref', 'copy'):
                break
            n = self.load0(st, v[1])
            if n == v:
                break
            v = n
        return self.holds(st, p) or self.holds(st, v)

    def holds(self, st, p):
        """an object one of whose fields was given the value"""
        if not self.deep or not isinstance(p, tuple):
            return False
        for k, v in st.store.items():
            if (v in self.values or isinstance(v, tuple) and v[0] in ('copy', 'ref') and below(v[1], self.root)) and k[0] == 'fld':
                b = k
                while isinstance(b, tuple) and b and b[0] in ('fld', 'el', 'deref'):
                    b = b[1]
                    if b == p or p[0] == 'deref' and b == p[1] or b[0] == 'deref' and b[1] == p:
                        return True
        return False

    def from_root(self, e, st, n=0):
        """is an expression the value itself: the place it was put in, or a local that was given it?"""
        while isinstance(e, dict) and n < 8:
            n += 1
            if e.get('k') == 'ref':
                v = st.store.get(('v', e['d']))
                return bool(st.aux.get(('carry', e['d']))) or v is not None and v[0] in ('ref', 'copy') and below(v[1], self.root)
            if e.get('k') == 'mem':
                return any(below(p, self.root) for _, p in self.ev(e, st)) if e.get('lv') else False
            if e.get('k') == 'cast':
                e = e.get('e')
            elif e.get('k') == 'ctor' and len(e.get('a') or ()) == 1:
                e = e['a'][0]
            else:
                return False
        return False

    def declare(self, v, states):
        out = super().declare(v, states)
        if v.get('init') is not None and not (v['t'] is not None and v['t'].ref) and v['d'][0] != 'g':
            for st in out:
                if st.store.get(('v', v['d'])) in self.values and self.from_root(v['init'], st):
                    st.aux[('carry', v['d'])] = True
        return out

    def call_lambda(self, e, lam, args, st):
        node = self.lambdas[lam[1]][0]
        ds = [p['d'] for p, a in zip(node['params'], args or ()) if self.has(st, a)]
        for i, (p, a) in enumerate(zip(node['params'], e.get('a') or ())):
            if p['d'] not in ds and e.get('k') == 'call' and self.from_root(a, st):
                ds.append(p['d'])
        if ds:
            st = st.copy()
            for d in ds:
                st.aux[('carry', d)] = True
        return super().call_lambda(e, lam, args, st)

    def want_inline(self, fd, fn, node, st):
        return True

    def can_inline(self, fd, fn, node, st):
        if fn.file.startswith('libs/MeshKernelApi/') or self.carry:
            return super().can_inline(fd, fn, node, st)
        return False

    carry = False

    def func(self, st, v):
        """the comparison object or closure behind a value"""
        for _ in range(6):
            if not isinstance(v, tuple):
                return None
            if v[0] == 'lam':
                return v
            if v[0] == 'obj':
                t = v[2].replace('const ', '')
                if t.split('<')[0] in CMP:
                    return t.split('<')[0]
            w = st.aux.get(('fn', v))
            if w is not None:
                v = w
                continue
            n = v[1] if v[0] in ('ref', 'copy') else self.load0(st, v)
            if n == v:
                return None
            v = n
        return None

    def clist(self, st, v):
        """the constants in a container"""
        for _ in range(6):
            if not isinstance(v, tuple):
                return None
            w = st.aux.get(('clist', v))
            if w is not None:
                return w
            if v[0] == 'cit':
                return v[1]
            if v[0] == 'g':
                return self.constants(v[1])
            n = v[1] if v[0] in ('ref', 'copy', 'it') else self.load0(st, v)
            if n == v:
                return None
            v = n
        return None

    counts = None       # terms equal to the value: the value is the first number past the end

    def is_count(self, t):
        if t[0] == 'c':
            return False
        if t[0] == 'size':
            p = t[1]
            while p[0] in ('copy', 'ref', 'deref'):
                p = p[1]
            return '*' in self.counts or p[0] == 'fld' and p[2].split('::')[-1] in self.counts
        if t[0] == 'call':
            return t[1].split('::')[-1] in self.counts
        return t[0] == 'fld' and t[2].split('::')[-1] in self.counts

    def num(self, t):
        """a number near the count"""
        if t[0] == 'c':
            return t[1] if isinstance(t[1], int) else None
        if self.is_count(t):
            return self.value[1]
        if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-'):
            x, y = self.num(t[2]), self.num(t[3])
            return None if x is None or y is None else x + y if t[1] == '+' else x - y
        return None

    def entailed(self, st, a):
        if self.counts is not None:
            if len(a) == 3 and a[0] in ('<', '=='):
                x, y = self.num(a[1]), self.num(a[2])
                if x is not None and y is not None and (abs(x - self.value[1]) < 1000) == (abs(y - self.value[1]) < 1000):
                    return x < y if a[0] == '<' else x == y
            for k in (1, 2):
                if len(a) == 3 and a[0] in ('<', '==') and a[3 - k][0] != 'c' and self.is_count(a[k]):
                    # the same question about the value
                    b = tuple(self.value if i == k else x for i, x in enumerate(a))
                    v = st.facts[b] if b in st.facts else super().entailed(st, b)
                    if v is not None:
                        return v
            return super().entailed(st, a)
        # a number beyond the largest index is larger than every size and count
        if self.big and len(a) == 3:
            for x, y, swapped in ((a[1], a[2], False), (a[2], a[1], True)):
                if huge(x) and y[0] != 'c' and not huge(y):
                    if a[0] == '==':
                        return False
                    if a[0] == '<':
                        return swapped
        # known bounds by constants
        if a[0] == '<' and (a[1][0] == 'c') != (a[2][0] == 'c'):
            c, x = (a[1], a[2]) if a[1][0] == 'c' else (a[2], a[1])
            for f, v in st.facts.items():
                if f[0] != '<' or x not in f[1:] or not isinstance(c[1], (int, float)):
                    continue
                k = f[1] if f[2] == x else f[2]
                if k[0] != 'c' or not isinstance(k[1], (int, float)):
                    continue
                lo = f[2] == x and v is True or f[1] == x and v is False        # x > k or x >= k
                strict = f[2] == x
                if a[1] == c and lo and (c[1] < k[1] or c[1] == k[1] and strict):
                    return True
                if a[2] == c and not lo and (c[1] > k[1] or c[1] == k[1] and f[1] == x):
                    return True
                if a[2] == c and lo and c[1] <= k[1]:
                    return False
                if a[1] == c and not lo and c[1] >= k[1]:
                    return False
        return super().entailed(st, a)

    def ev_cast(self, e, st):
        out = super().ev_cast(e, st)
        t = e.get('t')
        if t is not None and t.b == 'uint':
            w = 64 if 'long' in t.s or 'size_t' in t.s else 32
            out = [(s, ('c', v[1] % (1 << w)) if v[0] == 'c' and isinstance(v[1], int) and v[1] < 0 else v) for s, v in out]
        return out

    def inline(self, fn, st, ob, args, node):
        ds = [p['d'] for p, a in zip(fn.params, args or ()) if self.has(st, a)]
        if not self.deep:
            ds += [p['d'] for p, a in zip(fn.params, node.get('a') or ()) if self.from_root(a, st)]
        if ds:
            st = st.copy()
            for d in ds:
                st.aux[('carry', d)] = True
        new = []
        for i, a in enumerate(args):
            if i < len(fn.params):
                t = fn.params[i]['t']
                u = t.to if t.ref and t.to is not None else t
                v = self.aval(st, a)
                if u.b == 'uint' and v[0] == 'c' and isinstance(v[1], int) and v[1] < 0:
                    a = ('R', ('c', v[1] % (1 << 64 if 'long' in u.s or 'size_t' in u.s else 1 << 32)))
            new.append(a)
        return super().inline(fn, st, ob, new, node)

    def contcall(self, e, fd, ob, args, st):
        cs = self.clist(st, ob)
        if cs is not None:
            if fd.n in ('size', 'length', 'ssize'):
                return [(st, ('c', len(cs)))]
            if fd.n == 'empty':
                return [(st, ('c', int(not cs)))]
            if fd.n in ('begin', 'cbegin'):
                return [(st, ('cit', cs, 0))]
            if fd.n in ('end', 'cend'):
                return [(st, ('cit', cs, len(cs)))]
            if fd.n in ('contains', 'count', 'find') and args:
                r = self.search(e, fd.n, cs, args[0], st)
                if r is not None:
                    return r
            if fd.op == '[]' or fd.n == 'at':
                v = self.aval(st, args[0])
                if v[0] == 'c' and isinstance(v[1], int) and 0 <= v[1] < len(cs):
                    return [(st, ('c', cs[v[1]]))]
            if fd.n in ('front', 'back'):
                return [(st, ('c', cs[0 if fd.n == 'front' else -1]))]
        if fd.n == 'at' and self.big and args:
            v = self.aval(st, args[0])
            if v[0] == 'c' and isinstance(v[1], int) and v[1] >= BIG:
                self.throw(st, 'std::out_of_range')
                return []
        return super().contcall(e, fd, ob, args, st)

    def constants(self, name):
        """the numbers a constant container is initialised with"""
        g = self.P.globals.get(name)
        if g is None or 'init' not in g:
            return None         # C16 shows that no function changes a static variable
        cs = [n['v'] for n in walk(g['init']) if n.get('k') in ('lit', 'enum') and isinstance(n.get('v'), (int, float))]
        return tuple(cs) if cs and not any(n.get('k') in ('call', 'ref') for n in walk(g['init'])) else None

    def load0(self, st, p, n=0):
        v = super().load0(st, p, n)
        if isinstance(v, tuple) and v[0] == 'fld' and v[2] in ('std::pair::first', 'std::pair::second'):
            b = super().load0(st, v[1])
            if b[0] == 'tuple' and len(b) == 2 and b[1][0] == 'tuple':
                b = b[1]
            if b[0] == 'tuple' and len(b) == 3:
                return b[1 if v[2].endswith('first') else 2]
        return v

    def on_call(self, e, fd, ob, args, st):
        r = super().on_call(e, fd, ob, args, st)
        if r is not None:
            return r
        self.carry = any(self.has(st, a) for a in args) or not self.deep and any(self.from_root(x, st) for x in e.get('a') or ()) or ob is not None and self.holds(st, ob) or constant_list(fd)
        if fd.ctor and fd.cls in CMP:
            return [(st, ob)]
        if fd.ctor and fd.cls == 'std::function' and args:
            f = self.func(st, args[0][1])
            if f is not None:
                s = st.copy()
                s.aux[('fn', ob)] = args[0][1] if f[0] != 'lam' else f
                return [(s, ob)]
        if fd.op == '()' and fd.cls in CMP or fd.op == '()' and fd.cls == 'std::function':
            f = fd.cls if fd.cls in CMP else self.func(st, ob)
            if isinstance(f, tuple):
                return self.call_lambda(e, f, args, st)
            if f in CMP:
                v = [self.aval(st, a) for a in args]
                if all(x[0] == 'c' and isinstance(x[1], (int, float)) for x in v):
                    return [(st, ('c', int(CMP[f](v[0][1], v[1][1]))))]
        if fd.ctor and fd.cls in ('std::vector', 'std::array', 'std::set', 'std::unordered_set') and e.get('list'):
            vs = []
            for a in args:
                v = self.aval(st, a)
                while v[0] == 'tuple' and len(v) == 2 and v[1][0] == 'tuple':
                    v = v[1]
                if v[0] == 'tuple':
                    vs += v[1:]
                elif v[0] == 'c':
                    vs.append(v)
            if vs and all(x[0] == 'c' for x in vs):
                s = st.copy()
                s.aux[('clist', ob)] = tuple(x[1] for x in vs)
                return [(s, ob)]
        m = RANGES.fullmatch(fd.cls or '') if fd.op == '()' else None
        if fd.q.startswith('std::') and fd.n in ALGOS and len(args) == 3:
            r = self.search(e, fd.n, self.clist(st, self.aval(st, args[0])), args[2], st)
            if r is not None:
                return r
        if m is not None and m.group(1) in ALGOS and len(args) >= 2:
            its = len(args) > 2 and self.aval(st, args[1])[0] == 'cit'
            r = self.search(e, m.group(1), self.clist(st, args[0][1]), args[2 if its else 1], st)
            if r is not None:
                return r
        if fd.op in ('==', '!=', '*', '++', '-') and (args or ob is not None):
            v = ([] if ob is None else [self.load(st, ob)]) + [self.aval(st, a) for a in args]
            if v[0][0] == 'cit':
                if len(v) == 2 and v[1][0] == 'cit' and fd.op in ('==', '!='):
                    return [(st, ('c', int((v[0] == v[1]) == (fd.op == '=='))))]
                if len(v) == 2 and v[1][0] == 'cit' and fd.op == '-':
                    return [(st, ('c', v[0][2] - v[1][2]))]
                if fd.op == '*' and v[0][2] < len(v[0][1]):
                    return [(st, ('c', v[0][1][v[0][2]]))]
                if fd.op == '++':
                    p = ob if ob is not None else args[0][1]
                    s = st.copy()
                    s.store[p] = ('cit', v[0][1], v[0][2] + 1)
                    return [(s, v[0] if len(v) > 1 else p)]
        if fd.n in ('isfinite', 'isnan', 'isinf') and fd.sys and args:
            v = self.aval(st, args[0])
            if v[0] == 'c' and isinstance(v[1], (int, float)):
                return [(st, ('c', int(getattr(math, fd.n)(v[1]))))]
        return None


    def search(self, e, n, cs, a, st):
        """an algorithm over a list of constants"""
        if cs is None:
            return None
        if n in ('any_of', 'none_of', 'all_of', 'find_if', 'find_if_not', 'count_if'):
            f = self.func(st, a[1])
            if not isinstance(f, tuple):
                return None
            rs = []
            for c in cs:
                x = self.call_lambda(e, f, [('R', ('c', c))], st)
                if len(x) != 1 or x[0][1][0] != 'c':
                    return None
                rs.append(bool(x[0][1][1]))
        else:
            v = self.aval(st, a)
            if v[0] != 'c':
                return None
            rs = [c == v[1] for c in cs]
        if n == 'find_if_not':
            rs = [not r for r in rs]
        if n.startswith('find'):
            return [(st, ('cit', cs, rs.index(True) if True in rs else len(cs)))]
        if n.startswith('count'):
            return [(st, ('c', sum(rs)))]
        return [(st, ('c', int(not any(rs) if n == 'none_of' else all(rs) if n == 'all_of' else any(rs))))]

    def st_rfor(self, s, states):
        r = None
        if 'init' not in s and len(states) == 1:
            x = self.ev(s['r'], states[0]) if s['r'].get('lv') else self.rv(s['r'], states[0])
            if len(x) == 1:
                r = self.clist(x[0][0], x[0][1])
        if r is None or len(r) > 64:
            return super().st_rfor(s, states)
        out = Out()
        work = [x[0][0]]
        v = s['var']
        for c in r:
            nxt = []
            for st in work:
                y = st.copy()
                self.kill(y, ('v', v['d']))
                y.store[('v', v['d'])] = ('c', c)
                nxt.append(y)
            o = self.exec(s['body'], nxt)
            out.ret += o.ret
            out.n += o.brk
            work = self.limit(o.n + o.cont)
        out.n = self.limit(out.n + work)
        return out

    def loop(self, s, states, cond, body, inc, post=False):
        if cond is not None and not post and s['k'] != 'rfor':
            out = self.unroll(states, cond, body, inc)
            if out is not None:
                return out
        return super().loop(s, states, cond, body, inc, post)

    def unroll(self, states, cond, body, inc):
        """a loop whose every step is decided by constants"""
        out = Out()
        work = states
        for _ in range(20):
            t = []
            for st in work:
                a = cond(st, True)
                b = cond(st, False) if a else []
                if a and b:
                    return None
                t += a
                out.n += b if a else cond(st, False)
            if not t:
                out.n = self.limit(out.n)
                return out
            o = body(t)
            out.ret += o.ret
            out.n += o.brk
            work = self.limit(o.n + o.cont)
            if inc is not None:
                work = inc(work)
        return None

    def closes_over(self, st, a):
        """a closure over the value"""
        f = self.func(st, a[1])
        return isinstance(f, tuple) and any(n.get('k') in ('ref', 'mem') and self.from_root(n, st) for n in walk(self.lambdas[f[1]][0].get('body') or {}))

    def about(self, st, a):
        """the value itself, or a closure over it"""
        v = self.aval(st, a)
        if v in self.values:
            return True
        f = self.func(st, a[1])
        if isinstance(f, tuple):
            for n in walk(self.lambdas[f[1]][0]):
                if n.get('k') == 'ref' and self.load(st, ('v', n['d'])) in self.values:
                    return True
        return False

    def default_call(self, e, fd, ob, args, st):
        if self.deep:
            carry = fd.sys and any(self.about(st, a) for a in args)
        else:
            xs = e.get('a') or ()
            carry = fd.sys and any(self.aval(st, a) in self.values and (self.has(st, a) or len(xs) == len(args) and self.from_root(xs[i], st)) or self.closes_over(st, a)
                                   for i, a in enumerate(args))
        r = super().default_call(e, fd, ob, args, st)
        if carry and (fd.ret.b == 'bool' or 'iterator' in (fd.ret.s or '')):
            for _, v in r:
                self.fuzzy.add(v)
        return r

    def on_fact(self, st, atom, val):
        super().on_fact(st, atom, val)
        if self.fuzzy and any(contains(atom, x) for x in self.fuzzy):
            st.aux['fuzzy'] = True


def outcome(P, f, i, fld, value, budget=300000, counts=None):
    """('refused' | 'accepted' | 'unknown', flow): fld is the qualified field or '' for the parameter itself"""
    root = ('par', i, f.params[i]['n'])

    def setup(st):
        if fld:
            st.store[('fld', root, fld)] = ('c', value)
        else:
            st.store[('v', f.params[i]['d'])] = ('c', value)
    a = None
    for deep, depth, b in ((not fld, 12, budget), (False, 4, budget)):
        a = RejectFlow(P, root, value, deep)
        a.max_inline = depth
        a.counts = counts
        a.budget = b
        try:
            res, exc = a.run(f, setup)
        except Budget:
            continue
        good = [s for s, v in res if not s.aux.get('caught') and a.cls(v, s) != 'err' and not nothing_there(s)]
        if good and all(s.aux.get('fuzzy') for s in good):
            return 'maybe', a
        return ('accepted' if good else 'refused'), a
    return 'unknown', a


def outcomes(P, jobs):
    """[(function, parameter, field, value)] -> outcomes, in parallel"""
    import multiprocessing as mp
    import os
    global _P
    _P = P
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
        return pool.map(_one, [(j[0].d.q,) + tuple(j[1:5]) + tuple(j[6:]) for j in jobs], chunksize=4)


def _one(j):
    f = next(f for f in _P.funcs if f.d.q == j[0])
    try:
        return outcome(_P, f, *j[1:])[0]
    except RecursionError:
        return 'unknown'
    except Exception as x:
        return 'error: %r' % x
