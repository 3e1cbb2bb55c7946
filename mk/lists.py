"""Effect analysis of a class that keeps two lists of records: what each method does to the ends of the lists."""
from .facts import walk
from .flow import Flow, contains

UNK = ('?',)
ORIG = ('orig', 0, 0, (), (), None)     # base, popped at back, popped at front, pushed at back, filters, trimmed to


class ListFlow(Flow):
    def __init__(self, P, lists):
        super().__init__(P)
        self.lists = lists              # names of the fields

    def lf(self, ob):
        if ob is not None and ob[0] == 'fld' and ob[2] in self.lists and ob[1] == ('this',):
            return ob[2]
        return None

    def V(self, st, f):
        return st.aux.get(('L', f), ORIG)

    def set(self, st, f, v):
        s = st.copy()
        s.aux[('L', f)] = v
        return s

    def size(self, st, f):
        v = self.V(st, f)
        if v == UNK:
            return ('top', 'size', f)
        if v[0] == 'empty' and not v[4] and v[5] is None:
            return ('c', len(v[3]) - v[1] - v[2])
        return ('sz', f, v)

    def elem(self, st, f, i=0):
        """i-th from the back"""
        v = self.V(st, f)
        if v == UNK or i < 0:
            return ('top', 'elem', f)
        if i < len(v[3]):
            return v[3][-1 - i]
        if v[4] or v[0] == 'empty':
            return ('top', 'elem', f)
        return ('elt', f, v[1] + i - len(v[3]))

    def pop_back(self, st, f):
        v = self.V(st, f)
        if v == UNK:
            return st
        if v[3]:
            return self.set(st, f, v[:3] + (v[3][:-1],) + v[4:])
        if v[4] or v[0] == 'empty':
            return self.set(st, f, UNK)
        return self.set(st, f, (v[0], v[1] + 1) + v[2:])

    def pop_front(self, st, f):
        v = self.V(st, f)
        if v == UNK:
            return st
        if v[0] == 'empty' and v[3]:
            return self.set(st, f, v[:3] + (v[3][1:],) + v[4:])
        if v[4] or v[0] == 'empty' or v[5] is not None:
            return self.set(st, f, UNK)
        return self.set(st, f, v[:2] + (v[2] + 1,) + v[3:])

    def push(self, st, f, el):
        v = self.V(st, f)
        if v == UNK:
            return st
        return self.set(st, f, v[:3] + (v[3] + (el,),) + v[4:])

    def trim(self, st, f, x):
        v = self.V(st, f)
        if v == UNK:
            return st
        if v[5] is not None or v[2]:
            return self.set(st, f, UNK)
        return self.set(st, f, v[:5] + (x,))

    def pred(self, e, lam, f, st):
        """the filter a predicate stands for: ('id', value) or None"""
        if lam[0] != 'lam':
            return None
        el = ('elt', f, 'any')
        r = self.call_lambda(e, lam, [('L', el)], st)
        if len(r) != 1:
            return None
        v = r[0][1]
        return self.predval(v, el)

    def predval(self, v, el):
        if v[0] == 'op' and v[1] == '==':
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if a[0] == 'fld' and a[1] == el and not contains(b, el):
                    return (a[2].rsplit('::', 1)[-1], b)
        if v[0] == 'op' and v[1] in ('!=', '<', '>', '<=', '>='):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if a[0] == 'fld' and a[1] == el and not contains(b, el):
                    return (a[2].rsplit('::', 1)[-1] + v[1], b)
        if v[0] == 'c':
            return ('all' if v[1] else 'none', v)
        return None

    def newelem(self, e, args, st):
        """element made from the arguments of emplace_back/push_back"""
        if len(args) == 1:
            p = args[0][1]
            if p[0] in ('elt', 'nel'):
                return st, p
            w = st.store.get(p)
            if w is not None and w[0] == 'copy' and w[1][0] in ('elt', 'nel'):
                return st, w[1]
            if w is not None and w[0] == 'ref' and w[1][0] in ('elt', 'nel'):
                return st, w[1]
            el = ('nel', self.site(e))
            s = st.copy()
            for n in self.fields:
                s.store[('fld', el, n)] = self.load0(s, ('fld', p, n))
            return s, el
        el = ('nel', self.site(e))
        s = st.copy()
        for n, a in zip(self.fields, args):
            s.store[('fld', el, n)] = self.aval(s, a)
        return s, el

    # ------------------------------------------------------------ calls
    def on_call(self, e, fd, ob, args, st):
        f = self.lf(ob)
        n = fd.n
        if f is not None and fd.sys:
            return self.listcall(e, fd, n, f, args, st)
        lits = [a[1] for a in args]
        vals = [self.aval(st, a) for a in args]
        if n in ('prev', 'next') and vals and vals[0][0] == 'lit':
            k = vals[1] if len(vals) > 1 else ('c', 1)
            if e['a'] and len(e['a']) > 1 and e['a'][1].get('dflt'):
                k = ('c', 1)
            return [(st, self.step(vals[0], n == 'next', k))]
        if fd.op in ('++', '--') and ob is not None and self.load0(st, ob)[0] == 'lit':
            s = st.copy()
            old = self.load0(st, ob)
            new = self.step(old, fd.op == '++', ('c', 1))
            self.write(s, ob, new, e)
            return [(s, old if args else ob)]
        if fd.op in ('*', '->') and ob is not None:
            v = self.load0(st, ob)
            if v[0] == 'lit':
                p = self.at(st, v)
                return [(st, p if fd.op == '*' else ('addr', p))]
        if n in ('count_if', 'remove_if', 'erase_if', 'count') and fd.sys and fd.cls is None or (fd.op == '()' and fd.sys and e.get('f') is not None and 'count_if' in (fd.q or '')):
            c = None
            lam = next((v for v in vals if v[0] == 'lam'), None)
            for p in lits + vals:
                if self.lf(p):
                    c = self.lf(p)
                elif p[0] == 'lit':
                    c = p[1]
            if c is not None and lam is not None:
                pr = self.pred(e, lam, c, st)
                if 'count' in fd.q:
                    return [(st, ('count', c, self.V(st, c), pr))]
                return self.filter(c, pr, st)
        return None

    def ev_ctor(self, e, st):
        t = e.get('t')
        if t is not None and t.rec == 'std::optional' and not t.ptr:
            if not e['a']:
                return [(st, ('nopt',))]
            if len(e['a']) == 1:
                out = []
                for s, v in self.rv(e['a'][0], st):
                    at = e['a'][0].get('t')
                    if at is not None and at.rec == 'std::nullopt_t' or v in (('nopt',), ('g', 'std::nullopt')):
                        v = ('nopt',)
                    elif v[0] != 'opt':
                        v = ('opt', v)
                    out.append((s, v))
                return out
        if t is not None and t.rec and 'iterator' in t.rec and len(e['a']) == 1:
            r = self.rv(e['a'][0], st)
            if r and all(v[0] == 'lit' for _, v in r):
                return r
        return super().ev_ctor(e, st)

    def filter(self, f, pr, st):
        v = self.V(st, f)
        if pr is None or v == UNK:
            return [(self.set(st, f, UNK), ('top', 'rm'))]
        return [(self.set(st, f, v[:4] + (v[4] + (pr,), v[5])), ('removed', f, v, pr))]

    def step(self, it, fwd, k):
        if k[0] != 'c' or it[3][0] != 'c':
            if it[2] == 'b' and fwd and it[3] == ('c', 0):
                return ('lit', it[1], 'b', k)
            return ('lit', it[1], '?', ('c', 0))
        d = k[1] if fwd else -k[1]
        if it[2] == 'r':
            return ('lit', it[1], 'r', ('c', it[3][1] + d))
        return ('lit', it[1], it[2], ('c', it[3][1] + d))

    def at(self, st, it):
        f, w, k = it[1:]
        if k[0] == 'c' and w == 'e' and k[1] < 0:
            return self.elem(st, f, -k[1] - 1)
        if k[0] == 'c' and w == 'r' and k[1] >= 0:
            return self.elem(st, f, k[1])
        if w == 'b' and k == ('c', 0) and self.V(st, f) != UNK:
            return ('fst', f, self.V(st, f))
        return ('top', 'at', f)

    def listcall(self, e, fd, n, f, args, st):
        if n in ('size',):
            return [(st, self.size(st, f))]
        if n == 'empty':
            return [(st, ('op', '==', self.size(st, f), ('c', 0)))]
        if n == 'back':
            return [(st, self.elem(st, f))]
        if n == 'front':
            return [(st, ('fst', f, self.V(st, f)))]
        if n in ('begin', 'cbegin'):
            return [(st, ('lit', f, 'b', ('c', 0)))]
        if n in ('end', 'cend'):
            return [(st, ('lit', f, 'e', ('c', 0)))]
        if n in ('rbegin', 'crbegin'):
            return [(st, ('lit', f, 'r', ('c', 0)))]
        if n in ('emplace_back', 'push_back'):
            self.throw(st, 'any')
            s, el = self.newelem(e, args, st)
            return [(self.push(s, f, el), el)]
        if n in ('emplace_front', 'push_front'):
            v = self.V(st, f)
            return [(st if v == UNK else self.set(st, f, ('odd',) + v[1:]), ('top', 'pf'))]
        if n == 'pop_back':
            return [(self.pop_back(st, f), ('void',))]
        if n == 'pop_front':
            return [(self.pop_front(st, f), ('void',))]
        if n == 'clear':
            return [(self.set(st, f, ('empty', 0, 0, (), (), None)), ('void',))]
        if n == 'remove_if':
            lam = self.aval(st, args[0])
            return self.filter(f, self.pred(e, lam, f, st), st)
        vals = [self.aval(st, a) for a in args]
        if n == 'erase' and len(vals) == 1 and vals[0][0] == 'lit':
            if vals[0][2:] == ('e', ('c', -1)):
                return [(self.pop_back(st, f), ('void',))]
            if vals[0][2:] == ('b', ('c', 0)):
                return [(self.pop_front(st, f), ('void',))]
        if n == 'erase' and len(vals) == 2 and vals[0][0] == 'lit' and vals[0][2:] == ('b', ('c', 0)) and vals[1][0] == 'lit' and vals[1][2] == 'b':
            k = vals[1][3]
            if k[0] == 'op' and k[1] == '-' and k[2] == self.size(st, f):
                return [(self.trim(st, f, k[3]), ('void',))]
        if n == 'splice' and len(args) == 3:
            src = self.lf(args[1][1])
            if src and vals[0] == ('lit', f, 'e', ('c', 0)) and vals[2] == ('lit', src, 'e', ('c', -1)):
                el = self.elem(st, src)
                return [(self.push(self.pop_back(st, src), f, el), ('void',))]
        if n == 'resize' and len(args) == 1:
            pass
        s = st
        for g in self.lists:
            if g == f or any(contains(a[1], ('fld', ('this',), g)) for a in args):
                if n not in ('cbegin', 'cend', 'max_size', 'get_allocator'):
                    s = self.set(s, g, UNK)
        return [(s, ('top', 'lc', n))]

    def kill(self, st, p, fresh=False):
        super().kill(st, p, fresh)

    def write(self, st, p, v, node):
        f = self.lf(p)
        if f is not None:
            st.aux[('L', f)] = UNK
        super().write(st, p, v, node)

    def havoc(self, st, p, node, why='call'):
        if p == ('this',):
            for f in self.lists:
                st.aux[('L', f)] = UNK
        elif self.lf(p):
            st.aux[('L', self.lf(p))] = UNK
        super().havoc(st, p, node, why)

    # ------------------------------------------------------------ loops that only shorten a list, or only count
    def single(self, b):
        while b is not None and b['k'] == 'blk':
            ss = [x for x in b['s'] if x['k'] != 'nop']
            if len(ss) != 1:
                return None
            b = ss[0]
        return b

    def pops(self, b, st):
        b = self.single(b)
        if b is None or b['k'] != 'expr' or b['e']['k'] != 'call' or b['e'].get('f') is None or b['e']['f'].n != 'pop_front':
            return None
        r = self.ev(b['e']['o'], st)
        return self.lf(r[0][1]) if len(r) == 1 else None

    def less(self, v):
        return ('op', '<', v[3], v[2]) if v[0] == 'op' and v[1] == '>' else v

    def st_while(self, s, states):
        out = []
        for st in states:
            f = self.pops(s['body'], st)
            r = self.rv(s['c'], st)
            x = None
            if f is not None and len(r) == 1:
                v = r[0][1]
                v = self.less(v)
                if v[0] == 'op' and v[1] == '<' and v[3] == self.size(st, f):
                    x = v[2]
            if x is None:
                return super().st_while(s, states)
            out.append(self.trim(st, f, x))
        from .flow import Out
        return Out(out)

    def st_for(self, s, states):
        from .flow import Out
        out = []
        for st0 in states:
            sts = self.exec(s['init'], [st0]).n if 'init' in s else [st0]
            if len(sts) != 1:
                return super().st_for(s, states)
            st = sts[0]
            f = self.pops(s['body'], st)
            x = None
            if f is not None and 'c' in s and 'inc' in s:
                i = s['inc']
                var = None
                if i['k'] == 'un' and i['op'][:2] == '++' and i['e']['k'] == 'ref':
                    var = i['e']['d']
                r = self.rv(s['c'], st)
                if var is not None and len(r) == 1:
                    v = self.less(r[0][1])
                    a0 = self.load0(st, ('v', var))
                    if v[0] == 'op' and v[1] == '!=' and v[3] == a0:
                        v = ('op', '!=', v[3], v[2])
                    if v[0] == 'op' and v[1] in ('<', '!=') and v[2] == a0:
                        if v[3] == self.size(st, f):
                            x = a0
                        elif v[3][0] == 'op' and v[3][1] == '-' and v[3][2] == self.size(st, f) and a0 == ('c', 0):
                            x = v[3][3]
                    if i['k'] == 'un' and v[0] == 'op' and v[1] == '<' and v[2] == a0 and any(
                            n.get('k') == 'call' and n.get('f') is not None and n['f'].n == 'size' for n in walk(s['c'])):
                        x = None        # the bound shrinks while the loop runs
            if x is None:
                return super().st_for(s, states)
            out.append(self.trim(st, f, x))
        return Out(out)

    def st_rfor(self, s, states):
        from .flow import Out
        b = self.single(s['body'])
        out = []
        if b is not None and b['k'] == 'if' and 'else' not in b and 'cv' not in b:
            t = self.single(b['then'])
            tgt = None
            if t is not None and t['k'] == 'expr':
                t = t['e']
                if t['k'] == 'un' and t['op'][:2] == '++':
                    tgt = t['e']
                elif t['k'] == 'asg' and t['op'] == '+=' and t['y']['k'] == 'lit' and str(t['y']['v']) == '1':
                    tgt = t['x']
            if tgt is not None and tgt['k'] == 'ref' and s['r'].get('lv'):
                for st in states:
                    r = self.ev(s['r'], st)
                    f = self.lf(r[0][1]) if len(r) == 1 else None
                    if f is None:
                        return super().st_rfor(s, states)
                    x = st.copy()
                    el = ('elt', f, 'any')
                    x.store[('v', s['var']['d'])] = ('ref', el)
                    c = self.rv(b['c'], x)
                    pr = self.predval(c[0][1], el) if len(c) == 1 else None
                    old = self.load0(x, ('v', tgt['d']))
                    cnt = ('count', f, self.V(x, f), pr)
                    self.write(x, ('v', tgt['d']), cnt if old == ('c', 0) else self.arith('+', old, cnt), s)
                    out.append(x)
                return Out(out)
        return super().st_rfor(s, states)

    def loop(self, s, states, cond, body, inc, post=False):
        before = {f: {self.V(st, f) for st in states} for f in self.lists}
        o = super().loop(s, states, cond, body, inc, post)
        n = o.n
        for f in self.lists:
            if any(self.V(st, f) not in before[f] for st in n):      # the number of rounds is not known
                n = [self.set(st, f, UNK) for st in n]
        o.n = n
        return o
