"""Access analysis of OpenMP regions: every access one iteration makes to storage shared with the others.

The region body is walked with all callees inlined.  A place is (root, steps): root is a variable or 'this' of the
enclosing function (shared), or ('own', ..) for storage created inside the iteration.  Numbers are ('k', c),
('lin', a, b) = a*i + b in the loop index i, ('tab', field) = element i of an offset table (plus increments), 'inv' for
values that do not depend on the iteration and 'top'."""
from .facts import walk
from .modref import NOWRITE, PUREFREE, SMART, _const_iter

MAXDEPTH = 14
NEUTRAL = {'reserve', 'capacity', 'max_size', 'shrink_to_fit'}
KILL = {'clear', 'assign', 'operator='}
TOP = 'top'


def jn(a, b):
    return a if a == b else TOP


def add(a, b, s=1):
    if a[0] == 'k' and b[0] == 'k':
        return ('k', a[1] + s * b[1])
    if a[0] == 'lin' and b[0] == 'k':
        return ('lin', a[1], a[2] + s * b[1])
    if b[0] == 'lin' and a[0] == 'k' and s == 1:
        return ('lin', b[1], b[2] + a[1])
    if a[0] == 'tab' and b[0] != 'tab':
        return a
    if b[0] == 'tab' and s == 1 and a[0] != 'tab':
        return b
    if a in ('inv',) and (b == 'inv' or b[0] == 'k') or (a[0] == 'k' and b == 'inv'):
        return 'inv'
    return TOP


def mul(a, b):
    if a[0] == 'k' and b[0] == 'k':
        return ('k', a[1] * b[1])
    if a[0] == 'lin' and b[0] == 'k':
        return ('lin', a[1] * b[1], a[2] * b[1])
    if b[0] == 'lin' and a[0] == 'k':
        return mul(b, a)
    if (a == 'inv' or a[0] == 'k') and (b == 'inv' or b[0] == 'k'):
        return 'inv'
    return TOP


class V:
    """value: a set of places it designates, a number"""
    __slots__ = ('p', 'n', 'lam')

    def __init__(self, p=(), n=TOP, lam=None):
        self.p = frozenset(p)
        self.n = n
        self.lam = lam


class Region:
    def __init__(self, P, fn, node):
        self.P = P
        self.fn = fn
        self.node = node
        self.acc = []            # (rw, place, where, depth)
        self.priv = set()
        self.reduced = set()
        self.privseq = {}        # private variable -> first access kind
        self.opaque = {}
        self.calls = set()
        self.own = set()
        self.env = {}
        self.stack = []
        self.quiet = False

    # ---------------------------------------------------------------- entry
    def run(self):
        for c in self.node['cl']:
            k = c['k']
            if k in ('private', 'lastprivate'):
                self.priv |= set(c['v'])
            elif k in ('firstprivate', 'linear'):
                self.own |= set(c['v'])
            elif k == 'reduction':
                self.own |= set(c['v'])
        body = self.node['body']
        loop = body
        while loop.get('k') in ('blk', 'omp') and loop['k'] == 'blk' and len(loop['s']) == 1:
            loop = loop['s'][0]
        self.loop = loop
        self.where_ = self.fn.file
        if loop['k'] == 'for':
            iv = None
            if loop['init'] and loop['init']['k'] == 'decl':
                iv = loop['init']['v'][0]['d']
            else:
                for n in walk(loop['init']):
                    if n.get('k') == 'asg' and n['x']['k'] == 'ref':
                        iv = n['x']['d']
            self.iv = iv
            self.own.add(iv)
            step = 1
            inc = loop['inc']
            if inc is not None and inc['k'] == 'asg' and inc['y']['k'] == 'lit':
                pass
            for q in (True, False):
                self.quiet = q
                self.env[iv] = V(n=('lin', 1, 0))
                self.ev(loop['c'])
                self.env[iv] = V(n=('lin', 1, 0))
                self.st(loop['body'])
        else:
            self.iv = None
            for q in (True, False):
                self.quiet = q
                self.st(body)
        return self

    def shared(self, place):
        r = place[0]
        if r[0] == 'own':
            return False
        if r[0] == 'v':
            return r[1] not in self.own and r[1] not in self.priv
        return True

    def rec(self, rw, ps, node, meth=None):
        for p in ps:
            if p[0][0] == 'v' and p[0][1] in self.priv:
                if not self.quiet:
                    self.privseq.setdefault(p[0][1], []).append((rw, meth, len(p[1]), node.get('l')))
                continue
            if self.shared(p) and not self.quiet:
                self.acc.append((rw, p, '%s:%s' % (self.where_, node.get('l'))))

    # ---------------------------------------------------------------- statements
    def st(self, s):
        if s is None:
            return
        k = s.get('k')
        if k == 'blk':
            for x in s['s']:
                self.st(x)
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'if':
            if s.get('init'):
                self.st(s['init'])
            if isinstance(s.get('cv'), dict):
                self.decl(s['cv'])
            self.ev(s['c'])
            e0 = dict(self.env)
            self.st(s['then'])
            e1 = self.env
            self.env = e0
            self.st(s.get('else'))
            self.env = self.join(e1, self.env)
        elif k in ('for', 'while', 'do', 'rfor'):
            if s.get('init'):
                (self.st if s['init']['k'] in ('decl', 'expr', 'blk') else self.ev)(s['init'])
            if k == 'rfor':
                r = self.ev(s['r'])
                self.rec('r', r.p, s, 'range')
                v = s['var']
                if isinstance(v, dict):
                    el = frozenset((p[0], p[1] + (('i', TOP),)) for p in r.p)
                    if v['t'] is not None and v['t'].ref:
                        self.env[v['d']] = V(el)
                    else:
                        self.rec('r', el, s)
                        self.own.add(v['d'])
                        self.env[v['d']] = V({(('own', v['d']), ())})
                    for b in v.get('bind', []) or []:
                        self.env[b['d']] = V(el)
            for _ in range(2):
                e0 = dict(self.env)
                if s.get('c') is not None:
                    self.ev(s['c'])
                self.st(s['body'])
                if s.get('inc') is not None:
                    self.ev(s['inc'])
                self.env = self.join(e0, self.env)
        elif k == 'switch':
            self.ev(s['c'])
            self.st(s['body'])
        elif k in ('case', 'default'):
            self.st(s['s'])
        elif k == 'ret':
            if s.get('e') is not None:
                v = self.ev(s['e'])
                if self.stack:
                    self.stack[-1]['ret'].append(v)
        elif k == 'try':
            self.st(s['body'])
            for h in s['h']:
                for key in ('body', 's'):
                    if isinstance(h.get(key), dict):
                        self.st(h[key])
        elif k in ('break', 'continue', None):
            pass
        elif k == 'omp':
            if s['dir'] in ('critical', 'atomic'):
                save = len(self.acc)
                self.st(s['body'])
                del self.acc[save:]        # mutually exclusive
            else:
                self.st(s['body'])
        else:
            self.ev(s)

    def join(self, a, b):
        out = dict(a)
        for d, v in b.items():
            if d in out and out[d] is not v:
                out[d] = V(out[d].p | v.p, jn(out[d].n, v.n), out[d].lam or v.lam)
            else:
                out[d] = v
        return out

    def decl(self, v):
        d = v['d']
        t = v.get('t')
        i = v.get('init')
        r = self.ev(i) if isinstance(i, dict) else V()
        if v.get('static'):
            if not (t is not None and t.const):
                self.env[d] = V({(('static', d), ())})
                self.rec('w', self.env[d].p, v)
            else:
                self.env[d] = V({(('own', d), ())})
            return
        if t is not None and t.ref or t is not None and t.ptr or (t is not None and t.rec and ('iterator' in t.rec.lower())):
            self.env[d] = V(r.p or {(('own', d), ())}, r.n, r.lam)
        else:
            if isinstance(i, dict) and i['k'] in ('ref', 'mem', 'idx', 'call'):
                self.rec('r', r.p, v)
            self.own.add(d)
            self.env[d] = V({(('own', d), ())}, r.n, r.lam)
        for b in v.get('bind', []) or []:
            if t is not None and t.ref:
                self.env[b['d']] = V(r.p)
            else:
                self.env[b['d']] = V({(('own', b['d']), ())})

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None or not isinstance(e, dict):
            return V()
        k = e['k']
        if k == 'lit':
            try:
                return V(n=('k', int(e['v'])))
            except (TypeError, ValueError):
                return V(n='inv')
        if k == 'enum':
            return V(n='inv')
        if k == 'ref':
            d = e['d']
            if 'cv' in e:
                try:
                    return V(n=('k', int(e['cv'])))
                except (TypeError, ValueError):
                    return V(n='inv')
            if d in self.env:
                return self.env[d]
            if d.startswith('g:'):
                return V({(('g', d[2:]), ())}, 'inv')
            if d in self.own or d in self.priv:
                return V({(('v', d), ())}, TOP)
            return V({(('v', d), ())}, 'inv')
        if k == 'this':
            return self.stack[-1]['this'] if self.stack else V({(('this',), ())})
        if k == 'mem':
            b = self.ev(e['b'])
            if e['n'] in ('x', 'y') or not b.p:
                pass
            return V({(p[0], p[1] + (('f', e['f']),)) for p in b.p}, 'inv' if all(self.inv(p) for p in b.p) and b.p else TOP)
        if k == 'idx':
            b = self.ev(e['b'])
            i = self.num(e['i'])
            return self.elem(b, i, e)
        if k == 'asg':
            y = self.ev(e['y'])
            if e['y']['k'] in ('ref', 'mem', 'idx', 'call'):
                self.rec('r', y.p, e)
            if e['x']['k'] == 'ref' and e['x']['d'] in self.env and e['x']['d'] in self.own:
                d = e['x']['d']
                t = e['x'].get('t')
                old = self.env[d]
                if e['op'] == '=':
                    if t is not None and t.ptr:
                        self.env[d] = V(y.p, y.n)
                    else:
                        self.env[d] = V(old.p, y.n)
                elif e['op'] == '+=':
                    self.env[d] = V(old.p, old.n if old.n[0] == 'tab' else TOP)
                else:
                    self.env[d] = V(old.p, TOP)
                return self.env[d]
            x = self.ev(e['x'])
            if e['op'] != '=':
                self.rec('r', x.p, e)
            self.rec('w', x.p, e, 'operator=' if e['op'] == '=' else None)
            return x
        if k == 'un':
            x = self.ev(e['e'])
            if e['op'][:2] in ('++', '--'):
                if e['e']['k'] == 'ref' and e['e']['d'] in self.own:
                    d = e['e']['d']
                    if d in self.env:
                        self.env[d] = V(x.p, x.n if x.n[0] == 'tab' and '++' in e['op'] else TOP)
                else:
                    self.rec('r', x.p, e)
                    self.rec('w', x.p, e)
                return x
            if e['op'] in ('*', '&'):
                return x
            self.rd(e['e'], x)
            if e['op'] == '-' and x.n[0] == 'k':
                return V(n=('k', -x.n[1]))
            return V(n='inv' if x.n == 'inv' or x.n[0] == 'k' else TOP)
        if k == 'bin':
            x, y = self.ev(e['x']), self.ev(e['y'])
            self.rd(e['x'], x)
            self.rd(e['y'], y)
            if e['op'] == '+':
                n = add(x.n, y.n)
            elif e['op'] == '-':
                n = add(x.n, y.n, -1)
            elif e['op'] == '*':
                n = mul(x.n, y.n)
            elif e['op'] == ',':
                return y
            else:
                n = 'inv' if (x.n == 'inv' or x.n[0] == 'k') and (y.n == 'inv' or y.n[0] == 'k') else TOP
            return V(n=n)
        if k == 'cond':
            self.rd(e['c'], self.ev(e['c']))
            x, y = self.ev(e['x']), self.ev(e['y'])
            return V(x.p | y.p, jn(x.n, y.n))
        if k == 'cast':
            return self.ev(e['e'])
        if k == 'lambda':
            return V({(('own', e['id']), ())}, TOP, [e])
        if k == 'ctor':
            return self.construct(e, e['f'], e['a'])
        if k == 'call':
            return self.call(e)
        if k in ('decl', 'expr', 'blk', 'if', 'for', 'while', 'do', 'rfor', 'switch', 'ret', 'try', 'break', 'continue', 'omp', 'case', 'default'):
            self.st(e)
            return V()
        for x in e.values():
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and 'k' in y:
                    self.rd(y, self.ev(y))
        return V({(('own', e.get('id')), ())})

    def inv(self, p):
        return self.shared(p) and all(s[0] == 'f' or s[1] == 'inv' or s[1][0] == 'k' for s in p[1])

    def rd(self, e, v):
        if e['k'] in ('ref', 'mem', 'idx', 'call', 'cast', 'cond'):
            self.rec('r', v.p, e)

    def num(self, e):
        v = self.ev(e)
        self.rd(e, v)
        return v.n

    def elem(self, b, i, e):
        out = {(p[0], p[1] + (('i', i),)) for p in b.p}
        n = TOP
        if len(b.p) == 1 and i[0] == 'lin':
            p = next(iter(b.p))
            fs = [s for s in p[1] if s[0] == 'f']
            if self.shared(p) and fs and p[1][-1][0] == 'f':
                n = ('tab', fs[-1][1])
        elif b.p and (i == 'inv' or i[0] == 'k') and all(self.inv(p) for p in b.p):
            n = 'inv'
        return V(out, n)

    def construct(self, e, fd, args):
        vs = [self.ev(a) for a in args]
        if fd.ctor in ('copy', 'move') and args:
            if fd.ctor == 'copy':
                self.rec('r', vs[0].p, e)
            return V({(('own', e['id']), ())}, vs[0].n, vs[0].lam)
        o = V({(('own', e['id']), ())})
        if fd.defn is not None:
            self.inline(e, fd.defn, o, args, vs)
        else:
            for a, v in zip(args, vs):
                self.rd(a, v)
        t = e.get('t')
        if t is not None and t.rec and ('iterator' in t.rec.lower() or t.rec in ('std::span', 'std::reference_wrapper')):
            return V(frozenset().union(*[v.p for v in vs]) if vs else ())
        return o

    def inline(self, e, fn, obj, args, vs):
        if len(self.stack) >= MAXDEPTH or any(f['fn'] is fn for f in self.stack):
            # recursion: assume it touches everything it is given
            for v in vs:
                self.rec('r', v.p, e)
            self.opaque[fn.d.q] = e.get('l')
            return V()
        fr = {'fn': fn, 'this': obj, 'ret': []}
        self.calls.add(fn.d.q)
        save_env, save_where = self.env, self.where_
        env = {}
        for p, a, v in zip(fn.params, args, vs):
            t = p['t']
            if t is not None and (t.ref or t.ptr or (t.rec and 'iterator' in t.rec.lower())):
                env[p['d']] = V(v.p or {(('own', p['d']), ())}, v.n, v.lam)
            else:
                self.rd(a, v)
                self.own.add(p['d'])
                env[p['d']] = V({(('own', p['d']), ())}, v.n, v.lam)
        for p in fn.params[len(vs):]:
            env[p['d']] = V({(('own', p['d']), ())}, 'inv')
        # closures see the variables of their definition
        for d, v in save_env.items():
            env.setdefault(d, v)
        self.env = env
        self.stack.append(fr)
        self.where_ = fn.file
        for i in fn.inits or []:
            if isinstance(i.get('e'), dict):
                v = self.ev(i['e'])
        self.st(fn.body)
        self.stack.pop()
        for d, v in self.env.items():
            if d in save_env:
                save_env[d] = v
        self.env, self.where_ = save_env, save_where
        p, n, lam = frozenset(), None, None
        for v in fr['ret']:
            p |= v.p
            n = v.n if n is None else jn(n, v.n)
            lam = lam or v.lam
        rt = fn.d.ret
        if rt is not None and not rt.ref and not rt.ptr and not (rt.rec and 'iterator' in rt.rec.lower()):
            for v in fr['ret']:
                self.rec('r', v.p, e)
            p = {(('own', e['id']), ())}
        return V(p, n or TOP, lam)

    def runlam(self, lams, vs, e):
        for l in lams:
            if any(f.get('lam') is l for f in self.stack):
                continue
            for p, v in zip(l['params'], vs):
                t = p['t']
                if t is not None and not t.ref and not t.ptr:
                    self.own.add(p['d'])
                    self.env[p['d']] = V({(('own', p['d']), ())}, v.n)
                else:
                    self.env[p['d']] = v
            for c in l['caps']:
                if isinstance(c.get('init'), dict) and 'd' in c:
                    self.env[c['d']] = self.ev(c['init'])
            fr = {'fn': None, 'this': self.stack[-1]['this'] if self.stack else V({(('this',), ())}), 'ret': [], 'lam': l}
            self.stack.append(fr)
            if isinstance(l.get('body'), dict):
                self.st(l['body'])
            self.stack.pop()
            if fr['ret']:
                return fr['ret'][-1]
        return V()

    def call(self, e):
        fd = e.get('f')
        ob = self.ev(e['o']) if 'o' in e else (self.ev(e['fx']) if isinstance(e.get('fx'), dict) else None)
        args = e['a']
        vs = [self.ev(a) for a in args]
        if fd is None or (ob is not None and ob.lam and fd.op == '()'):
            if ob is not None and ob.lam:
                return self.runlam(ob.lam, vs, e)
            self.opaque['call through a pointer'] = e.get('l')
            return V()
        defs = [fd.defn] if fd.defn is not None else []
        if fd.virt and not e.get('qual'):
            st = list(fd.overriders)
            while st:
                o = st.pop()
                if o.defn is not None:
                    defs.append(o.defn)
                st += o.overriders
        if defs:
            out = V()
            for fn in defs:
                r = self.inline(e, fn, ob or V(), args, vs)
                out = V(out.p | r.p, r.n if out.n == TOP and not out.p else jn(out.n, r.n), r.lam or out.lam)
            return out
        n, q = fd.n, fd.q
        for v in vs:
            if v.lam:
                el = frozenset((p[0], p[1] + (('i', TOP),)) for w in vs if not w.lam for p in w.p)
                self.runlam(v.lam, [V(el), V(el)], e)
        if ob is not None and fd.cls is not None:
            if fd.cls in SMART or fd.op in ('*', '->') or n in ('get', 'operator bool'):
                if fd.op == '=' or n in ('reset', 'swap', 'emplace'):
                    self.rec('w', ob.p, e, 'operator=')
                return V(ob.p)
            if fd.op in ('[]', '()') or n == 'at':
                if len(vs) >= 1:
                    r = ob
                    for a, v in zip(args, vs):
                        self.rd(a, v)
                    if fd.cls in ('std::map', 'std::unordered_map') and fd.op == '[]':
                        self.rec('w', ob.p, e)
                    for v in vs:
                        r = self.elem(r, v.n, e)
                    return r
            if n in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data', 'front', 'back', 'first', 'second', 'row', 'col', 'block', 'value', 'top'):
                return V({(p[0], p[1] + (('i', TOP),)) for p in ob.p}) if ob.p else V()
            if fd.op in ('==', '!=', '<', '>', '<=', '>=', '+', '-') or (fd.const and n not in ('size', 'empty', 'capacity', 'rows', 'cols')):
                self.rec('r', ob.p, e)
            elif n in ('size', 'empty', 'rows', 'cols', 'capacity', 'length'):
                self.rec('s', ob.p, e, n)
                return V(n='inv' if all(self.shared(p) for p in ob.p) else TOP)
            elif fd.op in ('++', '--', '+=', '-=') and e['o'].get('t') is not None and e['o']['t'].rec and 'iterator' in e['o']['t'].rec.lower():
                return ob
            elif n not in NOWRITE:
                self.rec('w', ob.p, e, n)
            for a, v in zip(args, vs):
                self.rd(a, v)
            if fd.ret is not None and (fd.ret.ref or fd.ret.ptr):
                return V(ob.p)
            return V({(('own', e['id']), ())})
        # free function
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref') and vs:
            return vs[0]
        if q in ('std::get',) and vs:
            return V({(p[0], p[1] + (('i', TOP),)) for p in vs[0].p}) if e.get('lv') else V()
        if q in ('std::begin', 'std::end', 'std::next', 'std::prev', 'std::addressof') and vs:
            return V({(p[0], p[1] + (('i', TOP),)) for p in vs[0].p})
        wr = set()
        if q not in PUREFREE and not fd.op:
            for i, (a, v) in enumerate(zip(args, vs)):
                pt = fd.p[i] if i < len(fd.p) else None
                if pt is None:
                    continue
                if pt.ref and not pt.const and a.get('lv') and not (pt.to is not None and pt.to.const):
                    wr |= v.p
                elif pt.ptr and not (pt.to is not None and pt.to.const):
                    wr |= v.p
                elif pt.rec and 'iterator' in pt.rec.lower() and not _const_iter(pt):
                    wr |= v.p
        elif fd.op == '<<' and vs:
            wr |= vs[0].p
        for a, v in zip(args, vs):
            self.rd(a, v)
        self.rec('w', wr, e, q)
        if not fd.sys:
            self.opaque[q] = e.get('l')
        p = frozenset()
        if fd.ret is not None and (fd.ret.ref or fd.ret.ptr):
            for v in vs:
                p |= v.p
        nn = 'inv' if vs and all(v.n == 'inv' or v.n[0] == 'k' for v in vs) else TOP
        return V(p or {(('own', e['id']), ())}, nn)


def regions(P):
    for f in P.funcs:
        for n in walk([f.inits or [], f.body]):
            if n.get('k') == 'omp':
                yield f, n


def key(place):
    """the declaration that names the storage, and the indices below it"""
    root, steps = place
    k, idx = None, []
    for s in steps:
        if s[0] == 'f':
            if not idx:
                k = s[1]
        else:
            idx.append(s[1])
    if k is None:
        k = root[1] if root[0] in ('v', 'g', 'static') else 'this object'
    return k, tuple(idx)
