"""Definite assignment: a local (or, in a constructor, a field) of plain type is set on every path before it is read."""
from .facts import walk


def plain(t):
    return t is not None and not t.ref and bool(t.b or t.enum or t.ptr)


def const_true(e):
    return e is None or (e['k'] == 'lit' and str(e['v']) in ('1', 'True', 'true'))


ALL = None      # unreachable: everything counts as assigned


class DA:
    def __init__(self, track, report, recs=None):
        self.track = track        # decl -> name
        self.recs = recs or {}    # decl of an object without values -> keys of its fields in track
        self.report = report
        self.pend = {}
        self.consts = {}

    def meet(self, a, b):
        if a is ALL:
            return b
        if b is ALL:
            return a
        return a & b

    def run(self, body, s):
        self.brk, self.cnt, self.rets, self.retv = [], [], [], []
        return self.st(body, frozenset(s))

    # ------------------------------------------------------------ statements
    def st(self, n, s):
        if n is None or s is ALL:
            return s
        k = n.get('k')
        if k == 'blk':
            for i, x in enumerate(n['s']):
                if x.get('k') == 'while':
                    x['_once'] = self.once_before(n['s'], i)
                s = self.st(x, s)
            return s
        if k == 'expr':
            return self.ev(n['e'], s)
        if k == 'decl':
            for v in n['v']:
                s = self.decl(v, s)
            return s
        if k == 'if':
            if n.get('init'):
                s = self.st(n['init'], s)
            if isinstance(n.get('cv'), dict):
                s = self.decl(n['cv'], s)
            t, f = self.cond(n['c'], s)
            return self.meet(self.st(n['then'], t), self.st(n.get('else'), f))
        if k in ('for', 'while', 'do', 'rfor'):
            if n.get('init'):
                s = self.st(n['init'], s) if n['init'].get('k') in ('decl', 'expr', 'blk') else self.ev(n['init'], s)
            self.brk.append([])
            self.cnt.append([])
            if k == 'rfor':
                s = self.over(n, self.ev(n['r'], s))
                b = self.st(n['body'], s)
                for c in self.cnt[-1]:
                    b = self.meet(b, c)
                out = self.after_loop(s, b)
            elif k == 'do':
                b = self.st(n['body'], s)
                for c in self.cnt[-1]:
                    b = self.meet(b, c)
                out = b
                if b is not ALL:
                    t, f = self.cond(n['c'], b)
                    out = ALL if const_true(n['c']) else f
            else:
                if n.get('c') is None:
                    t, f = s, ALL
                else:
                    t, f = self.cond(n['c'], s)
                    if const_true(n['c']):
                        f = ALL
                b = self.st(n['body'], t)
                for c in self.cnt[-1]:
                    b = self.meet(b, c)
                if n.get('inc') is not None and b is not ALL:
                    self.ev(n['inc'], b)
                out = f
                if k == 'for' and self.once(n) or k == 'while' and n.get('_once'):
                    out = self.meet(b, ALL) if b is not ALL else f
                else:
                    out = self.after_loop(f, b)
            for x in self.brk.pop():
                out = self.meet(out, x)
            self.cnt.pop()
            return out
        if k == 'switch':
            s = self.ev(n['c'], s)
            self.brk.append([])
            body = n['body']
            items = body['s'] if body.get('k') == 'blk' else [body]
            cur, dflt = ALL, False
            covered = None
            for x in items:
                y = x
                while y.get('k') in ('case', 'default'):
                    if y['k'] == 'default':
                        dflt = True
                    cur = self.meet(cur, s)
                    y = y['s']
                cur = self.st(y, cur)
            out = cur
            if not dflt:
                out = self.meet(out, s)
            for x in self.brk.pop():
                out = self.meet(out, x)
            return out
        if k in ('case', 'default'):
            return self.st(n['s'], s)
        if k == 'ret':
            if n.get('e') is not None:
                s = self.ev(n['e'], s)
            self.rets.append(s)
            self.retv.append(n.get('e'))
            return ALL
        if k == 'break':
            if self.brk:
                self.brk[-1].append(s)
            return ALL
        if k == 'continue':
            if self.cnt:
                self.cnt[-1].append(s)
            return ALL
        if k == 'try':
            out = self.st(n['body'], s)
            for h in n['h']:
                for key in ('body', 's'):
                    if isinstance(h.get(key), dict):
                        out = self.meet(out, self.st(h[key], s))
            return out
        if k == 'omp':
            return self.st(n['body'], s)
        return self.ev(n, s)

    def after_loop(self, s, b):
        """after a loop: s when its body is never entered, b after a round"""
        return s

    def over(self, n, s):
        return s

    def link(self, d, e, s):
        """d now says whether the call in e has filled its outputs"""
        if s is ALL:
            return s
        if self.const(e) == 0:
            return s            # false: nothing follows from it being true
        s = frozenset(m for m in s if not (isinstance(m, tuple) and m[1] == d))
        if isinstance(e, dict) and e['k'] == 'call' and e['id'] in self.pend:
            s = s | {('if', d, t) for t in self.pend[e['id']]}
        return s

    def once(self, n):
        """a counting loop over constants that runs at least once"""
        i, c = n.get('init'), n.get('c')
        if not (isinstance(i, dict) and i.get('k') == 'decl'):
            return False
        return any(self.holds_at(c, v['d'], self.const(v.get('init'))) for v in i['v'])

    def once_before(self, stmts, i):
        """the condition of the while loop stmts[i] compares a local that still has its first constant value"""
        c = stmts[i].get('c')
        ds = {x['d'] for x in walk(c) if x.get('k') == 'ref'}
        for j in range(i - 1, -1, -1):
            x = stmts[j]
            if x.get('k') == 'decl':
                for v in x['v']:
                    if v['d'] in ds and self.holds_at(c, v['d'], self.const(v.get('init'))):
                        return True
            if any(y.get('k') in ('asg', 'un', 'call', 'lambda') for y in walk(x)):
                return False
        return False

    def holds_at(self, c, d, a):
        """the comparison of the local d with a constant holds when d is a"""
        while isinstance(c, dict) and c['k'] == 'cast':
            c = c['e']
        if a is None or not isinstance(c, dict) or c.get('k') != 'bin' or c['op'] not in ('<', '<=', '!=', '>', '>='):
            return False
        x, y, op = c['x'], c['y'], c['op']
        while isinstance(x, dict) and x['k'] == 'cast':
            x = x['e']
        while isinstance(y, dict) and y['k'] == 'cast':
            y = y['e']
        if y.get('k') == 'ref' and y['d'] == d:
            x, y, op = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
        b = self.const(y)
        if x.get('k') != 'ref' or x['d'] != d or b is None:
            return False
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '!=': a != b}[op]

    def const(self, e):
        while isinstance(e, dict) and e['k'] == 'cast':
            e = e['e']
        if not isinstance(e, dict):
            return None
        try:
            if e['k'] == 'lit':
                return int(e['v'])
            if e['k'] == 'ref' and e['d'] in self.consts:
                return self.consts[e['d']]
            if 'cv' in e:
                return int(e['cv'])
        except (TypeError, ValueError):
            pass
        return None

    def decl(self, v, s):
        i = v.get('init')
        if v.get('t') is not None and v['t'].const and self.const(i) is not None:
            self.consts[v['d']] = self.const(i)
        if v['d'] in self.recs:
            return s if s is ALL else s - set(self.recs[v['d']])
        if isinstance(i, dict):
            s = self.ev(i, s)
            if s is not ALL and v['d'] in self.track:
                s = s | {v['d']}
            s = self.link(v['d'], i, s)
        elif s is not ALL and v['d'] in self.track:
            s = s - {v['d']}
        return s

    def cond(self, e, s):
        """state when true, state when false"""
        if e is None:
            return s, s
        if e['k'] == 'bin' and e['op'] == '&&':
            t1, f1 = self.cond(e['x'], s)
            t2, f2 = self.cond(e['y'], t1)
            return t2, self.meet(f1, f2)
        if e['k'] == 'bin' and e['op'] == '||':
            t1, f1 = self.cond(e['x'], s)
            t2, f2 = self.cond(e['y'], f1)
            return self.meet(t1, t2), f2
        if e['k'] == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], s)
            return f, t
        s = self.ev(e, s)
        if s is ALL:
            return s, s
        if e['k'] == 'call' and e['id'] in self.pend:
            return s | self.pend[e['id']], s
        if e['k'] == 'ref':
            return s | {m[2] for m in s if isinstance(m, tuple) and m[1] == e['d']}, s
        return s, s

    cache = {}

    def fills(self, fd, i):
        """the callee sets its parameter i on every path (assumed when it has no body here)"""
        fn = fd.defn
        if fn is None or fd.virt or i >= len(fn.params) or fd.n.startswith('mkernel_'):
            return True        # an entry point: C09 shows that it sets its outputs when it succeeds
        k = (id(fn), i)
        if k not in DA.cache:
            DA.cache[k] = True
            p = fn.params[i]
            if not plain(p['t'].to if p['t'] is not None and p['t'].ref else p['t']):
                return True
            read = []
            da = DA({p['d']: p['n']}, lambda d, e: read.append(e))
            end = da.run(fn.body, set())
            r = end
            for x in da.rets:
                r = da.meet(r, x)
            ok = (r is ALL or p['d'] in r) and not read
            if not ok and not read and fd.ret is not None and fd.ret.b == 'bool':
                r = ALL
                for x, e in zip(da.rets, da.retv):
                    if self.const(e) != 0:
                        r = da.meet(r, x)
                ok = 'true' if (r is ALL or p['d'] in r) else False
            DA.cache[k] = ok
        return DA.cache[k]

    # ------------------------------------------------------------ expressions
    def name(self, e):
        if e['k'] == 'ref':
            return e['d']
        if e['k'] == 'mem' and e['b']['k'] == 'this':
            return e['f']
        if e['k'] == 'mem' and e['b']['k'] == 'ref' and e['b']['d'] in self.recs:
            return e['b']['d'] + '.' + e['n']
        return None

    def ev(self, e, s):
        if e is None or s is ALL or not isinstance(e, dict):
            return s
        k = e['k']
        d = self.name(e)
        if d is not None:
            for x in self.recs.get(d, ()):
                if x not in s:
                    self.report(x, e)
                    s = s | {x}
            if d in self.track and d not in s:
                self.report(d, e)
                s = s | {d}
            return s
        if k == 'asg':
            t = self.name(e['x'])
            if t is not None and t in self.track and e['op'] == '=':
                s = self.ev(e['y'], s)
                return s if s is ALL else self.link(t, e['y'], s | {t})
            if t is not None and e['op'] == '=':
                return self.link(t, e['y'], self.ev(e['y'], s))
            s = self.ev(e['y'], s)
            return self.ev(e['x'], s)
        if k == 'un' and e['op'] == '&' and self.name(e['e']) in self.recs:
            return s | set(self.recs[self.name(e['e'])])
        if k == 'un' and e['op'] == '&' and self.name(e['e']) in self.track:
            return s | {self.name(e['e'])}
        if k == 'bin' and e['op'] in ('&&', '||'):
            t, f = self.cond(e, s)
            return self.meet(t, f)
        if k == 'cond':
            t, f = self.cond(e['c'], s)
            return self.meet(self.ev(e['x'], t), self.ev(e['y'], f))
        if k == 'call' or k == 'ctor':
            fd = e.get('f')
            if fd is not None and fd.op == '=' and e.get('o', {}).get('k') == 'ref' and e['o']['d'] in self.recs:
                for a in e['a']:
                    s = self.ev(a, s)
                return s if s is ALL else s | set(self.recs[e['o']['d']])
            for key in ('o', 'fx'):
                if isinstance(e.get(key), dict):
                    s = self.ev(e[key], s)
            out = set()
            for i, a in enumerate(e['a']):
                pt = fd.p[i] if fd is not None and i < len(fd.p) else None
                t = self.name(a)
                if t in self.recs and pt is not None and pt.ref == 1 and not (fd is not None and fd.ctor in ('copy', 'move')) and not (pt.to is not None and pt.to.const):
                    out |= set(self.recs[t])
                    continue
                if t is not None and t in self.track and (pt is None or (pt.ref and not (pt.to is not None and pt.to.const))) and not (
                        fd is not None and fd.q in ('std::move', 'std::forward', 'std::min', 'std::max')):
                    fl = True if fd is None else self.fills(fd, i)
                    if fl is True:
                        out.add(t)         # handed out to be filled in
                    elif fl == 'true':
                        self.pend.setdefault(e['id'], set()).add(t)      # set when the call returns true
                    # else: still without a value after the call
                else:
                    s = self.ev(a, s)
            if s is ALL:
                return s
            if fd is not None and fd.noreturn:
                return ALL
            return s | out
        if k == 'lambda':
            # captured by reference: may be assigned inside; captured by value: read
            for c in e['caps']:
                d = c.get('d')
                if d in self.track and d not in s and not c.get('byref'):
                    self.report(d, e)
            return s | {c.get('d') for c in e['caps'] if c.get('byref')}
        if k == 'throw':
            self.ev(e.get('e'), s)
            return ALL
        if k == 'sizeof':
            return s
        if k in ('decl', 'expr', 'blk', 'if', 'for', 'while', 'do', 'rfor', 'switch', 'ret', 'try', 'break', 'continue', 'omp'):
            return self.st(e, s)
        for x in e.values():
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and 'k' in y:
                    s = self.ev(y, s)
                    if s is ALL:
                        return s
        return s


READS = ('sum', 'prod', 'mean', 'norm', 'squaredNorm', 'maxCoeff', 'minCoeff', 'trace', 'determinant', 'inverse', 'transpose', 'any', 'all', 'count', 'eval', 'dot', 'array', 'back', 'front')
SIZES = ('rows', 'cols', 'size', 'resize', 'empty', 'max_size', 'reserve', 'innerSize', 'outerSize', 'conservativeResize')
ELEMENT = ('operator()', 'operator[]', 'at', 'coeff', 'coeffRef', 'x', 'y', 'z', 'w')


class ArrDA(DA):
    """the same for the elements of arrays and matrices: an array counts as set once one of its elements was set on the way;
    a loop sets it when every round does"""

    def __init__(self, track, report):
        super().__init__({d: n for d, (n, k) in track.items()}, report)
        self.inner = []
        self.round = []
        self.sizes = {d: k for d, (n, k) in track.items()}       # None: size not known here

    def after_loop(self, s, b):
        if s is ALL or b is ALL:
            return s
        self.round[-1] |= b
        return s | b

    def decl(self, v, s):
        i = v.get('init')
        if v['d'] in self.track:
            for a in (i or {}).get('a') or ():
                s = self.ev(a, s)
            return s if s is ALL else frozenset(m for m in s if m != v['d'] and not (isinstance(m, tuple) and m[1] == v['d']))
        return super().decl(v, s)

    def over(self, n, s):
        """a loop over the array by reference sets it, by value reads it"""
        d = self.name(n['r'])
        t = n['var'].get('t')
        return s | {d} if s is not ALL and d in self.track and t is not None and t.ref else s

    def st(self, n, s):
        if isinstance(n, dict) and n.get('k') in ('for', 'while', 'do', 'rfor'):
            if '_elw' not in n:
                n['_elw'] = {self.element(x['x']) for x in walk(n) if x.get('k') == 'asg' and x['op'] == '='} | {
                    self.element(x['o']) for x in walk(n) if x.get('k') == 'call' and x.get('op') == '=' and isinstance(x.get('o'), dict)}
            self.inner.append(n['_elw'])
            self.round.append(frozenset())
            try:
                s = super().st(n, s)
                return s if s is ALL else s | self.by_cases(n) | self.round[-1]
            finally:
                self.inner.pop()
                self.round.pop()
        if isinstance(n, dict) and s is not ALL and n.get('k') == 'ret' and isinstance(n.get('e'), dict) and self.name(n['e']) in self.track:
            s = self.read(self.name(n['e']), n, s, True)
        return super().st(n, s)

    def element(self, e):
        """the array an element of which the expression is"""
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        if not isinstance(e, dict):
            return None
        if e['k'] == 'idx':
            b = e.get('b') or e.get('x') or e.get('e')
            while isinstance(b, dict) and b.get('k') == 'cast':
                b = b['e']
            return self.name(b) if isinstance(b, dict) and b.get('k') == 'ref' else self.element(b)
        if e['k'] == 'call' and e.get('f') is not None and isinstance(e.get('o'), dict) and ('operator' + e['op'] if e.get('op') else e['f'].n) in ELEMENT:
            return self.name(e['o']) or self.element(e['o'])
        return None

    def read(self, d, e, s, whole=False):
        if d not in s and (whole or ('el', d) not in s) and not any(d in w for w in self.inner):
            self.report(d, e)
            return s | {d}
        return s

    def put(self, d, x, s):
        """an element of d is set"""
        if self.inner:
            return s | {d}
        idx = tuple(a.get('id', id(a)) if self.const(a) is None and isinstance(a, dict) else self.const(a) for a in self.indices(x))
        n = self.sizes.get(d)
        if n is None:
            return s | {d}
        s = s | {('el', d), ('at', d, idx)}
        if None not in n:
            k = 1
            for i in n:
                k *= i
            if sum(1 for m in s if isinstance(m, tuple) and m[0] == 'at' and m[1] == d) >= k:
                return s | {d}
        return s

    def indices(self, x):
        while isinstance(x, dict) and x.get('k') == 'cast':
            x = x['e']
        return x.get('a') or [x.get('i')] if isinstance(x, dict) else []

    def name(self, e):
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        return super().name(e) if isinstance(e, dict) and 'k' in e else None

    def by_cases(self, n):
        """arrays whose elements a loop sets one by one, by constant index, or one after the other, by a counter of their own"""
        out = set()
        moved = set()
        for x in walk(n.get('body') or {}):
            y = x.get('e') if x.get('k') == 'un' and x['op'][:2] in ('++', '--') else x.get('x') if x.get('k') == 'asg' else None
            if isinstance(y, dict) and y.get('k') == 'ref':
                moved.add(y['d'])
        for x in walk(n):
            if x.get('k') == 'for':
                moved -= {y['d'] for y in walk(x.get('inc') or {}) if y.get('k') == 'ref'}
        for x in walk(n):
            l = x['x'] if x.get('k') == 'asg' and x['op'] == '=' else x.get('o') if x.get('k') == 'call' and x.get('op') == '=' else None
            d = self.element(l) if isinstance(l, dict) else None
            if d in self.track and (all(self.const(a) is not None for a in self.indices(l)) or any(
                    y.get('k') == 'ref' and y['d'] in moved for y in walk(self.indices(l)))):
                out.add(d)
        return out

    def ev(self, e, s):
        if e is None or s is ALL or not isinstance(e, dict):
            return s
        k = e['k']
        if k == 'asg' or k == 'call' and e.get('op') in ('=', '+=', '-=', '*=', '/=') and isinstance(e.get('o'), dict):
            x, y, op = (e['x'], e['y'], e['op']) if k == 'asg' else (e['o'], e['a'][0] if e['a'] else None, e['op'])
            d = self.element(x)
            whole = self.name(x)
            z = x
            while whole not in self.track and d not in self.track and isinstance(z, dict) and z.get('k') in ('call', 'cast'):
                z = z.get('o') if z['k'] == 'call' else z.get('e')       # a view of it is assigned to: m.array() = 0
                whole = self.name(z) if isinstance(z, dict) else None
            if d in self.track or whole in self.track:
                s = self.ev(y, s)
                if s is ALL:
                    return s
                if d not in self.track:
                    return (self.read(whole, e, s, True) if op != '=' else s) | {whole}
                if op != '=':
                    s = self.read(d, e, s)
                return self.put(d, x, s)
        d = self.element(e)
        if d in self.track:
            for a in e.get('a') or [e.get('i'), e.get('y')]:
                if isinstance(a, dict) and 'k' in a:
                    s = self.ev(a, s)
            return s if s is ALL else self.read(d, e, s)
        if k == 'call' and isinstance(e.get('o'), dict) and self.name(e['o']) in self.track and e.get('f') is not None:
            d, n = self.name(e['o']), e['f'].n
            for a in e['a']:
                s = self.ev(a, s)
            if s is ALL or n in SIZES:
                return s
            if n in READS or e.get('op') in ('*', '+', '-', '/'):
                return self.read(d, e, s, True)
            return s | {d}
        if k in ('call', 'ctor'):
            fd = e.get('f')
            out = set()
            if isinstance(e.get('o'), dict):
                s = self.ev(e['o'], s)
            for i, a in enumerate(e['a']):
                if s is ALL:
                    return s
                pt = fd.p[i] if fd is not None and i < len(fd.p) else None
                d = self.name(a) if isinstance(a, dict) else None
                if d not in self.track:
                    d = self.element(a) if pt is not None and pt.ref == 1 and not (pt.to is not None and pt.to.const) else None
                if d in self.track:
                    if fd is not None and (fd.ctor in ('copy', 'move') or fd.op in ('*', '+', '-', '/')):
                        s = self.read(d, e, s, True)
                    elif fd is None or fd.sys and not fd.ctor or pt is None or pt.ptr or pt.ref and not (pt.to is not None and pt.to.const):
                        out.add(d)
                    else:
                        s = self.read(d, e, s, True)
                else:
                    s = self.ev(a, s)
            if s is ALL or fd is not None and fd.noreturn:
                return ALL
            return s | out
        if k == 'un' and e['op'] in ('&', '*') and self.name(e['e']) in self.track:
            return s | {self.name(e['e'])}
        if k == 'lambda':
            return s | {c.get('d') for c in e['caps']}
        d = self.name(e)
        if d in self.track:
            return s | {d}        # handed on in a way that is not followed
        return super().ev(e, s)


def arrays_without_value(f):
    """locals that are arrays or matrices of plain elements without values"""
    out = {}
    for n in walk(f.body):
        if n.get('k') != 'decl':
            continue
        for v in n['v']:
            t, i = v.get('t'), v.get('init')
            if t is None or t.ref or t.ptr or v.get('static'):
                continue
            s = t.s.replace('const ', '')
            el = None
            if s.startswith('Eigen::Matrix<') or s.startswith('std::array<'):
                el = s[s.index('<') + 1:].split(',')[0]
            elif s.endswith(']') and '[' in s:
                el = s[:s.index('[')].strip()
            if el not in ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char', 'short'):
                continue
            if i is None or isinstance(i, dict) and i.get('k') == 'ctor' and not i.get('list') and i['f'].ctor not in ('copy', 'move') and all(a.get('t') is not None and a['t'].b in ('int', 'uint', 'sint') or a.get('k') == 'lit' for a in i['a']):
                dims = None
                if s.startswith('Eigen::'):
                    dims = tuple(number(x) for x in s[s.index('<') + 1:].split(',')[1:3])
                    given = [a.get('cv') if a.get('cv') is not None else a.get('v') if a.get('k') == 'lit' else None for a in (i or {}).get('a', [])]
                    if -1 in dims:
                        dims = tuple(number(x) for x in given) or (None,)
                elif s.startswith('std::array'):
                    dims = (number(s[s.index('<') + 1:].rstrip('>').split(',')[1]),)
                out[v['d']] = (v['n'], dims)
    return out


def number(x):
    try:
        return int(x)
    except (TypeError, ValueError):
        return None


def locals_without_value(f):
    out = {}
    for n in walk(f.body):
        if n.get('k') == 'decl':
            for v in n['v']:
                t = v.get('t')
                if plain(t) and 'init' not in v and not v.get('static'):
                    out[v['d']] = v['n']
    return out


def objects_without_value(P, f):
    """locals of an aggregate of plain fields, default-initialised"""
    out = {}
    for n in walk(f.body):
        if n.get('k') == 'decl':
            for v in n['v']:
                t, i = v.get('t'), v.get('init')
                if t is None or not t.rec or v.get('static'):
                    continue
                r = P.recs_by_q.get(t.rec)
                if r is None or not r.fields or not all('init' not in x and plain(x['t']) for x in r.fields):
                    continue
                if isinstance(i, dict) and not (i['k'] == 'ctor' and i['f'].dflt and not i['a'] and not i.get('list')):
                    continue
                out[v['d']] = ([v['d'] + '.' + x['n'] for x in r.fields], v['n'])
    return out
