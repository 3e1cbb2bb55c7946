"""Forward dataflow over the structured syntax tree.  A state is anything; None means unreachable.
Subclasses give join(a, b), effect(node, s) (after the operands), and may refine cond()."""
from .facts import walk


def const_true(e):
    return e is None or (e['k'] == 'lit' and str(e['v']) in ('1', 'True', 'true'))


class Structured:
    def join(self, a, b):
        raise NotImplementedError

    def j(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    def same(self, a, b):
        return a == b

    def effect(self, e, s):
        return s

    def run(self, f, s):
        self.f = f
        self.brk, self.cnt, self.rets = [], [], []
        self.lamdefs = {}
        self.inlam = []
        for i in f.inits or []:
            if isinstance(i.get('e'), dict):
                s = self.ev(i['e'], s)
            s = self.init_effect(i, s)
        s = self.st(f.body, s)
        for r in self.rets:
            s = self.j(s, r)
        return s

    def init_effect(self, i, s):
        return s

    # ------------------------------------------------------------ statements
    def st(self, n, s):
        if n is None or s is None:
            return s
        k = n.get('k')
        if k == 'blk':
            for x in n['s']:
                s = self.st(x, s)
            return s
        if k == 'expr':
            return self.ev(n['e'], s)
        if k == 'decl':
            for v in n['v']:
                s = self.decl(v, s)
            return s
        if k == 'if':
            if n.get('init'):
                s = self.st(n['init'], s)
            if isinstance(n.get('cv'), dict):
                s = self.decl(n['cv'], s)
            t, f = self.cond(n['c'], s)
            return self.j(self.st(n['then'], t), self.st(n.get('else'), f))
        if k in ('for', 'while', 'do', 'rfor'):
            if n.get('init'):
                s = self.st(n['init'], s)
            if k == 'rfor':
                s = self.ev(n['r'], s)
            cur, out = s, None
            for it in range(12):
                self.brk.append([])
                self.cnt.append([])
                if k == 'do':
                    b = self.st(n['body'], cur)
                    for c in self.cnt[-1]:
                        b = self.j(b, c)
                    t, fl = self.cond(n['c'], b) if b is not None else (None, None)
                    if const_true(n['c']):
                        fl = None
                    nxt, out = t, fl
                else:
                    if k == 'rfor' or n.get('c') is None:
                        t, fl = cur, (cur if k == 'rfor' else None)
                    else:
                        t, fl = self.cond(n['c'], cur)
                        if const_true(n['c']):
                            fl = None
                    b = self.st(n['body'], t)
                    for c in self.cnt[-1]:
                        b = self.j(b, c)
                    if n.get('inc') is not None and b is not None:
                        b = self.ev(n['inc'], b)
                    nxt, out = b, fl
                for x in self.brk.pop():
                    out = self.j(out, x)
                self.cnt.pop()
                new = self.j(cur, nxt)
                if self.same(new, cur):
                    break
                cur = new
            return out
        if k == 'switch':
            if n.get('init'):
                s = self.st(n['init'], s)
            s = self.ev(n['c'], s)
            self.brk.append([])
            body = n['body']
            items = body['s'] if body.get('k') == 'blk' else [body]
            cur, dflt = None, False
            cases = [y for x in items for y in labels(x) if y['k'] == 'case']
            for x in items:
                ls = labels(x)
                y = ls[-1]['s'] if ls else x
                for l in ls:
                    dflt = dflt or l['k'] == 'default'
                    cur = self.j(cur, self.enter_case(n, l, cases, s))
                cur = self.st(y, cur)
            out = cur
            if not dflt:
                out = self.j(out, self.enter_case(n, None, cases, s))
            for x in self.brk.pop():
                out = self.j(out, x)
            return out
        if k in ('case', 'default', 'label'):
            return self.st(n['s'], s)
        if k == 'ret':
            if n.get('e') is not None:
                s = self.ev(n['e'], s)
            if s is not None:
                s = self.at_return(n, s)
                self.rets.append(s)
            return None
        if k == 'break':
            if self.brk:
                self.brk[-1].append(s)
            return None
        if k == 'continue':
            if self.cnt:
                self.cnt[-1].append(s)
            return None
        if k == 'try':
            out = self.st(n['body'], s)
            mid = self.j(s, out)
            for h in n['h']:
                for key in ('body', 's'):
                    if isinstance(h.get(key), dict):
                        out = self.j(out, self.st(h[key], mid))
            return out
        if k in ('omp', 'ostmt'):
            return self.st(n['body'], s) if isinstance(n.get('body'), dict) else s
        if k == 'nop':
            return s
        return self.ev(n, s)

    def enter_case(self, sw, label, cases, s):
        return s

    def at_return(self, n, s):
        return s

    def decl(self, v, s):
        if isinstance(v.get('init'), dict):
            if v['init'].get('k') == 'lambda':
                self.lamdefs[v['d']] = v['init']
                return s
            s = self.ev(v['init'], s)
        return self.decl_effect(v, s) if s is not None else None

    def decl_effect(self, v, s):
        return s

    def cond(self, e, s):
        if e is None or s is None:
            return s, s
        if e['k'] == 'bin' and e['op'] == '&&':
            t1, f1 = self.cond(e['x'], s)
            t2, f2 = self.cond(e['y'], t1)
            return t2, self.j(f1, f2)
        if e['k'] == 'bin' and e['op'] == '||':
            t1, f1 = self.cond(e['x'], s)
            t2, f2 = self.cond(e['y'], f1)
            return self.j(t1, t2), f2
        if e['k'] == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], s)
            return f, t
        if e['k'] == 'cast':
            return self.cond(e['e'], s)
        s = self.ev(e, s)
        if s is None:
            return s, s
        return self.refine(e, s, True), self.refine(e, s, False)

    def refine(self, e, s, truth):
        return s

    # ------------------------------------------------------------ expressions
    def lam(self, l, s):
        """state after the body of a closure ran once"""
        if l['id'] in self.inlam or not isinstance(l.get('body'), dict):
            return s
        self.inlam.append(l['id'])
        sb, sc, sr = self.brk, self.cnt, self.rets
        self.brk, self.cnt, self.rets = [], [], []
        o = self.st(l['body'], s)
        for r in self.rets:
            o = self.j(o, r)
        self.brk, self.cnt, self.rets = sb, sc, sr
        self.inlam.pop()
        return o

    def ev(self, e, s):
        if e is None or s is None:
            return s
        k = e.get('k')
        if k == 'throw':
            if isinstance(e.get('e'), dict):
                self.ev(e['e'], s)
            return None
        if k == 'lambda':
            for c in e['caps']:
                if isinstance(c.get('init'), dict):
                    s = self.ev(c['init'], s)
            return self.j(s, self.lam(e, s))       # handed to someone who may call it
        if k == 'bin' and e['op'] in ('&&', '||'):
            t, f = self.cond(e, s)
            return self.j(t, f)
        if k == 'cond':
            t, f = self.cond(e['c'], s)
            return self.j(self.ev(e['x'], t), self.ev(e['y'], f))
        if k == 'call':
            for x in ([e['o']] if isinstance(e.get('o'), dict) else []) + ([e['fx']] if isinstance(e.get('fx'), dict) else []) + e['a']:
                if x.get('k') == 'ref' and x['d'] in self.lamdefs:
                    l = self.lamdefs[x['d']]
                    s = self.lam(l, s) if x is e.get('o') or x is e.get('fx') else self.j(s, self.lam(l, s))
                    continue
                s = self.ev(x, s)
            return self.effect(e, s) if s is not None else None
        if k == 'asg':
            s = self.ev(e['y'], s)
            s = self.ev(e['x'], s)
            return self.effect(e, s) if s is not None else None
        for key, x in e.items():
            if isinstance(x, dict) and 'k' in x:
                s = self.st(x, s)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and 'k' in y:
                        s = self.st(y, s)
        return self.effect(e, s) if s is not None else None


def labels(x):
    out = []
    while x is not None and x.get('k') in ('case', 'default'):
        out.append(x)
        x = x['s']
    return out
