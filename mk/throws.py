"""Which explicit throw expressions of the repository can propagate out of a function (call graph + handlers)."""
from .facts import walk


class ExplicitThrows:
    def __init__(self, P, ignore=()):
        """ignore: functions whose own throws are argument checks that callers on the analysed paths satisfy"""
        self.P = P
        self.ignore = set(ignore)
        self.memo = {}
        self.fix()

    def defs(self, fd, node):
        if fd.virt and not node.get('qual'):
            seen, st = [], [fd]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.append(x)
                    st.extend(x.overriders)
            return [x.defn for x in seen if x.defn is not None]
        return [fd.defn] if fd.defn is not None else []

    def fix(self):
        # (type, path) facts: func -> {type: witness}
        self.esc = {f: {} for f in self.P.funcs}
        ch = True
        n = 0
        while ch and n < 30:
            n += 1
            ch = False
            for f in self.P.funcs:
                r = {}
                if f.d.q in self.ignore:
                    continue
                if f.inits:
                    for i in f.inits:
                        if i.get('e') is not None:
                            self.node(i['e'], r, f)
                self.node(f.body, r, f)
                for ty, w in r.items():
                    if ty not in self.esc[f]:
                        self.esc[f][ty] = w
                        ch = True

    def node(self, x, r, f, cur=()):
        if isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list)):
                    self.node(y, r, f, cur)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k == 'lambda':
            # closures run where they are passed; counted where written
            if isinstance(x.get('body'), dict):
                self.node(x['body'], r, f, cur)
            return
        if k == 'throw':
            if x.get('e') is not None:
                ty = x['tt'].rec or x['tt'].s
                r.setdefault(ty, ((f, x.get('l')),))
                self.node(x['e'], r, f, cur)
            else:
                for t, w in cur:
                    r.setdefault(t, w)
            return
        if k == 'try':
            b = {}
            self.node(x['body'], b, f, cur)
            left = dict(b)
            for h in x['h']:
                took = []
                for ty in list(left):
                    m = self.catches(h, ty)
                    if m:
                        took.append((ty, left.pop(ty)))
                self.node(h['body'], r, f, tuple(took))
            for ty, w in left.items():
                r.setdefault(ty, w)
            return
        if k in ('call', 'ctor') and x.get('f') is not None:
            for d in self.defs(x['f'], x):
                for ty, w in self.esc[d].items():
                    if len(w) < 12:
                        r.setdefault(ty, ((f, x.get('l')),) + w)
        for key, v in x.items():
            if isinstance(v, (dict, list)):
                self.node(v, r, f, cur)

    def catches(self, h, ty):
        if 'v' not in h:
            return True
        ht = h['ct'].rec or h['ct'].s
        return ty == ht or ht in self.P.bases_of(ty) or (ht == 'std::exception' and ('std::exception' in self.P.bases_of(ty) or ty.startswith('std::')))

    def escaping(self, f):
        e = self.esc.get(f) or {}
        if not e:
            return None
        ty = sorted(e)[0]
        return (ty, e[ty])

    def node_escaping(self, x, f):
        r = {}
        self.node(x, r, f)
        if not r:
            return None
        ty = sorted(r)[0]
        return (ty, r[ty])

    def show(self, w):
        ty, path = w
        return '%s via %s' % (ty, ' -> '.join('%s:%s' % (f.d.q.split('::')[-1], l) for f, l in path))


def handled(T):
    """(function, handler, [error types raised in the repository that it takes]) for every handler"""
    for f in T.P.funcs:
        if f.body is None:
            continue
        for n in walk(f.body):
            if n.get('k') != 'try':
                continue
            b = {}
            T.node(n['body'], b, f)
            left = dict(b)
            for h in n['h']:
                took = [ty for ty in left if T.catches(h, ty)]
                for ty in took:
                    left.pop(ty)
                yield f, h, took


def always_throws(s):
    """control never leaves the statement normally"""
    if not isinstance(s, dict):
        return False
    k = s.get('k')
    if k == 'throw':
        return True
    if k == 'blk':
        return any(always_throws(x) for x in s['s'])
    if k == 'if':
        return s.get('else') is not None and always_throws(s['then']) and always_throws(s['else'])
    if k == 'expr':
        e = s.get('e')
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        return isinstance(e, dict) and (e.get('k') == 'throw' or e.get('k') == 'call' and e.get('f') is not None and
                                        (e['f'].q in ('std::rethrow_exception', 'std::throw_with_nested') or e['f'].defn is not None and always_throws(e['f'].defn.body)))
    if k == 'try':
        return always_throws(s['body']) and all(always_throws(h['body']) for h in s['h'])
    if k == 'do':
        return always_throws(s['body'])
    return False
