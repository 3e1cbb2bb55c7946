"""Which parameters of a C API call are written, on which paths."""
from .api import ApiFlow
from .effects import modref
from .flow import contains


def param_of(p, st=None):
    """(parameter index, first field below it) of a place below a parameter"""
    f = ''
    while isinstance(p, tuple) and p:
        k = p[0]
        if k == 'par':
            return p[1], f
        if k == 'fld':
            f = p[2].split('::')[-1]
            p = p[1]
        elif k in ('el', 'deref', 'it', 'addr', 'ref', 'copy'):
            p = p[1]
        elif k == 'at':
            p = p[2]
        elif k == 'op' and p[1] in '+-':
            p = p[2]
        elif st is not None and k == 'top' and st.aux.get(('into', p)) is not None:
            p = st.aux[('into', p)]
        else:
            return None
    return None


def const_to(t):
    return bool(t.const) or bool(t.to is not None and t.to is not t and t.to.const)


class OutFlow(ApiFlow):
    """aux ('out', parameter, field): written on this path, or a loop that writes it was passed"""

    def __init__(self, P):
        super().__init__(P)
        self.wr = []
        self.places = {}

    def put(self, st, p, node):
        k = param_of(p, st)
        if k is None or len(self.frames) == 0:
            return
        k = ('out',) + k
        st.aux[k] = True
        fr = self.frame().fn
        self.places.setdefault(k, '%s:%s' % (fr.file, (node or {}).get('l', fr.line)))
        for w in self.wr:
            w.add(k)

    def on_write(self, path, val, st, node):
        super().on_write(path, val, st, node)
        self.put(st, path, node)

    def generalise(self, st, mods, s):
        """a pointer that moves in a loop stays in the array it points into"""
        st2 = super().generalise(st, mods, s)
        if st2 is not st:
            for d in mods:
                v, w = st.store.get(('v', d)), st2.store.get(('v', d))
                if v is not None and w is not None and v != w and w[0] == 'top' and not contains(v, w) and param_of(v, st) is not None:
                    st2.aux[('into', w)] = v
        return st2

    def loop(self, s, states, *a, **kw):
        self.wr.append(set())
        try:
            o = super().loop(s, states, *a, **kw)
        finally:
            w = self.wr.pop()
        for st in o.n:
            for k in w:
                st.aux[k] = True
        return o

    def on_opaque(self, node, fd, ob, args, st):
        super().on_opaque(node, fd, ob, args, st)
        if fd is None:
            return
        M = modref(self.P)
        if fd.defn is not None and fd.defn in M.S:
            hit = {}
            for root, path in M.S[fd.defn].writes:
                if root != 'this' and root[0] == 'p':
                    hit.setdefault(root[1], []).append(path)
            for j, paths in hit.items():
                if j < len(args):
                    v = args[j][1]
                    for path in paths:
                        q = v
                        for c in path:
                            if '::' in c:
                                q = ('fld', q, c)
                        self.put(st, q, node)
        elif fd.sys:
            if fd.ctor and fd.q.startswith('Eigen::Map') and args:
                # a map is only made to be assigned to
                self.put(st, self.aval(st, args[0]), node)
            for a, t in zip(args, fd.p if not fd.cls else ()):
                if (t.ptr or t.ref == 1) and not const_to(t):
                    self.put(st, self.aval(st, a) if t.ptr else a[1], node)
            if fd.n in ('copy', 'copy_n', 'transform', 'fill', 'fill_n') and fd.q.startswith('std::'):
                for a in args:
                    v = self.aval(st, a)
                    self.put(st, v, node)


def outputs(P, f):
    a = OutFlow(P)
    res, _ = a.run(f)
    states = [s for s, v in res if not s.aux.get('caught') and a.cls(v, s) != 'err']
    good = [{k[1:] for k in s.aux if k[0] == 'out'} for s in states]
    may = set().union(*[{k[1:] for k in s.aux if k[0] == 'out'} for s, v in res]) if res else set()
    must = set.intersection(*good) if good else set()
    return a, may, must, good, states


def has_call(t, names):
    if isinstance(t, tuple):
        if t and t[0] == 'call' and str(t[1]).split('::')[-1] in names:
            return True
        return any(has_call(x, names) for x in t)
    return False


def nothing_there(s):
    """the path was taken because there is nothing to give back"""
    for k, v in s.facts.items():
        if k[0] == '<' and k[1] == ('c', 0) and v is False and isinstance(k[2], tuple) and k[2][0] in ('call', 'size', 'fld'):
            return True
        if k[0] == '<' and k[2] == ('c', 1) and v is True and isinstance(k[1], tuple) and k[1][0] in ('call', 'size', 'fld'):
            return True
        if k[0] == '==' and v is True and (k[1] == ('c', 0) and k[2][0] in ('call', 'size', 'fld') or k[2] == ('c', 0) and k[1][0] in ('call', 'size', 'fld')):
            return True
        if k[0] == '==' and v is True and ('null',) in k and any(isinstance(x, tuple) and x[0] == 'fld' for x in k):
            return True
        if k[0] == 't' and v is True and has_call(k[1], ('empty', 'IsEmpty')):
            return True
        if k[0] == 't' and v is False and has_call(k[1], ('IsValid',)):
            return True
    return False
