"""Undo coverage of C API calls: which changes of a state's geometry happen on a path, and which recorded undo action takes each back."""
from .api import api_functions, id_params, STATE, STACK, UNDO
from .effects import EffFlow, CONTENT, modref
from .facts import AnalysisBroken
from .flow import is_smart

SNAP = 'meshkernelapi::MKStateUndoAction'


def derived(P, base):
    out = {base}
    ch = True
    while ch:
        ch = False
        for q, bs in P.bases_of.items():
            if q not in out and any(b in out for b in bs):
                out.add(q)
                ch = True
    return out


def undo_classes(P):
    if not hasattr(P, 'undo_cls'):
        c = set()
        c.add(UNDO)
        ch = True
        while ch:
            ch = False
            for r in P.records.values():
                if r.q not in c and any((b.rec in c) for b in r.bases):
                    c.add(r.q)
                    ch = True
        if len(c) < 10:
            raise AnalysisBroken('undo action classes not found')
        P.undo_cls = c
    return P.undo_cls


def carries_undo(P, t):
    if t is None:
        return False
    if t.rec in ('std::unique_ptr', 'std::shared_ptr') and t.targs and getattr(t.targs[0], 'rec', None) in undo_classes(P):
        return True
    if t.rec in ('std::tuple', 'std::pair'):
        return any(not isinstance(a, str) and carries_undo(P, a) for a in (t.targs or []))
    return False


def is_undo_obj(P, t):
    """pointer/reference/owner of an undo action"""
    if t is None:
        return False
    x = t.to if (t.ref and t.to is not None) else t
    return carries_undo(P, x) or x.rec in undo_classes(P)


def swapped(P):
    """fields of the state that the snapshot action puts back: written through its reference on both restore and commit"""
    M = modref(P)
    r = P.recs_by_q.get(SNAP)
    if r is None:
        raise AnalysisBroken('the state snapshot action was not found')
    sets = []
    for n in ('DoRestore', 'DoCommit'):
        ds = [m.defn for m in r.methods if m.n == n and m.defn is not None]
        if len(ds) != 1:
            raise AnalysisBroken(SNAP + '::' + n + ' not found')
        s = set()
        for root, fields in M.S[ds[0]].writes:
            fs = [f for f in fields if f.startswith(STATE + '::')]
            if root == 'this' and fs and fields and fields[0] == SNAP + '::m_mkStateReference' or (root == 'this' and fs and P_isref(P, fields[0])):
                s.add(fs[0])
        sets.append(always_put_back(P, ds[0], s))
    return sets[0] & sets[1], sets


def always_put_back(P, f, fields):
    """of the fields written by f, those written on every path (or already equal)"""
    from .api import ApiFlow
    from .flow import Budget
    try:
        res, _ = ApiFlow(P).run(f)
    except Budget:
        return fields
    out = set(fields)
    for st, _ in res:
        if st.hav:
            continue
        done = set()
        for k in st.store:
            if k[0] == 'fld' and k[2] in fields and k[1][0] == 'fld' and P_isref(P, k[1][2]):
                done.add(k[2])
            if k[0] == 'fld' and P_isref(P, k[2]):
                done |= fields
        for k, v in st.facts.items():
            if v is True and k[0] == '==':
                done |= {x[2] for x in k[1:] if x[0] == 'fld'} & {x[2] for x in k[1:] if x[0] == 'fld' and x[1][0] == 'fld' and P_isref(P, x[1][2])}
        out &= done
    return out


def P_isref(P, q):
    cls, n = q.rsplit('::', 1)
    r = P.recs_by_q.get(cls)
    return r is not None and any(f['n'] == n and f['t'].ref for f in r.fields)


class UndoFlow(EffFlow):
    def __init__(self, P, always, sess, cover):
        super().__init__(P)
        self.always = always
        self.sess = sess
        self.cover = cover
        self.events = 0

    def tok(self, v):
        while isinstance(v, tuple) and v:
            if v[0] in ('new', 'ret', 'obj'):
                return v[1]
            if v[0] == 'get':
                v = v[2]
            elif v[0] == 'at':
                v = v[2]
            elif v[0] in ('deref', 'addr', 'ref'):
                v = v[1]
            else:
                break
        return v

    def on_effect(self, p, st, node, fd):
        g = self.geometry(p)
        if g is None:
            return
        key, ptr, ch, _ = g
        if ptr is None:
            return
        fr = self.frame().fn
        if self.through(p):
            c = [x for x in ch if x in CONTENT]
            if ch and not c:
                return
            kind, what = 'mod', (c[0] if c else '*')
        else:
            if ptr in self.sess:
                return
            kind, what = 'repl', ptr
        self.events += 1
        cands = set()
        if fd is not None and carries_undo(self.P, fd.ret):
            cands.add(self.site(node))
        cands |= self.argtoks
        for k in st.aux:
            if k[0] == 'snap':
                if kind == 'repl' and k[2] == ('state', key) and ptr in self.cover:
                    cands.add(k[1])
                if kind == 'mod' and k[2][0] == 'obj' and k[2][1] == ptr:
                    cands.add(k[1])
        st.aux[('eff', kind, key, ptr, what, frozenset(cands), '%s:%s' % (fr.file, node.get('l', fr.line)))] = True

    argtoks = frozenset()

    def on_opaque(self, node, fd, ob, args, st):
        old = self.argtoks
        if fd is not None:
            t = {k[1] for k in st.aux if k[0] == 'snap' and k[2] == ('via', ob)}
            for i, a in enumerate(args):
                pt = fd.p[i] if i < len(fd.p) else None
                if pt is not None and is_undo_obj(self.P, pt):
                    t.add(self.tok(self.aval(st, a)))
            self.argtoks = frozenset(t)
        try:
            super().on_opaque(node, fd, ob, args, st)
        finally:
            self.argtoks = old

    def is_pure(self, fd, args):
        return not carries_undo(self.P, fd.ret) and super().is_pure(fd, args)

    def snapshot_scope(self, fd, args, st):
        """what a factory/constructor of an undo action that takes one object takes a picture of"""
        if len(args) != 1:
            return None
        pt = fd.p[0] if fd.p else None
        if args[0][0] != 'L':
            return None
        p = args[0][1]
        if p[0] == 'el' and p[1] == self.map:
            return ('state', p[2])
        g = self.geometry(p)
        if g is not None and self.through(p) and not g[2]:
            return ('obj', g[1])
        return None

    def make(self, e, fd, args, st):
        t = fd.ret.targs[0] if fd.ret.targs else None
        sc = None
        if t is not None and t.rec in undo_classes(self.P):
            sc = self.snapshot_scope(fd, args, st)
        out = super().make(e, fd, args, st)
        if sc is not None:
            res = []
            for s, v in out:
                s = s.copy()
                s.aux[('snap', self.tok(v), sc)] = True
                res.append((s, v))
            return res
        return out

    def default_call(self, e, fd, ob, args, st):
        out = super().default_call(e, fd, ob, args, st)
        g = self.geometry(ob) if ob is not None else None
        if fd is not None and not fd.static and fd.cls is not None and ob is not None and carries_undo(self.P, fd.ret) and (g is None or g[1] in self.sess):
            # an algorithm object that hands out its undo action first: it covers what the same object does next
            res = []
            for s, v in out:
                s = s.copy()
                s.aux[('snap', self.tok(v), ('via', ob))] = True
                res.append((s, v))
            return res
        if fd is not None and fd.static and fd.cls in undo_classes(self.P) and carries_undo(self.P, fd.ret):
            sc = self.snapshot_scope(fd, args, st)
            if sc is not None:
                res = []
                for s, v in out:
                    s = s.copy()
                    s.aux[('snap', self.tok(v), sc)] = True
                    res.append((s, v))
                return res
        return out

    def on_call(self, node, fd, ob, args, st):
        r = super().on_call(node, fd, ob, args, st)
        if r is not None:
            return r
        if fd.cls == STACK and ob == self.stack:
            if fd.n == 'Add':
                v = self.aval(st, args[0])
                i = self.aval(st, args[1]) if len(args) > 1 else None
                self.throw(st, 'any')
                s = st.copy()
                self.record(s, self.tok(v), i)
                if ('add', i) in s.aux and self.site(node) != s.aux[('add', i)]:
                    s.aux[('twice', i)] = True
                s.aux[('add', i)] = self.site(node)
                if args[0][0] == 'L':
                    s.store[args[0][1]] = ('null',)
                return [(s, ('void',))]
            if fd.n in ('Remove', 'Clear'):
                s = st.copy()
                s.aux[('stack', fd.n, self.aval(st, args[0]) if args else None)] = True
                return [(s, ('ret', self.site(node)))]
        if fd.n in ('Add', 'Insert') and fd.cls in undo_classes(self.P) and ob is not None and args:
            v = self.aval(st, args[0])
            self.throw(st, 'any')
            s = st.copy()
            s.aux[('in', self.tok(v))] = self.tok(ob)
            self.held(s, self.tok(v))
            if args[0][0] == 'L':
                s.store[args[0][1]] = ('null',)
            return [(s, ('void',))]
        return None

    def held(self, st, t):
        pass

    def record(self, s, t, i):
        s.aux[('rec', t)] = i
        for k, v in list(s.aux.items()):
            if k[0] == 'in' and v == t and ('rec', k[1]) not in s.aux:
                self.record(s, k[1], i)


def infeasible(P, a, s):
    """when connecting two nodes reports that no edge was made, both nodes existed before: nothing was inserted on the way"""
    for k, v in s.facts.items():
        if v is True and k[0] == '==':
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if y == ('c', 4294967295) and x[0] == 'get' and x[1] == 0 and x[2][0] == 'ret' and x[2][1] in a.connect:
                    return True
    return False


def analyse(P):
    """[(function, flow, success states, all states)] cached"""
    if hasattr(P, 'undo_results'):
        return P.undo_results
    from .rules.c05_sessions import pointer_fields
    always, sess = pointer_fields(P)
    cover, _ = swapped(P)
    out = []
    for f in api_functions(P):
        a = UndoFlow(P, always, sess, cover)
        a.connect = set()
        orig = a.default_call

        def dc(e, fd, ob, args, st, a=a, orig=orig):
            if fd is not None and fd.n == 'ConnectNodes':
                a.connect.add(a.site(e))
            return orig(e, fd, ob, args, st)
        a.default_call = dc
        res, exc = a.run(f)
        good = [s for s, v in res if not s.aux.get('caught') and not infeasible(P, a, s)]
        out.append((f, a, good, [s for s, v in res]))
    P.undo_results = (always, sess, cover, out)
    return P.undo_results
