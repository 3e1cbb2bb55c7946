"""A kernel operation that changes a mesh hands back an undo action that holds every part of the change."""
from ..effects import CONTENT, EffFlow, K, MESHES, NORMALISE, modref
from ..facts import func_nodes
from ..flow import Budget
from ..undo import UNDO, UndoFlow, carries_undo, infeasible, is_undo_obj, undo_classes

MIN = {'operations': 20, 'effects': 40}
# every edge this removes is replaced by two edges between the same nodes: no node becomes unconnected
REPLACES = {K + 'SplitRowColumnOfMesh'}
COMPOUND = K + 'CompoundUndoAction'


def covered_fields(P):
    """undo class -> content fields its DoRestore writes, and whether it holds a picture taken at construction"""
    from .c12_inverse import method
    M = modref(P)
    out = {}
    for q in undo_classes(P):
        f = method(P, q, 'DoRestore') if q != UNDO else None
        if f is None:
            continue
        ws = {x for root, fields in M.S[f].writes for x in fields}
        out[q] = ws & CONTENT
        if {K + 'CurvilinearGrid::m_startOffset', K + 'CurvilinearGrid::m_endOffset'} <= ws:
            out[q] = out[q] | {K + 'CurvilinearGrid::m_gridNodes'}      # hides the rows and columns that were added
    return out


class KeptFlow(UndoFlow):
    def __init__(self, P, covers, root):
        super().__init__(P, set(), set(), set())
        self.covers = covers
        self.root = root
        self.connect = set()

    def geometry(self, p):
        """(mesh object, content field) of a place outside local objects"""
        chain, q = [], p
        while isinstance(q, tuple) and q and q[0] in ('fld', 'el', 'deref', 'it', 'at', 'ref', 'rfld', 'addr', 'copy'):
            chain.append(q)
            q = q[2] if q[0] in ('at', 'rfld') else q[1]
            if q is None:
                return None
        if not isinstance(q, tuple) or q[0] in ('obj', 'new', 'v', 'top', 'ret', 'call'):
            return None
        for x in reversed(chain):
            if x[0] == 'fld' and x[2] in CONTENT:
                return (self.base(x[1]), x[2])
        return None

    def base(self, b):
        while isinstance(b, tuple) and b and b[0] in ('deref', 'ref', 'addr', 'at'):
            b = b[2] if b[0] == 'at' else b[1]
        return b

    def on_effect(self, p, st, node, fd):
        g = self.geometry(p)
        if g is None:
            return
        base, field = g
        cands = set(self.argtoks)
        if fd is not None and carries_undo(self.P, fd.ret):
            cands.add(self.site(node))
        for k in st.aux:
            if k[0] == 'made' and k[2] == base and field in k[3]:
                cands.add(k[1])
        self.events += 1
        fr = self.frame().fn
        what = fd.q if fd is not None else None
        if fd is not None and carries_undo(self.P, fd.ret):
            st.aux[('pend', self.site(node))] = True
        st.aux[('eff', base, field, frozenset(cands), what, '%s:%s' % (fr.file, node.get('l', fr.line)), fd is not None and carries_undo(self.P, fd.ret))] = True

    def empty(self, st, t, fd):
        return st.facts.get(('t', ('ret', t))) is False or st.facts.get(('t', ('get', 0, ('ret', t)))) is False or infeasible(self.P, self, st)

    def mark(self, out, fd, cls, args, st):
        """an action made for a mesh"""
        if cls not in self.covers or not args or args[0][0] != 'L':
            return out
        b = self.base(args[0][1])
        res = []
        for s, v in out:
            s = s.copy()
            if s.aux.get(('pend', self.tok(v))) and ('esc', self.tok(v)) not in s.aux and any(k[0] == 'eff' and self.tok(v) in k[3] for k in s.aux):
                s.aux[('lost', self.tok(v), cls, '%s:%s' % (self.frame().fn.file, self.frame().fn.line))] = True
            s.aux[('pend', self.tok(v))] = True
            s.aux[('made', self.tok(v), b, frozenset(self.covers[cls]))] = True
            # an action made after a single-element change still covers it
            for k in [k for k in s.aux if k[0] == 'eff' and k[1] == b and k[2] in self.covers[cls] and not k[6]]:
                if not self.picture(cls):
                    del s.aux[k]
                    s.aux[k[:3] + (k[3] | {self.tok(v)},) + k[4:]] = True
            res.append((s, v))
        return res

    def picture(self, cls):
        return cls.split('::')[-1] in ('FullUnstructuredGridUndo', 'NodeTranslationAction', 'MeshConversionAction', 'CurvilinearGridBlockUndoAction', 'CurvilinearGridRefinementUndoAction')

    def snapshot_scope(self, fd, args, st):
        return None

    def make(self, e, fd, args, st):
        t = fd.ret.targs[0] if fd.ret.targs else None
        out = EffFlow.make(self, e, fd, args, st)
        return self.mark(out, fd, t.rec, args, st) if t is not None else out

    def default_call(self, e, fd, ob, args, st):
        if fd is not None and fd.n == 'ConnectNodes':
            self.connect.add(self.site(e))
        out = EffFlow.default_call(self, e, fd, ob, args, st)
        if fd is not None and fd.static and fd.cls in undo_classes(self.P) and carries_undo(self.P, fd.ret):
            return self.mark(out, fd, fd.cls, args, st)
        return out

    def want_inline(self, fd, fn, node, st):
        return False

    def on_call(self, node, fd, ob, args, st):
        if fd.n == 'Insert' and not args and fd.cls in undo_classes(self.P):
            return [(st, ('inserter', self.tok(ob)))]
        if fd.op == '=' and ob is not None and ob[0] == 'inserter' and args:
            s = st.copy()
            self.write(s, ob, self.aval(st, args[0]), node)
            return [(s, ('void',))]
        return super().on_call(node, fd, ob, args, st)

    def held(self, st, t):
        st.aux.pop(('pend', t), None)

    def escape(self, args, st):
        for a in args:
            t = self.tok(self.aval(st, a))
            if t is not None and any(k[0] == 'made' and k[1] == t or k[0] == 'eff' and t in k[3] for k in st.aux):
                st.aux[('esc', t)] = True

    def contcall(self, e, fd, ob, args, st):
        if fd.n in ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front'):
            st = st.copy()
            self.escape(args, st)
        return super().contcall(e, fd, ob, args, st)

    def on_opaque(self, node, fd, ob, args, st):
        t = self.site(node)
        if st.aux.pop(('pend', t), None) and ('esc', t) not in st.aux and not self.empty(st, t, fd):
            # the action of the last time round the loop is in nobody's hands
            st.aux[('lost', t, fd.q, '%s:%s' % (self.frame().fn.file, node.get('l')))] = True
        super().on_opaque(node, fd, ob, args, st)
        if fd is not None:
            self.escape([a for a, t in zip(args, fd.p) if carries_undo(self.P, t.to if t.ref and t.to is not None else t)], st)
        if fd is None or fd.n not in NORMALISE or fd.cls not in MESHES or ob is None:
            return
        ps = [i for i, t in enumerate(fd.p) if t.ptr and t.to is not None and t.to.rec in undo_classes(self.P)]
        b = self.base(ob)
        old = [k for k in st.aux if k[0] == 'eff' and k[1] == b and k[6]]
        if not ps or not old or self.root.d.cls in REPLACES:
            return
        v = self.aval(st, args[ps[0]]) if ps[0] < len(args) else ('null',)
        self.norms += 1
        if v[0] == 'null' or v == ('c', 0):
            cands = {k[1] for k in st.aux if k[0] == 'made' and k[2] == b and K + 'Mesh::m_nodes' in k[3]}
            fr = self.frame().fn
            st.aux[('eff', b, K + 'Mesh::m_nodes', frozenset(cands), fd.q, '%s:%s' % (fr.file, node.get('l', fr.line)), False)] = True

    norms = 0

    def write(self, st, p, v, node):
        if p[0] == 'inserter':
            st.aux[('in', self.tok(v))] = p[1]
            self.held(st, self.tok(v))
            return
        super().write(st, p, v, node)


def keeps(P, f):
    """parameters through which the caller gets the actions"""
    return [i for i, p in enumerate(f.params) if p['t'].ref and not p['t'].const and p['t'].to is not None and not p['t'].to.const and (carries_undo(P, p['t'].to) or p['t'].to.rec == COMPOUND)]


def closure(st, toks):
    done = set(toks)
    ch = True
    while ch:
        ch = False
        for k, v in st.aux.items():
            if k[0] == 'in' and v in done and k[1] not in done:
                done.add(k[1])
                ch = True
    return done


def unchanged_when_false(P, covers, cache, fd):
    """a function returning (flag, action) that changes nothing when the flag is false"""
    f = fd.defn
    if f is None or f.body is None or fd.ret.rec not in ('std::tuple', 'std::pair') or fd.ret.targs[0].s != 'bool':
        return False
    if fd.q not in cache:
        cache[fd.q] = False
        res, _ = KeptFlow(P, covers, f).run(f)
        cache[fd.q] = bool(res) and all(v[0] == 'tuple' and v[1][0] == 'c' and (v[1][1] or not any(k[0] == 'eff' for k in st.aux)) for st, v in res)
    return cache[fd.q]


def check(P, rep, tier):
    covers = covered_fields(P)
    from ..undo import infeasible
    cache = {}
    byname = {g.d.q: g.d for g in P.funcs}
    for f in P.funcs:
        if f.body is None or 'meshkernelapi' in f.d.q or f.d.cls in undo_classes(P) or f.file.startswith('libs/MeshKernelApi'):
            continue
        kp = keeps(P, f)
        if not carries_undo(P, f.d.ret) and not kp:
            continue
        rep.count('operations')
        a = KeptFlow(P, covers, f)
        try:
            res, _ = a.run(f)
        except Budget:
            rep.count('not_decided')
            continue
        before = len(rep.viol)
        n = 0
        for st, v in res:
            if infeasible(P, a, st):
                continue
            vs = [v] + (list(v[1:]) if v[0] == 'tuple' else [])
            toks = {a.tok(x) for x in vs if isinstance(x, tuple)}
            toks |= {a.tok(('ref', ('par', i, f.params[i]['n']))) for i in kp} | {('par', i, f.params[i]['n']) for i in kp}
            done = closure(st, toks)
            for k in st.aux:
                if k[0] == 'lost':
                    rep.bad('%s:%s' % (f.d.q, k[2]), k[3], '%s calls %s in a loop and loses the undo action of one round in the next' % (f.d.q.replace(K, ''), k[2].replace(K, '')))
                if k[0] != 'eff':
                    continue
                n += 1
                if k[3] & done:
                    continue
                if k[6] and any(st.facts.get(('t', ('get', 0, ('ret', t)))) is False for t in k[3]) and unchanged_when_false(P, covers, cache, byname[k[4]]):
                    continue
                if any(('esc', t) in st.aux for t in k[3]):
                    rep.count('undecided_effects')      # kept in a container or handed to another function
                    continue
                rep.bad('%s:%s' % (f.d.q, k[4] or k[2]), k[5], '%s changes %s%s and can return without an undo action for it' % (
                    f.d.q.replace(K, ''), k[2].split('::')[-1], ' (by calling %s)' % k[4].replace(K, '') if k[4] else ''))
        rep.count('effects', n)
        rep.count('normalisations_after_change', a.norms)
        if len(rep.viol) == before:
            rep.ok('%s: every change it makes is in the action it returns' % f.d.q.replace(K, '') if n else None)
