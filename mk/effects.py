"""Effects of C API paths on the geometry of a state: the API layer is walked path by path, calls into the kernel are replaced by their
mod/ref summary, translated to the caller's access paths."""
from .api import ApiFlow, STATE
from .facts import AnalysisBroken
from .flow import NULL, is_smart
from .modref import ModRef

K = 'meshkernel::'
# the content of the geometry objects of a state that a user can read back (everything else is derived on demand)
CONTENT = {
    K + 'Mesh::m_nodes', K + 'Mesh::m_edges',
    K + 'CurvilinearGrid::m_gridNodes',
    K + 'Contacts::m_mesh1dIndices', K + 'Contacts::m_mesh2dIndices',
    K + 'Network1D::m_polyLines',
}


# bringing a mesh into its normal form (dangling nodes and edges marked invalid) is what these do, also on behalf of queries
NORMALISE = {'Administrate', 'AdministrateNodesEdges', 'ComputeGridNodeTypes'}
MESHES = {K + 'Mesh', K + 'Mesh1D', K + 'Mesh2D', K + 'CurvilinearGrid'}


def normalising(f):
    return f.d.n in NORMALISE and f.d.cls in MESHES


def modref(P):
    if not hasattr(P, 'modref'):
        P.modref = ModRef(P, lambda f, w: normalising(f) and any(x in CONTENT for x in w[1]))
        if sum(1 for f in P.funcs if normalising(f)) < 3:
            raise AnalysisBroken('mesh administration functions not found')
        for q in CONTENT:
            cls, n = q.rsplit('::', 1)
            if cls not in P.recs_by_q or n not in [f['n'] for f in P.recs_by_q[cls].fields]:
                raise AnalysisBroken('content field %s does not exist' % q)
    return P.modref


def ptrish(t):
    return t is not None and (t.ptr or is_smart(t.to if t.ref and t.to is not None else t) or t.rec in ('std::unique_ptr', 'std::shared_ptr'))


class EffFlow(ApiFlow):
    def __init__(self, P):
        super().__init__(P)
        self.M = modref(P)

    # (term of the location, field chain below the resolved object)
    def on_effect(self, loc, st, node, fd):
        pass

    def step(self, st, p, f):
        p = ('fld', p, f)
        v = st.store.get(p)
        if v is not None and v[0] == 'ref':
            return v[1]
        t = self.field_type(f) if '::' in f else None
        if t is not None and (t.ptr or is_smart(t)):
            return self.pointee(self.load0(st, p))
        return p

    def pointee(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'new':
            return ('obj',) + v[1:]
        return ('deref', v)

    def resolve(self, st, p, fields):
        for i, f in enumerate(fields):
            if f == '=':
                break
            if i == len(fields) - 1 or fields[i + 1] != '=':
                p = self.step(st, p, f)
            else:
                p = ('fld', p, f)
        return p

    def place(self, st, place, ob, args, ptypes):
        root, fields = place
        if root == 'this':
            if ob is None:
                return None
            return self.resolve(st, ob, fields)
        if root[0] == 'p':
            i = root[1]
            if i >= len(args):
                return None
            a = args[i]
            t = ptypes[i] if i < len(ptypes) else None
            if ptrish(t) and not (fields == ('=',)):
                b = self.pointee(self.aval(st, a))
            else:
                b = a[1]
            return self.resolve(st, b, fields)
        if root[0] == 'g':
            return self.resolve(st, ('g', root[1]), fields)
        return None

    def effects_of(self, node, fd, ob, args, st):
        if fd is None:
            return
        for f in self.M.targets(fd, node):
            S = self.M.S.get(f)
            if S is None:
                continue
            for w in S.writes:
                p = self.place(st, w, ob, args, fd.p)
                if p is not None:
                    self.on_effect(p, st, node, fd)

    def on_opaque(self, node, fd, ob, args, st):
        self.effects_of(node, fd, ob, args, st)

    def on_write(self, path, val, st, node):
        self.on_effect(path, st, node, None)

    def on_assign_object(self, node, dst, src, st):
        self.on_effect(dst, st, node, None)

    def bind_ctor_refs(self, fn, st, o, args):
        super().bind_ctor_refs(fn, st, o, args)
        S = self.M.S.get(fn)
        if S is None:
            return
        byf = {}
        for fp, place in S.binds:
            byf.setdefault(fp, []).append(place)
        for fp, places in byf.items():
            if len(places) != 1:
                continue
            b = o
            for f in fp[:-1]:
                b = self.step(st, b, f)
            q = ('fld', b, fp[-1])
            if q in st.store:
                continue
            p = self.place(st, places[0], o, args, fn.d.p)
            t = self.field_type(fp[-1]) if '::' in fp[-1] else None
            if p is None or t is None:
                continue
            if t.ref:
                st.store[q] = ('ref', p)
            elif t.ptr or is_smart(t):
                st.store[q] = p[1] if p[0] == 'deref' else ('addr', p)

    def make(self, e, fd, args, st):
        t = fd.ret.targs[0] if fd.ret.targs else None
        k = self.find_ctor(t, args) if t is not None and t.rec else None
        if k is not None and not k.file.startswith('libs/MeshKernelApi/'):
            self.effects_of(e, k.d, ('obj', self.site(e), t.s), args, st)
        return super().make(e, fd, args, st)

    # ---- classification
    def geometry(self, p):
        """(kernel id, pointer field, content field or None) when p lies in a geometry object of a state, else None"""
        chain = []
        q = p
        while isinstance(q, tuple) and q and q[0] in ('fld', 'el', 'deref', 'it', 'at', 'ref', 'rfld'):
            if q[0] == 'at':
                q = q[2]
                continue
            if q[0] == 'rfld':
                # reference returned by an accessor of the object
                q = q[2]
                chain.append('rfld')
                if q is None:
                    return None
                continue
            if q[0] == 'fld':
                chain.append(q[2])
            if q[0] == 'el' and q[1] == self.map:
                chain.reverse()
                ptr = chain[0] if chain else None
                return (q[2], ptr, tuple(chain[1:]), q is not p and any(True for _ in [0]))
            q = q[1]
        return None

    def through(self, p):
        """p goes through the pointee of a state's pointer (rather than being the pointer)"""
        while isinstance(p, tuple) and p:
            if p[0] in ('deref',):
                return True
            if p[0] == 'at':
                p = p[2]
            elif p[0] in ('fld', 'el', 'it', 'ref'):
                if p[0] == 'el' and p[1] == self.map:
                    return False
                p = p[1]
            elif p[0] == 'rfld':
                p = p[2]
            else:
                return False
        return False
