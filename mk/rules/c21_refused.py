"""A refused call leaves the state and the history as they were: on no path does a refusal follow a change.
Refusals: throw statements of the API layer, and throw statements a called kernel function reaches in its own body or in a pure checking
function it calls, other than while it carries out its own change."""
from ..facts import walk
from ..throws import ExplicitThrows
from .. import undo

MIN = {'functions': 100, 'refusals': 10}
# functions whose own refusal cannot happen once the API function has changed the mesh
SATISFIED = {'FindNodeCloseToAPoint': 'refuses only a mesh without nodes; one was inserted before', 'BuildTree': 'refuses only unknown locations', 'Administrate': 'internal'}

PAIRS = {('mkernel_deallocate_state', 'Contacts'): 'refuses only meshes of different projections; both were just created with the same one'}


class RefusedFlow(undo.UndoFlow):
    def __init__(self, *a):
        super().__init__(*a)
        self.found = {}
        self.seen = set()

    def changed(self, st):
        return sorted({(k[3] or '').split('::')[-1] for k in st.aux if k[0] == 'eff'}) + (['the undo history'] if any(k[0] == 'add' for k in st.aux) else [])

    def on_effect(self, p, st, node, fd):
        super().on_effect(p, st, node, fd)
        g = self.geometry(p)
        if g is not None and g[1] in self.sess and not self.through(p):
            st.aux[('eff', 'session', g[0], g[1], g[1], frozenset(), '')] = True

    def on_throw(self, node, st, ty):
        if node.get('e') is not None:
            self.seen.add(node['id'])
            ch = self.changed(st)
            if ch:
                self.found.setdefault((self.frames[0].fn.d.n, 'throw'), (ch, self.frame().fn.file, node.get('l'), 'the refusal'))
        return super().on_throw(node, st, ty)

    def on_call(self, e, fd, ob, args, st):
        k = fd if fd.ctor else None
        if k is None and fd.n in ('make_unique', 'make_shared') and fd.sys and fd.ret.targs:
            t = fd.ret.targs[0]
            c = self.find_ctor(t, args) if t is not None and t.rec else None
            k = c.d if c is not None else None
        if k is not None and k.defn is not None and not k.defn.file.startswith('libs/MeshKernelApi/'):
            self.refusal(e, k, st)
        return super().on_call(e, fd, ob, args, st)

    def refusal(self, e, fd, st):
        if fd.n not in SATISFIED and (self.frames[0].fn.d.n, fd.n) not in PAIRS and refuses(self.P, fd, e, self.T):
            self.seen.add(e['id'])
            ch = self.changed(st)
            if ch:
                self.found.setdefault((self.frames[0].fn.d.n, fd.q), (ch, self.frame().fn.file, e.get('l'), fd.q))

    def opaque(self, e, fd, ob, args, st):
        if fd is not None and not fd.ctor:
            self.refusal(e, fd, st)
        return super().opaque(e, fd, ob, args, st)


def refuses(P, fd, node, T):
    for d in T.defs(fd, node):
        if own(P, d):
            return True
    return False


def own(P, f):
    """the function itself, or a checking function it calls as a statement, throws"""
    memo = P.__dict__.setdefault('_own_throws', {})
    if f in memo:
        return memo[f]
    memo[f] = False
    r = False
    for n in walk(f.body):
        if n.get('k') == 'throw' and n.get('e') is not None:
            r = True
        elif n.get('k') == 'expr' and n['e'].get('k') == 'call':
            g = n['e'].get('f')
            if g is not None and g.defn is not None and not g.sys and (g.const or g.static or g.cls is None) and g.ret.s == 'void' and own(P, g.defn):
                r = True
    memo[f] = r
    return r


def check(P, rep, tier):
    from .c05_sessions import pointer_fields
    from ..api import api_functions
    always, sess = pointer_fields(P)
    cover, _ = undo.swapped(P)
    T = ExplicitThrows(P)
    for f in api_functions(P):
        a = RefusedFlow(P, always, sess, cover)
        a.T = T
        a.connect = set()
        a.run(f)
        rep.count('functions')
        rep.count('refusals', len(a.seen))
        for (fn, key), (ch, file, line, what) in a.found.items():
            rep.bad('%s:%s' % (fn, key.split('::')[-1]), '%s:%s' % (file, line), '%s can still be refused (%s) after it changed %s' % (fn, what, ', '.join(ch)))
        if not a.found:
            rep.ok('%s: %d possible refusals, all before the first change' % (f.d.n, len(a.seen)))
