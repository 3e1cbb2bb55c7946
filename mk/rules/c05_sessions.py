"""Interactive sessions and geometry pointers of a state are never used when absent."""
from ..api import ApiFlow, api_functions, STATE
from ..facts import AnalysisBroken
from ..flow import NULL, is_smart

MIN = {'derefs_session': 2, 'derefs_geometry': 40, 'session_pointers': 2, 'geometry_pointers': 3}


def eqnull(v):
    return ('==',) + tuple(sorted((v, NULL), key=repr))


def pointer_fields(P):
    """(always set by every constructor taking arguments, possibly null) smart pointer fields of a state"""
    r = P.recs_by_q.get(STATE)
    if r is None:
        raise AnalysisBroken('the state record was not found')
    allp = [STATE + '::' + f['n'] for f in r.fields if is_smart(f['t'])]
    ctors = [m.defn for m in r.methods if m.ctor and m.ctor not in ('copy', 'move') and m.defn is not None and m.p]
    if not ctors:
        raise AnalysisBroken('the state constructor was not found')
    always = set(allp)
    for c in ctors:
        a = ApiFlow(P)
        res, _ = a.run(c)
        for s, _ in res:
            for n in list(always):
                v = a.load0(s, a.mk(('fld', ('this',), n)))
                if v[0] != 'new':
                    always.discard(n)
    return always, [n for n in allp if n not in always]


ENDS_STATE = {'mkernel_deallocate_state'}


class F(ApiFlow):
    def field(self, p):
        while p and p[0] == 'at':
            p = p[2]
        if p and p[0] == 'fld' and p[1][0] == 'el' and p[1][1] == self.map:
            return p[2]
        return None

    def where(self, node):
        fr = self.frame().fn
        return '%s:%s' % (fr.file, node.get('l', fr.line))

    def on_deref(self, v, st, node):
        n = self.field(v)
        if n is None:
            if v == NULL:
                self.rep.bad('%s:null' % self.f.d.n, self.where(node), '%s dereferences a pointer that is null on this path' % self.f.d.n)
            return
        if n in self.always:
            self.rep.count('derefs_geometry')
            return
        if n in self.sess:
            self.rep.count('derefs_session')
            if st.facts.get(eqnull(v)) is not False:
                self.rep.bad('%s:%s' % (self.f.d.n, n.split('::')[-1]), self.where(node), '%s uses %s on a path where it was neither created nor checked to exist' % (self.f.d.n, n.split('::')[-1]))
            else:
                self.rep.ok('%s: %s checked before use' % (self.f.d.n, n))

    def on_write(self, path, val, st, node):
        n = self.field(path)
        if n is None:
            return
        if n in self.always:
            self.rep.count('geometry_writes')
            ok = val[0] == 'new' or self.field(val) in self.always or self.nonnull(val) or st.facts.get(eqnull(val)) is False
            if not ok:
                self.rep.bad('%s:%s' % (self.f.d.n, n.split('::')[-1]), self.where(node), '%s can leave %s of a state null' % (self.f.d.n, n.split('::')[-1]))
            else:
                self.rep.ok()
        if n in self.sess:
            self.rep.count('session_writes')
            st.aux[('sess', n)] = 'null' if val == NULL else 'set' if val[0] == 'new' else 'unknown'

    def nonnull(self, v):
        """a copy of a geometry pointer kept by an undo snapshot of the state"""
        while v and v[0] in ('at',):
            v = v[2]
        return v and v[0] == 'fld' and v[2] in self.always and v[1][0] in ('fld', 'obj')


def isnull(a, s, n):
    for k, v in s.facts.items():
        if v is True and k[0] == '==' and NULL in k[1:]:
            if a.field(k[1] if k[2] == NULL else k[2]) == n:
                return 'null'
    return None


def check(P, rep, tier):
    always, sess = pointer_fields(P)
    rep.count('session_pointers', len(sess))
    rep.count('geometry_pointers', len(always))
    created = {n: [] for n in sess}
    dropped = {n: [] for n in sess}
    for f in api_functions(P):
        a = F(P)
        a.always, a.sess, a.f, a.rep = always, sess, f, rep
        res, _ = a.run(f)
        good = [s for s, v in res if not s.aux.get('caught')]
        for s, v in res:
            for p, x in s.store.items():
                if x == NULL and a.field(p) in always:
                    rep.bad('%s:%s' % (f.d.n, a.field(p).split('::')[-1]), f.where, '%s can end with %s of the state missing' % (f.d.n, a.field(p).split('::')[-1]))
        for n in sess:
            k = {s.aux.get(('sess', n)) or isnull(a, s, n) for s in good}
            if 'set' in k:
                created[n].append(f.d.n)
            if 'null' in k and f.d.n not in ENDS_STATE:
                dropped[n].append(f.d.n)
    for n in sess:
        rep.notes.append('%s: created by %s, dropped by %s' % (n, created[n], dropped[n]))
        if not created[n]:
            rep.bad('%s:never-created' % n, STATE, 'no entry point creates %s' % n)
        if not dropped[n]:
            rep.bad('%s:never-dropped' % n, STATE, 'no entry point drops %s' % n)
        if created[n] and dropped[n]:
            rep.ok('%s: created by %s, dropped by %s' % (n, created[n], dropped[n]))
