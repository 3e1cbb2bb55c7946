"""Taking back an undo action and applying it again are inverse: same places, opposite values; an action records what was there before."""
from ..facts import func_nodes, walk
from ..inverse import MESHES, SigFlow, alpha, clean, linear, tops
from ..lists import ListFlow, ORIG, UNK
from ..undo import carries_undo, undo_classes

UNDO = 'meshkernel::UndoAction'
STATE = 'meshkernelapi::MeshKernelState'
CONTENT = {'m_nodes', 'm_edges', 'm_projection', 'm_gridNodes', 'm_startOffset', 'm_endOffset'}
MIN = {'classes': 5, 'path_pairs': 4}


def method(P, cls, name):
    """the definition of a virtual member in a class or its bases"""
    todo = [P.records.get(cls) or P.recs_by_q.get(cls)]
    while todo:
        r = todo.pop(0)
        if r is None:
            continue
        for d in r.methods:
            if d.n == name and d.defn is not None:
                return d.defn
        todo += [P.records.get(b.s) or P.recs_by_q.get(b.rec) for b in r.bases]
    return None


def ref_fields(P, cls):
    out = set()
    for q in P.bases_of(cls):
        for r in [P.recs_by_q.get(q)] + [r for r in P.records.values() if r.q == q]:
            for f in r.fields if r is not None else []:
                if f['t'].ref:
                    out.add(f['q'] if 'q' in f else q + '::' + f['n'])
    return out


def short(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'fld':
        return short(t[1]) + '.' + t[2].split('::')[-1]
    if k == 'el':
        return short(t[1]) + '[' + short(t[2]) + ']'
    if k == 'par':
        return t[2]
    if k in ('this', 'null', 'i'):
        return k
    if k == 'c':
        return str(t[1])
    if k == 'op' and len(t) == 4:
        return short(t[2]) + t[1] + short(t[3])
    if k in ('copy', 'init', 'ref') and len(t) == 2:
        return short(t[1])
    if k == 'tuple':
        return '(' + ', '.join(short(x) for x in t[1:]) + ')'
    return k


class Sig:
    """writes to mesh content and to the action itself on one path"""

    def __init__(self, st, ismesh, skip=0):
        self.mesh, self.own, self.loops, self.child, self.derived = {}, {}, {}, [], set()
        ls = []
        for x in st.aux.get('sig', ())[skip:]:
            if x[0] == 'loop':
                ls.append(x)
            elif x[0] == 'derive':
                self.derived.add(x[1])
            elif x[0] == 'child':
                self.child.append((x[1], x[2], ls[-1] if ls else None))
            else:
                p, v = x
                vs = set(tops(p))
                ctx = tuple(sorted(str(bound(c)) for c in ls if c[3] & vs))
                raw = [c for c in ls if c[3] & vs]
                q, w = alpha((p, v))
                if ismesh(p):
                    if q not in self.mesh:
                        self.mesh[q] = w
                    else:
                        self.mesh[q] = ('twice', w)
                    self.loops[q] = (ctx, raw)
                elif p[0] in ('fld', 'el'):
                    self.own[q] = w
                    if p[0] == 'fld' and 'RequiresUpdate' not in p[2] and isinstance(p[1], tuple) and p[1][0] == 'fld' and p[1][1] == ('this',) and p[2].startswith(MESHES):
                        self.derived.add(p[2].split('::')[-1])
        self.facts = st.facts


def bound(c):
    """number of rounds of a counting loop: its limit, when it starts at zero and compares with <"""
    lim = [a for a in c[1] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) and a[0] and a[0][0] == '<' and a[1] is True]
    if len(lim) == 1 and len(lim[0][0]) == 3:
        return clean(lim[0][0][2])
    return None


def kind(p, v, own):
    """('swap', field) | ('add', sign, term) | ('set', value) | None"""
    c = clean(v)
    if v[0] == 'twice':
        return None
    if c in own and clean(own[c]) == clean(p):
        return ('swap', c)
    c2 = strip(c)
    for q, w in own.items():
        if q == c2 and clean(w) == clean(p):
            return ('swap', q)
    if c[0] == 'op' and len(c) == 4 and c[1] in ('+', '*') and c[3] == clean(p) and c[2] != clean(p):
        c = c[:2] + (c[3], c[2])
    if c[0] == 'op' and len(c) == 4 and c[1] in ('+', '-', '*', '/') and c[2] == clean(p):
        if c[1] in '+-' and (n := negated(c[3])) is not None:
            return ('add', INV[c[1]], n)
        return ('add', c[1], c[3])
    if c[0] in ('top', 'at', 'ret', 'call'):
        return None
    return ('set', c)


def negated(t):
    """the opposite of a term that is written as a negative one"""
    if t[0] == 'c' and isinstance(t[1], (int, float)) and t[1] < 0:
        return ('c', -t[1])
    if t[0] == 'op' and len(t) == 3 and t[1] == '-':
        return t[2]
    if t[0] == 'op' and len(t) == 4 and t[1] == '-' and t[2] in (('c', 0), ('c', 0.0)):
        return t[3]
    return None


def strip(c):
    return c


INV = {'+': '-', '-': '+', '*': '/', '/': '*'}


def opposed(C, R):
    """'' when R undoes C; a reason when it does not; None when not understood"""
    if set(C.mesh) != set(R.mesh):
        only = sorted(short(p) for p in set(C.mesh) ^ set(R.mesh))
        return 'only one of them writes ' + ', '.join(only[:3])
    unknown = False
    for p, v in C.mesh.items():
        w = R.mesh[p]
        a, b = kind(p, v, C.own), kind(p, w, R.own)
        if a is None or b is None:
            unknown = True
            continue
        if a[0] != b[0]:
            return '%s is handled in two different ways (%s, %s)' % (short(p), a[0], b[0])
        if a[0] == 'swap' and a[1] != b[1]:
            return '%s is exchanged with %s and with %s' % (short(p), short(a[1]), short(b[1]))
        if a[0] == 'add' and (INV[a[1]] != b[1] or a[2] != b[2]):
            return '%s changes by %s%s and by %s%s' % (short(p), a[1], short(a[2]), b[1], short(b[2]))
        if a[0] == 'set' and a[1] == b[1] and a[1][0] not in ('obj', 'top'):
            return '%s gets the same value %s both ways' % (short(p), short(a[1]))
        d = loopdiff(C.loops[p][1], R.loops[p][1])
        if d:
            return '%s is written for a different number of elements (%s)' % (short(p), d)
    if C.derived != R.derived and C.mesh:
        return '%s is brought up to date only one way' % ', '.join(sorted(C.derived ^ R.derived))
    return None if unknown else ''


def loopdiff(a, b):
    """the loops of two equal traversals have limits that differ by a constant"""
    a, b = [bound(c) for c in a], [bound(c) for c in b]
    if len(a) != len(b) or None in a or None in b:
        return None
    for x, y in zip(a, b):
        lx, ly = linear(x), linear(y)
        if lx[0] == ly[0] and lx[1] != ly[1]:
            return '%s, %s' % (short(x), short(y))
    return None


def conflicting(a, b):
    return any(k in b and b[k] != v for k, v in a.items() if isinstance(v, bool))


def check(P, rep, tier):
    cls = sorted(undo_classes(P))
    conc = []
    for q in cls:
        r = P.recs_by_q.get(q)
        if q == UNDO or r is None or 'Base' in q:
            continue
        c, d = method(P, q, 'DoCommit'), method(P, q, 'DoRestore')
        if q.startswith('meshkernel') and (c is None or d is None):
            continue
        conc.append((q, c, d))
    setlike = {}
    for q, fc, fr in conc:
        refs = ref_fields(P, q)

        def ismesh(p):
            x = p
            while isinstance(x, tuple) and x and x[0] in ('fld', 'el', 'deref'):
                if x[0] == 'fld' and isinstance(x[1], tuple) and x[1][0] == 'fld' and x[1][2] in refs and x[1][1] == ('this',):
                    return x[2].split('::')[-1] in CONTENT or x[2].startswith(STATE)
                x = x[1]
            return False
        sides = []
        for f in (fc, fr):
            a = SigFlow(P)
            res, _ = a.run(f)
            sides.append([Sig(s, ismesh) for s, _ in res])
        rep.count('classes')
        where = '%s:%d' % (fr.d.file, fr.d.line) if hasattr(fr.d, 'line') else fr.d.q
        for A, B, na, nb, flip in ((sides[0], sides[1], 'applying', 'taking back', False), (sides[1], sides[0], 'taking back', 'applying', True)):
            for s in A:
                why, ok, unknown = None, False, False
                for t in B:
                    if conflicting(s.facts, t.facts):
                        continue
                    r = opposed(t, s) if flip else opposed(s, t)
                    rep.count('path_pairs')
                    if r == '':
                        ok = True
                    elif r is None:
                        unknown = True
                    else:
                        why = why or r
                if ok:
                    rep.ok('%s: every place written when %s is written back when %s' % (q.split('::')[-1], na, nb))
                elif unknown or why is None:
                    rep.count('undecided_paths')
                else:
                    rep.bad('inverse:' + q, where, '%s: taking back and applying again are not inverse: %s' % (q.split('::')[-1], why))
        setlike[q] = {p for s in sides[1] for p, v in s.mesh.items() if (kind(p, v, s.own) or ('?',))[0] == 'set'}
        children(P, rep, q, fc, fr, sides)
        constructors(P, rep, q, refs, fr, sides)
    creators(P, rep, setlike)
    adders(P, rep)


def child_lists(P, q):
    out = []
    r = P.recs_by_q.get(q)
    for f in r.fields:
        t = f['t']
        if t.targs and t.targs[0] is not None and not isinstance(t.targs[0], str) and carries_undo(P, t.targs[0]):
            e = t.targs[0].targs[0]
            out.append((f['q'] if 'q' in f else q + '::' + f['n'], f['n'], e.rec == UNDO))
    return out


def children(P, rep, q, fc, fr, sides):
    for fq, name, ordered in child_lists(P, q):
        dirs = []
        for f, sigs, want in ((fc, sides[0], 'Commit'), (fr, sides[1], 'Restore')):
            ds = set()
            for s in sigs:
                mine = [c for c in s.child]
                if not mine:
                    if any(k[0] == '==' and ('null',) in k and v is True for k, v in s.facts.items() if isinstance(k, tuple)):
                        continue
                    rep.bad('child:%s:%s' % (q, want), f.d.q, '%s::%s: a path does not %s the actions in %s' % (q.split('::')[-1], f.d.n, want.lower(), name))
                    continue
                for w, ob, lp in mine:
                    if w != want:
                        rep.bad('child:%s:%s' % (q, want), f.d.q, '%s::%s calls %s on the actions it holds' % (q.split('::')[-1], f.d.n, w))
                        continue
                    d = lp[2] if lp is not None else None
                    if d and ob[0] == 'deref' and isinstance(ob[1], tuple) and ob[1][0] == 'el' and ob[1][2][0] == 'op' and ob[1][2][1] == '-' and tops(ob[1][2][3]):
                        d = 'rev' if d == 'fwd' else 'fwd'
                    ds.add(d)
                    rep.ok('%s::%s reaches every action it holds' % (q.split('::')[-1], f.d.n))
            dirs.append(ds)
        rep.count('child_lists')
        if ordered and len(dirs[0]) == 1 and len(dirs[1]) == 1 and None not in dirs[0] | dirs[1]:
            if (dirs[0], dirs[1]) != ({'fwd'}, {'rev'}):
                rep.bad('order:' + q, fr.d.q, '%s takes its actions back in the order %s but applies them in the order %s: the last one must be taken back first' % (
                    q.split('::')[-1], *[{'fwd': 'first to last', 'rev': 'last to first'}[next(iter(d))] for d in (dirs[1], dirs[0])]))
            else:
                rep.ok('%s takes its actions back in reverse order' % q.split('::')[-1])


def constructors(P, rep, q, refs, fr, sides):
    """right after construction, taking back changes nothing in what the action exchanges"""
    swaps = {p for s in sides[1] for p, v in s.mesh.items() if (kind(p, v, s.own) or ('?',))[0] == 'swap'}
    if not swaps:
        return
    r = P.recs_by_q.get(q)
    for m in r.methods:
        if not m.ctor or m.ctor in ('copy', 'move') or m.defn is None or not m.defn.params:
            continue
        f = m.defn
        a = SigFlow(P, tuple([('this',)] + [('par', i, p['n']) for i, p in enumerate(f.params) if p['t'].ref]))
        res, _ = a.run(f)
        for s, _ in res:
            n0 = len(s.aux.get('sig', ()))
            best, why, und = False, None, False
            for s2, _ in a.inline(fr, s.copy(), ('this',), [], {'id': -1}):
                def ismesh(p):
                    x = p
                    while isinstance(x, tuple) and x and x[0] in ('fld', 'el', 'deref'):
                        if x[0] == 'fld' and isinstance(x[1], tuple) and x[1][0] == 'par':
                            return x[2].split('::')[-1] in CONTENT or x[2].startswith(STATE)
                        x = x[1]
                    return False
                sg = Sig(s2, ismesh, n0)
                g = None
                for p, v in sg.mesh.items():
                    if v[0] == 'twice':
                        und = True
                        continue
                    c = clean(v)
                    if c == clean(p):
                        continue
                    if c[0] == 'obj':
                        els = [(k, a.resolve(s, k)) for k in s.store if k[0] == 'el' and k[1] == c]
                        odd = [w for k, w in els if clean(w) != clean(('el', p, k[2])) and clean(w)[0] == 'el' and clean(w)[1] == clean(p)]
                        if any(has_obj(w) for w in odd):
                            und = True
                        elif odd:
                            g = 'the elements of %s become %s' % (short(p), short(clean(odd[0])))
                        elif not els:
                            und = True
                        continue
                    if c[0] in ('new', 'top', 'at', 'ret', 'call'):
                        und = True
                        continue
                    if has_par_other(c, p) or has_obj(c):
                        und = True
                        continue
                    g = '%s becomes %s' % (short(p), short(c))
                if g is None:
                    best = True
                else:
                    why = why or g
            rep.count('constructor_paths')
            if best:
                rep.ok('%s: constructed holding the current contents' % q.split('::')[-1])
            elif und or why is None:
                rep.count('undecided_paths')
            else:
                rep.bad('saved:' + q, f.d.q, '%s does not save what was there: taking back right after construction gives %s' % (q.split('::')[-1], why))


def has_obj(t):
    return isinstance(t, tuple) and (t[:1] in (('obj',), ('ret',)) or any(has_obj(x) for x in t))


def has_par_other(c, p):
    """the value comes from another argument, decided by the caller"""
    return root(c) != root(p) or root(c)[0] != 'par'


class CreatorFlow(SigFlow):
    """other functions that change the mesh and hand out their own undo action are judged by themselves"""

    def __init__(self, P, roots, root):
        super().__init__(P, roots)
        self.root = root

    def on_call(self, e, fd, ob, args, st):
        if fd.defn is not None and fd.defn is not self.root and fd.cls in MESHES and not fd.static and carries_undo(self.P, fd.ret):
            self.throw(st, 'any')
            return [(st, ('top', 'undo', e['id']))]
        return super().on_call(e, fd, ob, args, st)


def value_of(a, st, v):
    """a written value with small objects spelled out"""
    c = clean(v)
    for _ in range(4):
        if c[0] in ('fld', 'el') and root(c)[0] == 'obj':
            d = clean(a.resolve(st, c))
            if d == c:
                break
            c = d
    if c[0] == 'obj' and 'Point' in str(c[-1]):
        fs = {k[2].split('::')[-1]: clean(w) for k, w in st.store.items() if k[0] == 'fld' and k[1] == c}
        if set(fs) == {'x', 'y'}:
            return ('tuple', fs['x'], fs['y'])
    return c


def missing(c):
    return c[0] == 'tuple' and all(x in (('c', 4294967295), ('c', -999.0), ('c', -999)) or x[0] == 'g' and 'missing' in str(x[1]) for x in c[1:]) and len(c) == 3


def is_new(p):
    """an element beyond the old end"""
    i = p[2] if p[0] == 'el' else ('',)
    while i[0] == 'at' and len(i) == 3:
        i = i[2]
    return i[0] == 'size'


def creators(P, rep, setlike):
    for f in P.funcs:
        if f.body is None or not carries_undo(P, f.d.ret) or f.d.cls in setlike or (f.d.cls not in MESHES):
            continue
        made = {n['f'].cls for n in func_nodes(f) if n.get('k') == 'call' and n.get('f') is not None and n['f'].n == 'Create' and setlike.get(n['f'].cls)}
        made |= {t.rec for n in func_nodes(f) if n.get('k') == 'call' and n.get('f') is not None and n['f'].n == 'make_unique' for t in (n['f'].ret.targs or [])[:1] if setlike.get(getattr(t, 'rec', None))}
        if not made:
            continue
        a = CreatorFlow(P, (('this',),), f)
        try:
            res, _ = a.run(f)
        except Exception as ex:
            rep.notes.append('%s not analysed: %r' % (f.d.q, ex))
            continue

        def ismesh(p):
            x = p
            while isinstance(x, tuple) and x and x[0] in ('fld', 'el', 'deref'):
                if x[0] == 'fld' and x[1] == ('this',):
                    return x[2].split('::')[-1] in CONTENT
                x = x[1]
            return False
        for st, v in res:
            vs = [v] if v[0] == 'new' else [x for x in v if isinstance(x, tuple) and x and x[0] == 'new']
            if len(vs) != 1 or vs[0][2] not in setlike:
                continue
            o = ('obj',) + vs[0][1:]
            cls = vs[0][2]
            did = Sig(st, ismesh)
            n0 = len(st.aux.get('sig', ()))
            rep.count('creators')
            for what in ('DoRestore', 'DoCommit'):
                m = method(P, cls, what)
                outs = a.inline(m, st.copy(), o, [], {'id': -1})
                verdicts = []
                for s2, _ in outs:
                    got = Sig(s2, ismesh, n0)
                    g = {clean(k): k for k in got.mesh}
                    why, und = None, False
                    for p, val in did.mesh.items():
                        if val[0] == 'twice' or got.mesh.get(g.get(clean(p)), ('',))[0] == 'twice':
                            und = True
                            continue
                        if clean(p) not in g:
                            why = '%s does not touch %s, which %s writes' % (what, short(p), f.d.n)
                            continue
                        x, y = value_of(a, s2, got.mesh[g[clean(p)]]), value_of(a, st, val)
                        if opaque(x) or opaque(y):
                            und = True
                        elif what == 'DoCommit' and x != y:
                            why = '%s writes %s to %s, applying the action again writes %s' % (f.d.n, short(y), short(p), short(x))
                        elif what == 'DoRestore' and not (x == clean(p) or missing(x) and is_new(p)):
                            why = 'taking back puts %s in %s, not what was there' % (short(x), short(p))
                    verdicts.append((why, und))
                if any(w is None and not u for w, u in verdicts):
                    rep.ok('%s: the action it returns %s what it did' % (f.d.q.split('::', 1)[-1], 'takes back' if what == 'DoRestore' else 'repeats'))
                elif any(u for w, u in verdicts) or not verdicts:
                    rep.count('undecided_paths')
                else:
                    rep.bad('creator:%s:%s' % (f.d.q, what), f.d.q, '%s with %s: %s' % (f.d.q, cls.split('::')[-1], verdicts[0][0]))


def root(x):
    while isinstance(x, tuple) and x and x[0] in ('fld', 'el', 'deref', 'copy', 'init'):
        x = x[1]
    return x


def opaque(c):
    return root(c)[0] in ('obj', 'new') or c[0] in ('top', 'at', 'ret', 'call', 'obj', 'new')


def adders(P, rep):
    """an action given to a list of actions ends up at its end, or is refused"""
    for q in sorted(undo_classes(P)):
        r = P.recs_by_q.get(q)
        if r is None:
            continue
        for fq, name, ordered in child_lists(P, q):
            for m in r.methods:
                f = m.defn
                if f is None or m.ctor or len(f.params) != 1 or not carries_undo(P, f.params[0]['t'].to or f.params[0]['t']):
                    continue
                a = ListFlow(P, {fq})
                a.fields = ()
                res, _ = a.run(f)
                rep.count('adders')
                for s, _ in res:
                    L = a.V(s, fq)
                    par = ('par', 0, f.params[0]['n'])
                    null = s.facts.get(('==', ('null',), par)) is True
                    if L == UNK and front_insert(f, fq):
                        rep.bad('add:' + q, f.d.q, '%s puts an action before those already held' % f.d.q)
                    elif L == UNK:
                        rep.count('undecided_paths')
                    elif L == ORIG and not null:
                        rep.bad('add:' + q, f.d.q, '%s drops an action it was given' % f.d.q)
                    elif L != ORIG and (L[0] != 'orig' or L[1] or L[2] or len(L[3]) != 1):
                        rep.bad('add:' + q, f.d.q, '%s removes actions already held' % f.d.q)
                    else:
                        rep.ok('%s appends' % f.d.q)


def front_insert(f, fq):
    for n in func_nodes(f):
        if n.get('k') == 'call' and n.get('f') is not None and n['f'].n in ('insert', 'emplace', 'push_front', 'emplace_front') and any(x.get('k') == 'mem' and x['f'] == fq for x in walk(n.get('o') or {})):
            at = list(walk(n['a'][0])) if n['a'] else []
            if n['f'].n.endswith('front') or any(x.get('k') == 'call' and x.get('f') is not None and x['f'].n in ('begin', 'cbegin') for x in at):
                return True
    return False
