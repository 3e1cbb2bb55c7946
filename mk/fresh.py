"""Are the search trees of a mesh up to date when they are searched?

Per object and tree the state is one of
  S  the update flag is surely set           F  the tree was built from the present content
  U  S or F (consistent)                     D  the content may have changed while the flag may be clear
kept as the four outcomes for the four possible states at function entry (a transfer function), so that
summaries compose at calls."""
from .facts import AnalysisBroken, walk
from .structured import Structured

TREES = ('Nodes', 'Edges', 'Faces')
ID = ('S', 'F', 'U', 'D')
CONTENT = {
    'meshkernel::Mesh': {'m_nodes': TREES, 'm_edges': ('Edges', 'Faces'), 'm_boundingBoxCache': TREES},
    'meshkernel::CurvilinearGrid': {'m_gridNodes': TREES, 'm_boundingBoxCache': TREES},
}
TREEFIELD = 'm_RTrees'


def flagname(t):
    return 'm_%sRTreeRequiresUpdate' % t.lower()


def jo(a, b):
    if a == b or b == 'N':
        return a
    if a == 'N':
        return b
    if 'D' in (a, b):
        return 'D'
    if a in 'mx' or b in 'mx':
        return 'x'
    return 'U'


WRITE = {'S': 'S', 'F': 'D', 'U': 'D', 'D': 'D', 'N': 'N'}
CLEAR = {'S': 'D', 'F': 'F', 'U': 'D', 'D': 'D', 'N': 'N'}
ISSET = {'S': 'S', 'F': 'S', 'U': 'S', 'D': 'S', 'N': 'N'}
ISCLEAR = {'S': 'N', 'F': 'F', 'U': 'F', 'D': 'D', 'N': 'N'}


class Sum:
    def __init__(self):
        self.tr = {}      # (k, L) -> 4 outcomes
        self.req = {}     # (k, L) -> {entry state: witness}
        self.wit = {}     # (k, L) -> (function, node) of a write that can leave the tree behind
        self.box = []
        self.old = []             # trees built from values that were not computed anew
        self.returns = False      # so far: optimistic start of the fixpoint

    def key(self):
        return (self.returns, tuple(sorted(self.tr.items(), key=repr)), tuple(sorted(((a, tuple(sorted(b))) for a, b in self.req.items()), key=repr)))


class Fresh:
    def __init__(self, P, M):
        self.P, self.M = P, M
        self.content, self.flags, self.trees, self.caches, self.init_true = {}, {}, {}, set(), set()
        for cls, fs in CONTENT.items():
            r = P.recs_by_q.get(cls)
            if r is None:
                raise AnalysisBroken('no class ' + cls)
            have = {f['n']: f for f in r.fields}
            for n, ts in fs.items():
                if n not in have:
                    raise AnalysisBroken('no field %s::%s' % (cls, n))
                self.content[have[n]['q']] = ts
            for t in TREES:
                if flagname(t) not in have:
                    raise AnalysisBroken('no field %s::%s' % (cls, flagname(t)))
                f = have[flagname(t)]
                self.flags[f['q']] = t
                i = f.get('init')
                if isinstance(i, dict) and i.get('k') == 'lit' and str(i['v']) in ('1', 'True', 'true'):
                    self.init_true.add((cls, t))
            self.trees[have[TREEFIELD]['q']] = cls
            self.caches.add(have['m_boundingBoxCache']['q'])
        self.A = {}
        self.S = {}
        self.solve()

    def analysis(self, f):
        if f not in self.A:
            a = self.M.analyse(f)
            ev = {}
            for n, p, why in a.events:
                ev.setdefault(id(n), []).append((p, why))
            a.ev_by = ev
            self.A[f] = a
        return self.A[f]

    def locparam(self, f):
        for i, p in enumerate(f.params):
            t = p['t']
            if t is not None and t.enum and t.s.replace('const ', '').endswith('Location'):
                return i
        return None

    def variants(self, f):
        return TREES if self.locparam(f) is not None else (None,)

    def solve(self):
        work = []
        for f in self.P.funcs:
            for v in self.variants(f):
                self.S[(f, v)] = Sum()
                work.append((f, v))
        inq = set(work)
        users = {}
        n = 0
        while work:
            n += 1
            if n > 40000:
                raise AnalysisBroken('no fixpoint')
            k = work.pop()
            inq.discard(k)
            W = Walk(self, k[0], k[1])
            s = W.summary()
            for c in W.used:
                users.setdefault(c, set()).add(k)
            if s.key() != self.S[k].key():
                self.S[k] = s
                for u in users.get(k, ()):
                    if u not in inq:
                        inq.add(u)
                        work.insert(0, u)
            else:
                self.S[k] = s
        self.rounds = n


class Walk(Structured):
    def __init__(self, F, f, loc):
        self.F, self.loc = F, loc
        self.fn = f
        self.a = F.analysis(f)
        self.used = set()
        self.sum = Sum()
        self.lp = f.params[F.locparam(f)]['d'] if loc is not None else None
        self.boxp = {p['d'] for p in f.params if p['t'] is not None and 'BoundingBox' in p['t'].s}
        self.inits = {}
        for n in walk(f.body):
            if n.get('k') == 'decl':
                for v in n['v']:
                    if isinstance(v.get('init'), dict):
                        self.inits[v['d']] = v['init']
        self.searches = 0
        # fields that a tree is built from here
        self.derived = set()
        for n in walk(f.body):
            if n.get('k') == 'call' and n.get('f') is not None and n['f'].n == 'BuildTree' and n['a'] and isinstance(n.get('o'), dict):
                x = n['a'][0]
                if x['k'] == 'mem' and x['f'] not in F.content:
                    self.derived.add(x['f'])
        self.rebuilt = set()

    def special(self):
        d = self.fn.d
        return d.ctor in ('copy', 'move') or (d.op == '=' and len(self.fn.params) == 1 and self.fn.params[0]['t'].s.find(d.cls.rsplit('::', 1)[-1]) >= 0)

    def summary(self):
        f = self.fn
        if f.d.cls is not None and self.special():
            self.sum.returns = True
            return self.sum
        s = {}
        if f.d.ctor:
            for cls in CONTENT:
                if cls == f.d.cls:
                    for t in TREES:
                        if (cls, t) in self.F.init_true:
                            s[(('this', ()), t)] = ('S',) * 4
        out = self.run(f, s)
        if out is None:
            # never returns normally
            return self.sum
        self.sum.returns = True
        for (k, t), v in out.items():
            if t == 'BOX':
                if k in self.rebuilt and v[2] == 'x':
                    self.sum.box.append(k)
                continue
            if t not in TREES:
                continue
            if k[0] == 'this' or k[0][0] in ('p', 'g'):
                if v != ID:
                    self.sum.tr[(k, t)] = v
        for k in self.rebuilt:
            if (k, 'BOX') not in out and self.boxp:
                self.sum.box.append(k)
        self.sum.req = {k: v for k, v in self.sum.req.items() if k[0][0] == 'this' or k[0][0][0] in ('p', 'g', 'l', 'n')}
        return self.sum

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            d = ('x',) * 4 if k[1] not in TREES else ID
            x, y = a.get(k, d), b.get(k, d)
            out[k] = tuple(jo(p, q) for p, q in zip(x, y))
        return out

    def get(self, s, k, t):
        return s.get((k, t), ('x',) * 4 if t not in TREES else ID)

    def put(self, s, k, t, v):
        s = dict(s)
        s[(k, t)] = v
        return s

    # ------------------------------------------------------------ naming
    def loc_of(self, e, n=0):
        """the Location constant an expression selects, if it is one"""
        if e is None or n > 8:
            return None
        k = e['k']
        if k == 'cast':
            return self.loc_of(e['e'], n + 1)
        if k == 'enum':
            x = e['n'].rsplit('::', 1)[-1]
            return x if x in TREES and 'Location' in e['n'] or x in TREES and e.get('t') is not None and 'Location' in e['t'].s else None
        if k == 'ref':
            if e['d'] == self.lp:
                return self.loc
            if e['d'] in self.inits:
                return self.loc_of(self.inits[e['d']], n + 1)
        return None

    def tree_loc(self, e, n=0):
        """which tree of an object an expression designates"""
        if e is None or n > 12:
            return None
        k = e['k']
        if k in ('cast', 'un'):
            return self.tree_loc(e['e'], n + 1)
        if k == 'ref' and e['d'] in self.inits:
            return self.tree_loc(self.inits[e['d']], n + 1)
        if k == 'call':
            fd = e.get('f')
            if fd is None:
                return None
            for a in e['a']:
                l = self.loc_of(a)
                if l is not None:
                    return l
            if 'o' in e:
                return self.tree_loc(e['o'], n + 1)
            for a in e['a']:
                l = self.tree_loc(a, n + 1)
                if l is not None:
                    return l
        if k == 'mem':
            return self.tree_loc(e['b'], n + 1)
        return None

    def known(self, ps):
        """without the second names of objects that a local object refers to"""
        bd = self.a.bind
        out = set()
        for root, path in ps:
            if root != 'this' and root[0] in ('l', 'n') and any(bd.get((root, path[:i])) for i in range(1, len(path) + 1)):
                continue
            out.add((root, path))
        return out or set(ps)

    def objs(self, ps, fields):
        """objects of which one of these fields is designated"""
        out = set()
        for root, path in self.known(ps):
            for i, c in enumerate(path):
                if c in fields:
                    out.add(((root, path[:i]), c))
        return out

    # ------------------------------------------------------------ effects
    def effect(self, e, s):
        s = self.effect1(e, s)
        if s is not None and self.derived:
            for p, _ in self.a.ev_by.get(id(e), ()):
                for o, c in self.objs([p], self.derived):
                    s = self.put(s, o, 'W:' + c, ('m',) * 4)
        return s

    def effect1(self, e, s):
        F = self.F
        k = e['k']
        info = self.a.cinfo.get(id(e))
        if k == 'call' and not info and e.get('f') is not None:
            s = self.tree_call(e, s)
        if info:
            if k == 'call' and e.get('f') is not None and e['f'].n in ('BuildTree',) or (k == 'call' and e['f'] is not None and e['f'].n.startswith('Search')):
                s2 = self.tree_call(e, s)
                if s2 is not None and s2 is not s or self.is_tree(e):
                    return s2
            res = None
            for fn, (objs, aps) in info.items():
                res = self.j(res, self.apply(e, fn, objs, aps, s))
            return res
        evs = self.a.ev_by.get(id(e))
        if not evs:
            return s
        fl = self.objs([p for p, _ in evs], F.flags)
        if fl:
            s = self.set_flag(e, fl, s)
        ct = self.objs([p for p, _ in evs if self.a.writable(p)], F.content)
        for obj, c in ct:
            cls = c.rsplit('::', 1)[0]
            if c in F.caches:
                if k in ('asg', 'call') and self.refs_box(e):
                    s = self.put(s, obj, 'BOX', ('m',) * 4)
                else:
                    s = self.put(s, obj, 'BOX', ('x',) * 4)
            s = self.wrote(e, obj, c, s)
        return s

    def wrote(self, e, obj, c, s):
        for t in self.F.content[c]:
            old = self.get(s, obj, t)
            new = tuple(WRITE[x] for x in old)
            if new != old:
                s = self.put(s, obj, t, new)
            if new[2] == 'D' and old[2] != 'D':
                self.sum.wit.setdefault((obj, t), (self.fn, e, c))
        return s

    def refs_box(self, e):
        return any(x.get('k') == 'ref' and x['d'] in self.boxp for x in walk(e))

    def is_tree(self, e):
        return bool(self.objs(self.a.ev(e['o']), self.F.trees)) if isinstance(e.get('o'), dict) else False

    def tree_call(self, e, s):
        """building or searching one of the trees"""
        fd = e['f']
        if not isinstance(e.get('o'), dict) or not (fd.n == 'BuildTree' or fd.n.startswith('Search')):
            return s
        os = {o for o, c in self.objs(self.a.ev(e['o']), self.F.trees)}
        if not os:
            return s
        t = self.tree_loc(e['o'])
        if fd.n == 'BuildTree':
            for c in self.derived:
                x = e['a'][0]
                if x['k'] == 'mem' and x['f'] == c:
                    for o, _ in self.objs(self.a.ev(x), {c}):
                        if 'x' in self.get(s, o, 'W:' + c):
                            self.sum.old.append((e, c))
            for o in os:
                self.rebuilt.add(o)
                if t is not None:
                    new = ('F',) * 4
                    if len(os) > 1:
                        new = tuple(jo(a, b) for a, b in zip(self.get(s, o, t), new))
                    s = self.put(s, o, t, new)
            return s
        self.searches += 1
        if t is None:
            self.unresolved = getattr(self, 'unresolved', []) + [e]
            return s
        for o in os:
            old = self.get(s, o, t)
            for ent, x in zip(ID, old):
                if x not in ('F', 'N'):
                    self.sum.req.setdefault((o, t), {}).setdefault(ent, (self.fn, e))
        return s

    def set_flag(self, e, fl, s):
        y = e['y'] if e['k'] == 'asg' else None
        while isinstance(y, dict) and y['k'] in ('cast', 'asg'):
            y = y['e'] if y['k'] == 'cast' else y['y']
        v = self.boolval(y)
        for obj, c in fl:
            t = self.F.flags[c]
            old = self.get(s, obj, t)
            if v is True:
                new = ('S',) * 4 if len(fl) == 1 else tuple(jo(a, 'S') for a in old)
            elif v is False:
                new = tuple(CLEAR[x] for x in old)
            elif e['k'] == 'asg' and y['k'] == 'ref' and y['d'] in {p['d'] for p in self.fn.params}:
                # a setter: the caller decides (see apply)
                self.sum.tr[('setter', t)] = [i for i, p in enumerate(self.fn.params) if p['d'] == y['d']][0]
                new = old
            else:
                new = tuple(jo(CLEAR[x], 'S') for x in old)
            s = self.put(s, obj, t, new)
            if new[2] == 'D' and old[2] != 'D':
                self.sum.wit.setdefault((obj, t), (self.fn, e, c))
        return s

    def boolval(self, y):
        for _ in range(8):
            if not isinstance(y, dict):
                return None
            if y['k'] in ('cast',):
                y = y['e']
            elif y['k'] == 'lit':
                return str(y['v']) in ('1', 'True', 'true')
            elif y['k'] == 'init' and len(y['a']) == 1:
                y = y['a'][0]
            elif y['k'] == 'ref' and y['d'] in self.inits and not any(x.get('k') == 'asg' and x['x']['k'] == 'ref' and x['x']['d'] == y['d'] for x in walk(self.fn.body)):
                y = self.inits[y['d']]
            else:
                return None
        return None

    def apply(self, e, fn, objs, aps, s):
        F = self.F
        i = F.locparam(fn)
        if i is None:
            vs = (None,)
        else:
            l = self.loc_of(e['a'][i]) if i < len(e['a']) else None
            vs = (l,) if l is not None else TREES
        out = None
        for v in vs:
            self.used.add((fn, v))
            out = self.j(out, self.apply1(e, fn, v, objs, aps, s))
        return out

    def apply1(self, e, fn, v, objs, aps, s):
        sm = self.F.S[(fn, v)]
        for (k, t), ents in sm.req.items():
            if k[0] != 'this' and k[0][0] not in ('p', 'g'):
                continue
            for q in self.known(self.a.subst(k, objs, aps)):
                old = self.get(s, q, t)
                for ent, x in zip(ID, old):
                    if x in ents:
                        self.sum.req.setdefault((q, t), {}).setdefault(ent, ents[x])
        if not sm.returns:
            return None
        new = s
        for key, tr in sm.tr.items():
            if key[0] == 'setter':
                continue
            k, t = key
            ds = self.known(self.a.subst(k, objs, aps))
            for q in ds:
                old = self.get(s, q, t)
                nv = tuple('N' if x == 'N' else tr[ID.index(x)] for x in old)
                if len(ds) > 1 and nv != old:
                    nv = tuple(jo(a, b) for a, b in zip(old, nv))
                if nv != old:
                    new = self.put(new, q, t, nv)
                    if nv[2] == 'D' and old[2] != 'D' and (k, t) in sm.wit:
                        self.sum.wit.setdefault((q, t), sm.wit[(k, t)])
        for w in self.F.M.S[fn].writes:
            if any(c in self.F.content for c in w[1]):
                continue
            # written through a reference to the content itself
            ps = {q for q in self.a.subst(w, objs, aps) if self.a.writable(q)}
            for q, c in self.objs(ps, self.F.content):
                new = self.wrote(e, q, c, new)
        for key, pi in sm.tr.items():
            if key[0] != 'setter' or pi >= len(e['a']):
                continue
            y = e['a'][pi]
            while y['k'] == 'cast':
                y = y['e']
            for q in self.known(objs):
                old = self.get(s, q, key[1])
                if self.boolval(y) is True:
                    nv = ('S',) * 4 if len(self.known(objs)) == 1 else tuple(jo(a, 'S') for a in old)
                elif self.boolval(y) is False:
                    nv = tuple(CLEAR[x] for x in old)
                elif y['k'] == 'ref' and y['d'] in {p['d'] for p in self.fn.params}:
                    self.sum.tr[('setter', key[1])] = [j for j, p in enumerate(self.fn.params) if p['d'] == y['d']][0]
                    continue
                else:
                    nv = tuple(jo(CLEAR[x], 'S') for x in old)
                new = self.put(new, q, key[1], nv)
                if nv[2] == 'D' and old[2] != 'D':
                    self.sum.wit.setdefault((q, key[1]), (self.fn, e, 'the update flag'))
        return new

    # ------------------------------------------------------------ conditions
    def refine(self, e, s, truth):
        F = self.F
        if e['k'] == 'mem' and e['f'] in F.flags:
            os = self.objs(self.a.ev(e), F.flags)
            if len(os) == 1:
                (o, c), = os
                t = F.flags[c]
                tab = ISSET if truth else ISCLEAR
                return self.put(s, o, t, tuple(tab[x] for x in self.get(s, o, t)))
        if e['k'] == 'call' and e.get('f') is not None and e['f'].op in ('==', '!=') or e['k'] == 'bin' and e['op'] in ('==', '!='):
            op = e['f'].op if e['k'] == 'call' else e['op']
            xs = [e['x'], e['y']] if e['k'] == 'bin' else ([e['o']] if isinstance(e.get('o'), dict) else []) + e['a']
            if len(xs) == 2:
                for a, b in (xs, xs[::-1]):
                    l, r = self.strip(a), self.strip(b)
                    if l['k'] == 'mem' and l['f'] in F.caches and r['k'] == 'ref' and r['d'] in self.boxp:
                        if (op == '==') == truth:
                            for o, c in self.objs(self.a.ev(l), F.caches):
                                s = self.put(s, o, 'BOX', ('m',) * 4)
                        return s
                    if l['k'] == 'ref' and l['d'] == self.lp and r['k'] == 'enum':
                        same = self.loc_of(r) == self.loc
                        if same != ((op == '==') == truth):
                            return None
                        return s
        return s

    def strip(self, e):
        while e['k'] == 'cast':
            e = e['e']
        return e

    def enter_case(self, sw, label, cases, s):
        c = self.strip(sw['c'])
        if c['k'] == 'ref' and c['d'] == self.lp:
            hit = [x for x in cases if self.loc_of(self.strip(x['e'])) == self.loc]
            if label is None or label['k'] == 'default':
                return None if hit else s
            return s if label in hit else None
        return s
