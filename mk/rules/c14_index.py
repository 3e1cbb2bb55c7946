"""Nearest-location queries always search an index that matches the present mesh."""
from .. import fresh
from ..api import api_functions
from ..effects import modref

MIN = {'functions': 500, 'searches': 1}


def check(P, rep, tier):
    M = modref(P)
    F = fresh.Fresh(P, M)
    api = set(api_functions(P))
    called = set()
    for f in P.funcs:
        rep.count('functions')
        called |= F.analysis(f).callees - {f}
    for (f, v), s in F.S.items():
        top = f in api or f not in called
        for k in s.box:
            rep.bad('%s:bounding box' % f.d.q, f.where, '%s can leave a tree that was not built for the bounding box it was asked for' % f.d.q)
        for n, c in s.old:
            rep.bad('%s:%s' % (f.d.q, c.rsplit('::', 1)[-1]), '%s:%s' % (f.file, n.get('l')), '%s builds a tree from %s without computing it anew' % (f.d.q, c.rsplit('::', 1)[-1]))
        for (k, t), ents in s.req.items():
            rep.count('searches')
            local = k[0] != 'this' and k[0][0] in ('l', 'n')
            if 'F' in ents or ((top or local) and 'U' in ents):
                g, n = ents.get('F') or ents['U']
                rep.bad('%s:search %s' % (f.d.q, t), '%s:%s' % (g.file, n.get('l')), 'the %s tree of %s can be searched (in %s) before it is brought up to date' % (t, f.d.q, g.d.q))
            else:
                rep.ok()
        for key, tr in s.tr.items():
            if key[0] == 'setter':
                continue
            k, t = key
            rep.count('object_effects')
            if top and tr[2] == 'D':
                g, n, c = s.wit[(k, t)]
                rep.bad('%s:%s' % (g.d.q, t), '%s:%s' % (g.file, n.get('l')),
                        '%s is changed in %s without marking the %s tree for update (reached from %s)' % (c.rsplit('::', 1)[-1], g.d.q, t, f.d.q))
            else:
                rep.ok()
