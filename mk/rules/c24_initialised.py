"""No value is used before it was set."""
from .. import defass
from ..facts import func_nodes, walk

MIN = {'functions': 500, 'constructors': 10}


def check(P, rep, tier):
    defass.DA.cache.clear()
    for f in P.funcs:
        rep.count('functions')
        tr = defass.locals_without_value(f)
        ob = defass.objects_without_value(P, f)
        for d, (keys, n) in ob.items():
            for k in keys:
                tr[k] = n + '.' + k.rsplit('.', 1)[1]
        if tr:
            bad = {}
            defass.DA(tr, lambda d, e: bad.setdefault(d, e), {d: k for d, (k, n) in ob.items()}).run(f.body, set())
            for d, n in tr.items():
                rep.count('variables_declared_without_value')
                if d in bad:
                    rep.bad('%s:%s' % (f.d.q, n), '%s:%s' % (f.file, bad[d].get('l')), '%s of %s can be read before it is set' % (n, f.d.q))
                else:
                    rep.ok()
        ar = defass.arrays_without_value(f)
        if ar:
            bad = {}
            defass.ArrDA(ar, lambda d, e: bad.setdefault(d, e)).run(f.body, set())
            for d, (n, _) in ar.items():
                rep.count('arrays_declared_without_values')
                if d in bad:
                    rep.bad('%s:%s' % (f.d.q, n), '%s:%s' % (f.file, bad[d].get('l')), 'elements of %s of %s can be read before any was set' % (n, f.d.q))
                else:
                    rep.ok()
        # lambdas are functions of their own
        for l in walk([f.inits or [], f.body]):
            if l.get('k') == 'lambda' and isinstance(l.get('body'), dict):
                class G:
                    body = l['body']
                tr = defass.locals_without_value(G)
                if tr:
                    bad = {}
                    defass.DA(tr, lambda d, e: bad.setdefault(d, e)).run(l['body'], set())
                    for d in bad:
                        rep.bad('%s:%s' % (f.d.q, tr[d]), '%s:%s' % (f.file, bad[d].get('l')), '%s of %s can be read before it is set' % (tr[d], f.d.q))
    fields(P, rep)


def api_struct(P, r):
    return r.q.startswith('meshkernelapi::') and not any(m.ctor and not m.dflt for m in r.methods)


def fields(P, rep):
    """fields of plain type get a value in every constructor"""
    seen = set()
    for s, r in sorted(P.records.items()):
        if r.q in seen or not r.q.startswith('meshkernel'):
            continue
        seen.add(r.q)
        raw = [x for x in r.fields if 'init' not in x and defass.plain(x['t'])]
        if not raw:
            continue
        ctors = [m for m in r.methods if m.ctor]
        user = [m for m in ctors if not m.dflt and m.ctor not in ('copy', 'move')]
        for m in user:
            if m.defn is None:
                continue
            rep.count('constructors')
            f = m.defn
            if any(i.get('deleg') for i in f.inits or []):
                continue
            got = {i.get('field') for i in f.inits or [] if isinstance(i.get('e'), dict) and i['e'].get('k') != 'implicit'}
            tr = {x['q']: x['n'] for x in raw if x['q'] not in got}
            if not tr:
                rep.ok('%s: every field set' % m.q)
                continue
            bad = {}
            da = defass.DA(tr, lambda d, e: bad.setdefault(d, e))
            end = da.run(f.body, set())
            for x in da.rets:
                end = da.meet(end, x)
            for q, n in tr.items():
                if end is not None and q not in end or q in bad:
                    if not later(P, r, q):
                        rep.bad('%s:%s' % (m.q, n), f.where, 'the constructor of %s leaves %s without a value' % (r.q, n))
                        continue
                rep.ok()


def later(P, r, q):
    """never read at all"""
    for f in P.funcs:
        for n in func_nodes(f):
            if n.get('k') == 'mem' and n['f'] == q:
                return False
    return True
