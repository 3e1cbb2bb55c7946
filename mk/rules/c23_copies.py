"""Copying, moving and assigning an object carries over everything that makes up its value."""
from ..facts import func_nodes, walk
from ..inverse import SigFlow, clean

MIN = {}


def is_cache(f):
    return 'RTree' in f['t'].s or 'RequiresUpdate' in f['n'] or ('BoundingBox' in f['t'].s and 'ache' in f['n'])


def from_other(e, q, pd):
    return any(x.get('k') == 'mem' and x['f'] == q and base(x) == pd for x in walk(e))


def base(x):
    b = x['b']
    while isinstance(b, dict) and b['k'] in ('cast', 'un'):
        b = b['e']
    if b['k'] == 'call' and b.get('f') is not None and b['f'].q in ('std::move', 'std::forward', 'std::as_const'):
        b = b['a'][0]
    return b.get('d') if b['k'] == 'ref' else ('this' if b['k'] == 'this' else None)


def transfers(f, q, pd):
    """field q of this is given the value of field q of the parameter"""
    for i in f.inits or []:
        if i.get('field') == q and isinstance(i.get('e'), dict) and from_other(i['e'], q, pd):
            return True
    for n in func_nodes(f):
        k = n.get('k')
        if k == 'asg' and n['op'] == '=':
            if n['x']['k'] == 'mem' and n['x']['f'] == q and base(n['x']) == 'this' and from_other(n['y'], q, pd):
                return True
        if k == 'call' and n.get('f') is not None:
            fd = n['f']
            if fd.op == '=' and n.get('o', {}).get('k') == 'mem' and n['o']['f'] == q and base(n['o']) == 'this' and any(from_other(a, q, pd) for a in n['a']):
                return True
            touched = [x for a in n['a'] + ([n['o']] if 'o' in n else []) for x in walk(a) if x.get('k') == 'mem' and x['f'] == q]
            if {base(x) for x in touched} >= {'this', pd}:        # swap(m, other.m), std::copy(other.m.., m..), m.swap(other.m)
                return True
    return False


def temp(w, locs):
    """a temporary copy of the source"""
    while w.get('k') == 'cast':
        w = w['e']
    return w.get('k') == 'ctor' and w['f'].ctor in ('copy', 'move') and len(w['a']) == 1 and any(x.get('k') == 'ref' and x['d'] in locs for x in walk(w['a'][0]))


def delegates(f, pd):
    """the whole object is handed on: *this = other, swap(other), copy-and-swap, delegating constructor"""
    for i in f.inits or []:
        if i.get('deleg') and any(x.get('k') == 'ref' and x['d'] == pd for x in walk(i)):
            return True
    locs = {pd}
    for n in func_nodes(f):
        if n.get('k') is None and 'init' in n and isinstance(n['init'], dict) and n['init'].get('k') == 'ctor' and n['init']['f'].ctor in ('copy', 'move'):
            if any(x.get('k') == 'ref' and x['d'] == pd for x in walk(n['init'])):
                locs.add(n.get('d'))
    for n in func_nodes(f):
        if n.get('k') == 'call' and n.get('f') is not None:
            args = [a for a in n['a']]
            whole = [x for x in args + ([n['o']] if 'o' in n else [])]
            isthis = any(w['k'] == 'this' or (w['k'] == 'un' and w['op'] == '*' and w['e']['k'] == 'this') for w in whole)
            isoth = any(w['k'] == 'ref' and w['d'] in locs or temp(w, locs) or (w['k'] == 'call' and w['a'] and w['a'][0]['k'] == 'ref' and w['a'][0]['d'] in locs) for w in whole)
            if isthis and isoth and n['f'].defn is not f:
                return n['f']
    return None


def paths(P, f):
    """what each way through an assignment or constructor writes to the fields of the object"""
    a = SigFlow(P)
    try:
        res, _ = a.run(f)
    except RecursionError:
        return None
    out = []
    for s, _ in res:
        if any(k[0] == '==' and v is True and {clean(x) for x in k[1:]} == {('addr', ('this',)), ('addr', ('par', 0, f.params[0]['n']))} for k, v in s.facts.items()):
            continue        # assigned to itself
        out.append(s)
    return out


def given(f, q, states):
    """every path ends with the source's value in field q"""
    here, src = ('fld', ('this',), q), ('fld', ('par', 0, f.params[0]['n']), q)
    for s in states or ():
        ws = [x[1] for x in s.aux.get('sig', ()) if x[0] == here]
        if not ws or clean(ws[-1]) != src:
            return False
    return bool(states)


def recomputed(f, fld):
    """a bounding box is computed again from the points"""
    if 'BoundingBox' not in fld['t'].s:
        return False
    for n in func_nodes(f):
        if n.get('k') == 'call' and n.get('f') is not None and (n.get('o') or {}).get('k') == 'mem' and n['o']['f'] == fld['q'] and base(n['o']) == 'this':
            if any(x.get('k') == 'mem' and base(x) == 'this' and x['f'] != fld['q'] for a in n['a'] for x in walk(a)):
                return True
    return False


def lost_on(f, q, states):
    """how a path ends with another value in field q than that of the source"""
    here, src = ('fld', ('this',), q), ('fld', ('par', 0, f.params[0]['n']), q)
    direct = any(n.get('k') == 'asg' and n['x']['k'] == 'mem' and n['x']['f'] == q and base(n['x']) == 'this' or
                 n.get('k') == 'call' and n.get('f') is not None and n['f'].op == '=' and (n.get('o') or {}).get('k') == 'mem' and n['o']['f'] == q and base(n['o']) == 'this'
                 for n in func_nodes(f))
    for s in states:
        ws = [x[1] for x in s.aux.get('sig', ()) if x[0] == here]
        if ws:
            v = clean(ws[-1])
            if v != src and (v[0] in ('c', 'obj', 'null') or v[0] == 'fld' and v[1] == src[1]):
                return 'overwrites it with another value'
        elif direct and not f.d.ctor and not any(k[0] == '==' and v is True and {clean(x) for x in k[1:]} == {here, src} for k, v in s.facts.items()):
            return 'leaves it as it was on one way through'
    return ''


def moved_from(f, pd):
    """fields of the source that are read after they were moved away"""
    gone, out = set(), []

    def visit(n):
        if isinstance(n, list):
            for x in n:
                visit(x)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'call' and n.get('f') is not None and n['f'].q == 'std::move' and n['a'] and n['a'][0].get('k') == 'mem' and base(n['a'][0]) == pd:
            q = n['a'][0]['f']
            if q in gone:
                out.append((q, n))
            later.add(q)
            return
        if n.get('k') == 'mem' and base(n) == pd and n['f'] in gone:
            out.append((n['f'], n))
        for k, x in n.items():
            if isinstance(x, (dict, list)) and k not in ('t',):
                visit(x)

    later = set()
    for i in f.inits or []:
        visit(i.get('e'))
        gone |= later
    if isinstance(f.body, dict):
        for s in flat(f.body):
            visit(s)
            gone |= later
    return out


def flat(s):
    if s.get('k') == 'blk':
        return [x for y in s['s'] for x in flat(y)]
    if s.get('k') == 'if' and s.get('else') is None and s.get('then') is not None:
        return [{'k': 'expr', 'e': s['c']}] + flat(s['then'])
    return [s]


def check(P, rep, tier):
    for f in P.funcs:
        d = f.d
        kind = d.ctor if d.ctor in ('copy', 'move') else d.asg
        if not kind or d.dflt or not f.params:
            continue
        r = P.recs_by_q.get(d.cls)
        if r is None:
            continue
        rep.count('copy_operations')
        pd = f.params[0]['d']
        dg = delegates(f, pd)
        g = dg.defn if dg is not None and dg is not True and dg.defn is not None else None
        states = paths(P, f) if not dg else None
        for q, n in moved_from(f, pd):
            rep.bad('%s %s:moved:%s' % (kind, d.cls.split('::')[-1], q.split('::')[-1]), '%s:%s' % (f.file, n.get('l', f.line)), 'the %s operation of %s uses %s of its source after moving it away' % (kind, d.cls, q.split('::')[-1]))
        for fld in r.fields:
            if is_cache(fld) or (fld['t'].ref and False):
                continue
            rep.count('fields')
            ok = transfers(f, fld['q'], pd)
            if not ok and dg:
                if g is not None and g.params:
                    ok = transfers(g, fld['q'], g.params[0]['d']) or any(transfers(g, fld['q'], p['d']) for p in g.params)
                else:
                    ok = True       # compiler-generated
            ok = ok or given(f, fld['q'], states) or recomputed(f, fld)
            nm = '%s:%s' % ('%s %s' % (kind, 'constructor' if d.ctor else 'assignment') + ' of ' + d.cls.split('::')[-1], fld['n'])
            why = lost_on(f, fld['q'], states) if ok and states is not None else ''
            if why:
                rep.bad(nm, f.where, 'the %s %s of %s %s: %s' % (kind, 'constructor' if d.ctor else 'assignment', d.cls, why, fld['n']))
            elif ok:
                rep.ok(nm)
            else:
                rep.bad(nm, f.where, 'the %s %s of %s does not carry over %s' % (kind, 'constructor' if d.ctor else 'assignment', d.cls, fld['n']))
