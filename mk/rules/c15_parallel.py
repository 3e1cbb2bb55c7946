"""Iterations of parallel loops never touch each other's data."""
from .. import par
from ..facts import func_nodes, walk

MIN = {'parallel_regions': 1}


def offset_table(P, field):
    """every element ever stored is the running value of a counter that only grows"""
    sites = 0
    for f in P.funcs:
        counters = {}
        for n in func_nodes(f):
            tgt, val = None, None
            if n.get('k') == 'asg':
                tgt, val = n['x'], n['y']
            if tgt is None or tgt['k'] not in ('call', 'idx'):
                continue
            b = tgt.get('o') if tgt['k'] == 'call' else tgt.get('b')
            if not (isinstance(b, dict) and b['k'] == 'mem' and b['f'] == field):
                continue
            sites += 1
            while val['k'] == 'cast':
                val = val['e']
            if n['op'] != '=' or val['k'] != 'ref':
                return False
            counters[val['d']] = val
        for d in counters:
            for n in func_nodes(f):
                if n.get('k') == 'asg' and n['x']['k'] == 'ref' and n['x']['d'] == d and n['op'] != '+=':
                    return False
                if n.get('k') == 'un' and n['op'][:2] == '--' and n['e']['k'] == 'ref' and n['e']['d'] == d:
                    return False
    return sites > 0


def check(P, rep, tier):
    tabs = {}
    for f, n in par.regions(P):
        if not n['dir'].startswith('parallel') and n['dir'] not in ('for', 'sections', 'task', 'taskloop'):
            continue
        rep.count('parallel_regions')
        R = par.Region(P, f, n).run()
        rep.count('functions_inlined', len(R.calls))
        nm = '%s(%s)' % (f.d.q.split('meshkernel::')[-1], ','.join(p.s.split('::')[-1].strip(' &') for p in f.d.p[-1:] if p))
        names = {}
        for x in func_nodes(f):
            if x.get('k') == 'ref':
                names[x['d']] = x['n']
        byk = {}
        for rw, place, where in R.acc:
            k, idx = par.key(place)
            byk.setdefault(k, []).append((rw, idx, where, place))
        for k, accs in sorted(byk.items(), key=lambda kv: str(kv[0])):
            ws = [a for a in accs if a[0] == 'w']
            if not ws:
                continue
            rep.count('shared_writes', len({(a[1], a[2]) for a in ws}))
            kn = names.get(k, k.split('::')[-1])
            why = None
            for rw, idx, where, place in accs:
                if rw == 's':
                    if any(not a[1] for a in ws):
                        why = why or (where, 'its size is read while other iterations change it')
                    continue
                if not idx:
                    why = why or (where, 'every iteration %s it as a whole' % ('changes' if rw == 'w' else 'reads') +
                                  ('' if rw == 'w' else ' while others change its elements'))
                elif idx[0][0] == 'lin' and idx[0][1] != 0:
                    pass
                elif idx[0][0] == 'tab':
                    t = idx[0][1]
                    if t not in tabs:
                        tabs[t] = offset_table(P, t)
                    if not tabs[t] or t in byk and any(a[0] == 'w' for a in byk[t]):
                        why = why or (where, 'its index comes from %s, which need not differ between iterations' % t.split('::')[-1])
                else:
                    why = why or (where, '%s an element that is not the one of its own iteration' % ('an iteration changes' if rw == 'w' else 'an iteration reads'))
            if why is None:
                first = {a[1][0][:2] if a[1][0][0] == 'lin' else a[1][0] for a in accs if a[0] != 's'}
                offs = [a[1][0][2] for a in accs if a[0] != 's' and a[1][0][0] == 'lin']
                if len(first) > 1:
                    why = (ws[0][2], 'it is addressed in different ways by different iterations')
                elif offs and max(offs) - min(offs) >= abs(next(iter(first))[1]):
                    why = (ws[0][2], 'the elements of neighbouring iterations overlap')
            if why:
                rep.bad('%s:%s' % (nm, kn), why[0], 'iterations of the parallel loop in %s share %s: %s' % (nm, kn, why[1]))
            else:
                rep.ok('%s: %d accesses to %s, all to the element(s) of the own iteration' % (nm, len(accs), kn))
        for d, seq in R.privseq.items():
            rep.count('private_variables')
            seq = [s for s in seq if s[1] not in par.NEUTRAL]
            if not seq:
                continue
            rw, meth, depth, line = seq[0]
            if rw == 'w' and depth == 0 and (meth in par.KILL or meth is None):
                rep.ok('%s: private %s is reset before use in every iteration' % (nm, names.get(d, d)))
            else:
                rep.bad('%s:%s' % (nm, names.get(d, d)), '%s:%s' % (f.file, line),
                        'the thread-private %s in %s is used before it is reset, so the result depends on which iterations the thread ran before' % (names.get(d, d), nm))
        for q, l in R.opaque.items():
            rep.notes.append('%s: call of %s not followed' % (nm, q))
