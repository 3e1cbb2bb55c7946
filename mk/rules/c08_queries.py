"""Calls that only ask for information leave the state as it was."""
import re
from .. import undo
from ..effects import CONTENT, modref, normalising
from ..facts import func_nodes, walk
from .c06_recorded import short

MIN = {'query_functions': 40}

QUERY = re.compile(r'(^mkernel_get_|_get_|_count_|_count$|_count_for_id$|^mkernel_is_|_interpolation$|_intersections_from_polygon$|^mkernel_polygon_|^mkernel_splines_|'
                   r'_derefinement_elements|^mkernel_curvilinear_compute_(curvature|smoothness)$)')


def is_query(n):
    return bool(QUERY.search(n))


def constant(e):
    """built from literals and named constants only"""
    for n in walk(e):
        k = n.get('k')
        if k in ('ref',) and not (n['d'].startswith('g:') or 'cv' in n):
            return False
        if k in ('mem', 'idx', 'call', 'this', 'asg'):
            return False
    return True


def check(P, rep, tier):
    always, sess, cover, out = undo.analyse(P)
    for f, a, good, allst in out:
        if not is_query(f.d.n):
            continue
        rep.count('query_functions')
        before = len(rep.viol)
        for s in allst:
            for k in s.aux:
                if k[0] == 'eff':
                    rep.bad('%s:%s' % (f.d.n, short(k[4])), k[6], '%s only asks for information but can change %s of the state' % (
                        f.d.n, short(k[3]) if k[1] == 'repl' else '%s of the object behind %s' % (short(k[4]), short(k[3]))))
                if k[0] == 'add':
                    rep.bad('%s:records' % f.d.n, f.where, '%s only asks for information but records an undo action' % f.d.n)
                if k[0] == 'stack':
                    rep.bad('%s:history' % f.d.n, f.where, '%s only asks for information but changes the undo history' % f.d.n)
        if len(rep.viol) == before:
            rep.ok('%s: %d paths without effect on the state' % (f.d.n, len(allst)))
    normalisation(P, rep)


def normalisation(P, rep):
    """bringing a mesh into normal form may only mark nodes and edges invalid"""
    M = modref(P)
    start = [f for f in P.funcs if normalising(f)]
    rep.count('normalising_functions', len(start))
    seen, st = list(start), list(start)
    while st:
        f = st.pop()
        for n in func_nodes(f):
            if n.get('k') in ('call', 'ctor') and n.get('f') is not None:
                for g in M.targets(n['f'], n):
                    if g not in seen:
                        seen.append(g)
                        st.append(g)
    for f in seen:
        if f.d.n in ('CommitAction', 'RestoreAction'):
            continue
        A = M.analyse(f)
        for node, place, why in A.events:
            if not any(x in CONTENT for x in place[1]):
                continue
            if node['k'] == 'call' and node.get('f') is not None and M.targets(node['f'], node):
                # into an operation that records: its new value must be the invalid one
                if undo.carries_undo(P, node['f'].ret):
                    for arg, pt in zip(node['a'], node['f'].p):
                        t = pt.to if pt.ref and pt.to is not None else pt
                        if t.rec in ('std::pair', 'meshkernel::Point'):
                            rep.count('normalising_writes')
                            if not constant(arg):
                                rep.bad('%s:%s' % (f.d.q, short(node['f'].q)), '%s:%s' % (f.file, node.get('l')), 'normalising a mesh gives a node or edge a new value instead of marking it invalid')
                            else:
                                rep.ok()
                continue
            rhs = node.get('y') if node['k'] == 'asg' else (node['a'][0] if node['k'] == 'call' and node.get('a') and node['f'].op == '=' else None)
            rep.count('normalising_writes')
            if rhs is None or not constant(rhs):
                rep.bad('%s:%s' % (f.d.q, short([x for x in place[1] if x in CONTENT][0])), '%s:%s' % (f.file, node.get('l')),
                        'normalising a mesh, which queries may trigger, changes %s other than by marking entries invalid' % short([x for x in place[1] if x in CONTENT][0]))
            else:
                rep.ok('%s marks %s entries invalid' % (f.d.q, short([x for x in place[1] if x in CONTENT][0])))
