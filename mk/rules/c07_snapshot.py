"""The recorded undo action takes back what the call changed."""
from .. import undo
from .c06_recorded import short

MIN = {'covered_effects': 30, 'snapshot_fields': 2}


def check(P, rep, tier):
    always, sess, cover, out = undo.analyse(P)
    from ..undo import swapped, SNAP
    both, (r, c) = swapped(P)
    rep.count('snapshot_fields', len(both))
    for n in sorted(always):
        if n not in r or n not in c:
            rep.bad('snapshot:%s' % short(n), SNAP, 'undoing/redoing a state change does not put back %s' % short(n))
        else:
            rep.ok('snapshot action puts back %s' % short(n))
    snapshot_ctor(P, rep, both)
    for f, a, good, allst in out:
        before = len(rep.viol)
        for s in good:
            effs = [k for k in s.aux if k[0] == 'eff']
            adds = [k[1] for k in s.aux if k[0] == 'add']
            for e in effs:
                if (e[1] == 'mod' and e[3] in sess) or not [i for i in adds if i == e[2]]:
                    continue          # reported by C06
                if any(('rec', t) in s.aux and s.aux[('rec', t)] == e[2] for t in e[5]):
                    rep.count('covered_effects')
                else:
                    rep.bad('%s:%s' % (f.d.n, short(e[4]) if e[1] == 'mod' else short(e[3])), e[6],
                            '%s changes %s, but no undo action recorded on this path was taken before the change or returned by it: undo would not restore it' % (
                                f.d.n, short(e[3]) if e[1] == 'repl' else '%s of the object behind %s' % (short(e[4]), short(e[3]))))
        if len(rep.viol) == before:
            rep.ok()


def snapshot_ctor(P, rep, fields):
    """the snapshot is initialised from the state it is taken of, field by field"""
    from ..api import ApiFlow, STATE
    from ..undo import SNAP
    r = P.recs_by_q[SNAP]
    ct = [m.defn for m in r.methods if m.ctor and m.ctor not in ('copy', 'move') and m.defn is not None and m.p]
    for k in ct:
        a = ApiFlow(P)
        res, _ = a.run(k)
        for s, _ in res:
            for q in sorted(fields):
                got = False
                for p, v in s.store.items():
                    if p[0] == 'fld' and p[2] == q and p[1][0] in ('fld', 'obj'):
                        got = v[0] == 'fld' and v[2] == q and v[1][0] == 'par'
                if not got:
                    rep.bad('snapshot-init:%s' % short(q), k.where, 'the snapshot does not copy %s from the state it is taken of' % short(q))
                else:
                    rep.ok()
