"""Every change of a state is recorded for undo, under the id of that state."""
from ..api import id_params
from ..facts import AnalysisBroken
from .. import undo
from .c04_isolation import DESTROY, DESTROY_ALL

MIN = {'changing_functions': 30, 'effects_on_success_paths': 30, 'records': 1}


def short(q):
    return q.split('::')[-1]


def check(P, rep, tier):
    always, sess, cover, out = undo.analyse(P)
    recording = {}
    for f, a, good, allst in out:
        recording[f.d.n] = good and all(any(k[0] == 'add' for k in s.aux) for s in good if any(k[0] == 'eff' for k in s.aux))
    creators = session_creators(P, sess, out)
    for f, a, good, allst in out:
        ids = {('par', i, f.params[i]['n']) for i in id_params(f)}
        changed = False
        before = len(rep.viol)
        for s in allst:
            for k in s.aux:
                if k[0] == 'add':
                    rep.count('records')
                    if k[1] not in ids:
                        rep.bad('%s:id' % f.d.n, f.where, '%s records an undo action under %s instead of the id the caller passed' % (f.d.n, 'no id' if k[1] is None else k[1]))
        for s in good:
            effs = [k for k in s.aux if k[0] == 'eff']
            adds = [k[1] for k in s.aux if k[0] == 'add']
            if effs and any(k[0] == 'twice' for k in s.aux):
                rep.bad('%s:twice' % f.d.n, f.where, '%s records two undo actions for one call: one undo does not take it back' % f.d.n)
            for e in effs:
                rep.count('effects_on_success_paths')
                changed = True
                if e[1] == 'mod' and e[3] in sess:
                    # a step of an interactive session: taken back by the action recorded when the session was created
                    if not creators.get(e[3]) and not adds:
                        rep.bad('%s:%s' % (f.d.n, short(e[3])), e[6], '%s changes %s in a session whose start recorded no undo action' % (f.d.n, short(e[4])))
                    continue
                if not [i for i in adds if i == e[2]]:
                    rep.bad('%s:%s' % (f.d.n, short(e[3])), e[6], '%s changes %s of the state and can succeed without recording an undo action for it' % (
                        f.d.n, short(e[3]) if e[1] == 'repl' else '%s of %s' % (short(e[4]), short(e[3]))))
            if f.d.n in DESTROY and not any(k[0] == 'stack' and (k[1] == 'Clear' or k[2] in ids) for k in s.aux):
                rep.bad('%s:history' % f.d.n, f.where, '%s can succeed without dropping the undo history of the state it removes' % f.d.n)
            if f.d.n in DESTROY_ALL and not any(k[0] == 'stack' and k[1] == 'Clear' for k in s.aux):
                rep.bad('%s:history' % f.d.n, f.where, '%s can succeed without dropping the undo history' % f.d.n)
        if changed:
            rep.count('changing_functions')
        if len(rep.viol) == before:
            rep.ok('%s: %d success paths' % (f.d.n, len(good)) if changed else None)


def session_creators(P, sess, out):
    """session pointers whose creation is always accompanied by a recorded undo action"""
    res = {}
    for f, a, good, allst in out:
        for n in sess:
            for s in good:
                v = [val for k, val in s.store.items() if k[0] == 'fld' and k[2] == n and k[1][0] == 'el']
                if v and v[0][0] == 'new':
                    res[n] = res.get(n, True) and any(k[0] == 'add' for k in s.aux)
    return res
