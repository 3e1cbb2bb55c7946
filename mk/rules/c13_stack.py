"""The undo history is a stack: last change first, redo in mirror order, oldest dropped first, redo lost only by a new change."""
from ..api import ApiFlow, api_functions
from ..facts import AnalysisBroken
from ..flow import Flow
from ..lists import ListFlow, ORIG, UNK

STACK = 'meshkernel::UndoActionStack'
ACTION = 'meshkernel::UndoAction'
MIN = {'methods': 5, 'paths': 6, 'api_functions': 4}
EMPTY = ('empty', 0, 0, (), (), None)


def num(v):
    return v[0] == 'c' and isinstance(v[1], (int, bool))


def lin(v, env):
    """value of a linear term, or None"""
    if v in env:
        return env[v]
    if num(v):
        return int(v[1])
    if v[0] == 'sz':
        b = env.get(('sz', v[1]))
        L = v[2]
        if b is None or L == UNK or L[4]:
            return None
        n = (b if L[0] == 'orig' else 0) - L[1] - L[2] + len(L[3])
        if L[5] is not None:
            t = lin(L[5], env)
            if t is None:
                return None
            n = min(n, t)
        return n
    if v[0] == 'op' and v[1] in '+-' and len(v) == 4:
        a, b = lin(v[2], env), lin(v[3], env)
        return None if a is None or b is None else (a + b if v[1] == '+' else a - b)
    return None


def holds(facts, env):
    """do all the facts that can be evaluated hold?"""
    for a, t in facts.items():
        if a[0] in ('<', '=='):
            x, y = lin(a[1], env), lin(a[2], env)
            if x is None or y is None:
                continue
            if ((x < y) if a[0] == '<' else (x == y)) != t:
                return False
    return True


class StackFlow(ListFlow):
    def on_call(self, e, fd, ob, args, st):
        if fd.cls == ACTION and fd.n in ('Restore', 'Commit'):
            s = st.copy()
            k = 'events'
            s.aux[k] = s.aux.get(k, ()) + ((fd.n, ob),)
            self.throw(st, 'any')
            return [(s, ('void',))]
        return super().on_call(e, fd, ob, args, st)

    def want_inline(self, fd, fn, node, st):
        return fd.cls == STACK or (fd.cls == ACTION and fd.n == 'GetState')


class ActFlow(Flow):
    def on_fact(self, st, atom, val):
        st.aux[('fact', atom)] = val       # also after the field has been overwritten

    def on_call(self, e, fd, ob, args, st):
        if fd.virt and fd.n in ('DoRestore', 'DoCommit'):
            s = st.copy()
            s.aux['events'] = s.aux.get('events', ()) + (fd.n,)
            self.throw(s, 'any')
            return [(s, ('void',))]
        return None


class HistFlow(ApiFlow):
    def on_call(self, e, fd, ob, args, st):
        if fd.cls == STACK and fd.n in ('Undo', 'Commit', 'Clear', 'Remove', 'SetMaximumSize'):
            s = st.copy()
            s.aux['events'] = s.aux.get('events', ()) + ((fd.n, tuple(self.aval(st, a) for a in args)),)
            self.throw(st, 'any')
            return [(s, ('hist', fd.n))]
        return super().on_call(e, fd, ob, args, st)


def methods(P):
    r = P.records.get(STACK)
    if r is None:
        raise AnalysisBroken('class %s not found' % STACK)
    return r, {m.n: m.defn for m in r.methods if m.defn is not None and not m.ctor}


def check(P, rep, tier):
    r, M = methods(P)
    lists = [f['q'] for f in r.fields if f['t'].rec in ('std::list', 'std::deque', 'std::vector', 'std::__cxx11::list')]
    if len(lists) != 2 or any(n not in M for n in ('Add', 'Undo', 'Commit', 'Clear', 'Remove', 'SetMaximumSize', 'CommittedSize', 'RestoredSize')):
        rep.notes.append('the history is not kept in two lists: not decided')
        return
    el = P.records.get(next(f['t'] for f in r.fields if f['q'] in lists).targs[0].s)
    fields = [f['q'] for f in el.fields]
    actf = next(q['q'] for q in el.fields if q['t'].rec == 'std::unique_ptr')
    idf = next(q['q'] for q in el.fields if q['t'].b in ('int', 'uint'))
    maxf = next((f['q'] for f in r.fields if f['t'].b in ('int', 'uint')), None)
    MAX = ('fld', ('this',), maxf)
    StackFlow.fields = fields
    R = {}
    for n, fn in M.items():
        a = StackFlow(P, lists)
        res, exc = a.run(fn)
        R[n] = res, exc
        rep.count('methods')
        rep.count('paths', len(res))
    # the list Add appends to holds what can be undone
    C = [f for f in lists if any(a.get(('L', f), ORIG) != UNK and a.get(('L', f), ORIG)[3] for a in (s.aux for s, _ in R['Add'][0]))]
    if len(C) != 1:
        rep.bad('Add:record', M['Add'].where, 'UndoActionStack::Add does not append the action to the list of things that can be undone')
        return
    C = C[0]
    S = [f for f in lists if f != C][0]
    where = {n: fn.where for n, fn in M.items()}

    def L(s, f):
        return s.aux.get(('L', f), ORIG)

    def undecided(n, s):
        if UNK in (L(s, C), L(s, S)):
            rep.notes.append('UndoActionStack::%s: a list operation was not understood' % n)
            rep.count('undecided')
            return True
        return False

    def trimmed(n, s, V):
        """V of the undoable list: oldest dropped exactly when there is one too many"""
        pts = [(sz, mx) for mx in (1, 2, 3, 50) for sz in range(0, mx + 1) if holds(s.facts, {('sz', C): sz, ('sz', S): 7, MAX: mx})]
        for sz, mx in pts:
            env = {('sz', C): sz, ('sz', S): 7, MAX: mx}
            full = sz + len(V[3]) - mx
            cut = V[2]
            if V[5] is not None:
                t = lin(V[5], env)
                if t is None:
                    return
                cut = max(0, sz + len(V[3]) - t)
            if cut > max(0, full):
                rep.bad(n + ':drop', where[n], 'UndoActionStack::%s drops the oldest action although the history is not longer than its maximum' % n)
            elif cut < full:
                rep.bad(n + ':bound', where[n], 'UndoActionStack::%s can let the history grow beyond its maximum size' % n)

    def bad(n, what, msg):
        rep.bad('%s:%s' % (n, what), where[n], 'UndoActionStack::%s %s' % (n, msg))

    # ---------------------------------------------------------------- Add
    n = 'Add'
    pa, pi = M[n].params[0], M[n].params[1]
    A, I = ('par', 0, pa['n']), ('par', 1, pi['n'])
    enums = P.enums
    for s, v in R[n][0]:
        if undecided(n, s):
            continue
        c, t = L(s, C), L(s, S)
        null = [(a, tr) for a, tr in s.facts.items() if a[0] == '==' and ('null',) in a[1:] and A in a[1:]]
        isnull = any(tr for a, tr in null)
        if c == ORIG and t == ORIG:
            if not isnull and any(holds(s.facts, {MAX: m, ('sz', C): x, ('sz', S): 7}) for m in (1, 2, 50) for x in range(m + 1)):
                bad(n, 'dropped', 'can return without recording a valid action')
            else:
                rep.ok()
            continue
        if isnull:
            bad(n, 'null', 'records a null action')
            continue
        if not any(not tr for a, tr in null):
            bad(n, 'null', 'can record a null action')
        if c[0] != 'orig' or c[1] or c[4] or len(c[3]) != 1:
            bad(n, 'record', 'does not append exactly one action to what can be undone')
            continue
        e = c[3][0]
        if s.store.get(('fld', e, actf)) != A or s.store.get(('fld', e, idf)) != I:
            bad(n, 'record', 'does not record the action under the id it was given')
        st = [(a, tr) for a, tr in s.facts.items() if a[0] == '==' and any(isinstance(x, tuple) and 'GetState' in str(x) or 'm_state' in str(x) for x in a[1:])]
        com = state_values(P)
        if com and not any((tr and ('c', com['Committed']) in a[1:]) or (not tr and ('c', com['Restored']) in a[1:]) for a, tr in st):
            bad(n, 'state', 'can record an action that is not in the committed state')
        if t[:4] != ORIG[:4] or t[5] is not None or t[4] != ((idf.rsplit('::', 1)[-1], I),):
            bad(n, 'redo', 'does not drop exactly the undone actions of the same id' if t != EMPTY else 'drops the undone actions of other ids too')
        trimmed(n, s, c)
        rep.ok('Add: appends, drops redo of the id, keeps within the maximum')
    for s, ty in R[n][1]:
        if ty == 'meshkernel::ConstraintError' and (L(s, C) != ORIG or L(s, S) != ORIG):
            bad(n, 'throw', 'changes the history before it rejects an action')
    # ---------------------------------------------------------------- Undo, Commit
    for n, src, dst, ev in (('Undo', C, S, 'Restore'), ('Commit', S, C, 'Commit')):
        act = ('elt', src, 0)
        seen = 0
        for s, v in R[n][0]:
            if undecided(n, s):
                continue
            a, b = L(s, src), L(s, dst)
            evs = s.aux.get('events', ())
            empty = not any(holds(s.facts, {('sz', src): k, ('sz', dst): d, MAX: m}) for k in (1, 2, 50) for m in (2, 50) for d in range(m + 1))
            if a == ORIG and b == ORIG and not evs:
                if v != ('nopt',):
                    bad(n, 'result', 'reports an id although it did nothing')
                elif not empty:
                    bad(n, 'nothing', 'can do nothing although there is an action to %s' % ('undo' if n == 'Undo' else 'redo'))
                else:
                    rep.ok()
                continue
            seen += 1
            want = (ev, ('deref', ('fld', act, actf)))
            if evs != (want,):
                bad(n, 'action', 'does not %s exactly the last action of its list, once' % ev.lower())
            if a != ('orig', 1, 0, (), (), None):
                bad(n, 'source', 'does not take exactly the last action from its list')
            if b[3] != (act,) or b[0] != 'orig' or b[1] or b[4] or (n == 'Undo' and (b[2] or b[5] is not None)):
                bad(n, 'target', 'does not put the action it %s at the end of the other list' % ('undid' if n == 'Undo' else 'redid'))
            elif n == 'Commit':
                trimmed(n, s, b)
            if v != ('opt', ('fld', act, idf)):
                bad(n, 'result', 'does not return the id of the action it %s' % ('undid' if n == 'Undo' else 'redid'))
            rep.ok('%s: one action moved' % n)
        if not seen and not any(undecided(n, s) for s, v in R[n][0]):
            bad(n, 'nothing', 'never does anything')
        for s, ty in R[n][1]:
            if UNK in (L(s, C), L(s, S)):
                continue
            if not s.aux.get('events') and (L(s, src)[1] or L(s, dst)[3]):
                bad(n, 'order', 'moves the action before it has run: if it fails, the history no longer matches the mesh')
    # ---------------------------------------------------------------- Clear, Remove, SetMaximumSize
    for s, v in R['Clear'][0]:
        if not undecided('Clear', s):
            if L(s, C) != EMPTY or L(s, S) != EMPTY:
                bad('Clear', 'rest', 'leaves actions behind')
            else:
                rep.ok()
    n = 'Remove'
    I = ('par', 0, M[n].params[0]['n'])
    flt = (idf.rsplit('::', 1)[-1], I)
    for s, v in R[n][0]:
        if undecided(n, s):
            continue
        if any(L(s, f) != ORIG[:4] + ((flt,), None) for f in (C, S)):
            bad(n, 'rest', 'does not remove exactly the actions with the given id from both lists')
        elif v[0] != 'top' and v not in [('op', '+', ('removed', a, ORIG, flt), ('removed', b, ORIG, flt)) for a, b in ((C, S), (S, C))]:
            bad(n, 'count', 'does not return how many actions it removed')
        else:
            rep.ok()
    n = 'SetMaximumSize'
    N = ('par', 0, M[n].params[0]['n'])
    for s, v in R[n][0]:
        if undecided(n, s):
            continue
        if s.store.get(MAX) != N:
            bad(n, 'size', 'can return without setting the maximum')
        c, t = L(s, C), L(s, S)
        for sz in range(0, 7):
            for mx in (0, 1, 2, 3, 5, 50):
                env = {('sz', C): sz, ('sz', S): 4, N: mx}
                if not holds(s.facts, env):
                    continue
                if c[3] or c[4] or c[1]:
                    bad(n, 'which', 'drops other actions than the oldest')
                    continue
                k = lin(('sz', C, c), env)
                if k is not None and k > mx:
                    bad(n, 'bound', 'can leave more actions than the new maximum')
                elif k is not None and k < min(sz, mx):
                    bad(n, 'drop', 'drops actions that fit in the new maximum')
                if mx == 0 and t != EMPTY and t[:1] != ('empty',):
                    bad(n, 'off', 'keeps undone actions when the history is switched off')
                elif mx and t != ORIG and sz >= 0:
                    bad(n, 'redo', 'drops undone actions')
        rep.ok()
    # ---------------------------------------------------------------- counts
    for n, fs in (('CommittedSize', (C,)), ('RestoredSize', (S,)), ('Size', (C, S))):
        if n not in M:
            continue
        I = ('par', 0, M[n].params[0]['n']) if M[n].params else None
        sums = [('sz', fs[0], ORIG)] if len(fs) == 1 else [('op', '+', ('sz', a, ORIG), ('sz', b, ORIG)) for a, b in (fs, fs[::-1])]
        for s, v in R[n][0]:
            one = I is None or any(tr and a[0] == '==' and I in a[1:] for a, tr in s.facts.items())
            if v[0] in ('top', 'ret', 'call'):
                rep.count('undecided')
                continue
            if one and v not in sums or not one and v != ('count', fs[0], ORIG, (idf.rsplit('::', 1)[-1], I)):
                bad(n, 'count', 'does not return the number of %s actions%s' % ({'C': 'undoable', 'R': 'undone', 'S': 'recorded'}[n[0]], '' if one else ' with the given id'))
            else:
                rep.ok()
    machine(P, rep)
    api(P, rep)


def state_values(P):
    e = P.enums.get(ACTION + '::State')
    if not e:
        return {}
    it = e.get('e') or e.get('v') or e if isinstance(e, dict) else e
    out = {}
    for x in it:
        if isinstance(x, dict):
            out[x['n'].rsplit('::', 1)[-1]] = x['v']
        elif isinstance(x, (list, tuple)):
            out[x[0].rsplit('::', 1)[-1]] = x[1]
        else:
            out[x.rsplit('::', 1)[-1]] = it[x]
    return out if 'Committed' in out and 'Restored' in out else {}


def machine(P, rep):
    """an action runs exactly when its state says so, and its state says what was run"""
    vals = state_values(P)
    r = P.records.get(ACTION)
    if r is None or not vals:
        raise AnalysisBroken('the states of %s were not found' % ACTION)
    fld = next(('fld', ('this',), f['q']) for f in r.fields if f['t'].enum == ACTION + '::State')
    M = {m.n: m.defn for m in r.methods if m.defn is not None and not m.ctor}
    for n, pre, do, post in (('Commit', 'Restored', 'DoCommit', 'Committed'), ('Restore', 'Committed', 'DoRestore', 'Restored')):
        fn = M[n]
        a = ActFlow(P)
        res, exc = a.run(fn)
        for s, v in res:
            rep.count('state_machine_paths')
            pos = []
            for k, x in vals.items():
                ok = True
                for at, tr in [(kk[1], tt) for kk, tt in s.aux.items() if kk[0] == 'fact']:
                    if at[0] == '==' and fld in at[1:]:
                        o = at[1] if at[2] == fld else at[2]
                        if num(o) and (int(o[1]) == x) != tr:
                            ok = False
                if ok:
                    pos.append(k)
            ev = s.aux.get('events', ())
            end = a.load0(s, fld)
            w = fn.where
            if not pos:
                continue
            if ev == () and pre in pos:
                rep.bad('UndoAction::%s:skipped' % n, w, 'UndoAction::%s can leave an action in state %s without running it' % (n, pre))
            elif ev and (ev != (do,) or pos != [pre]):
                rep.bad('UndoAction::%s:runs' % n, w, 'UndoAction::%s can run %s for an action in state %s' % (n, ', '.join(ev), '/'.join(pos)))
            elif ev and end != ('c', vals[post]):
                rep.bad('UndoAction::%s:state' % n, w, 'UndoAction::%s does not leave the action in state %s' % (n, post))
            elif not ev and end != fld:
                rep.bad('UndoAction::%s:state' % n, w, 'UndoAction::%s changes the state of an action it did not run' % n)
            else:
                rep.ok('UndoAction::%s in %s' % (n, '/'.join(pos)))
        for s, ty in exc:
            if a.load0(s, fld) != fld:
                rep.bad('UndoAction::%s:failed' % n, fn.where, 'UndoAction::%s sets the state before the action has run: if it fails it cannot be tried again' % n)


def api(P, rep):
    fns = {f.d.n: f for f in api_functions(P)}
    for n, ev in (('mkernel_undo_state', 'Undo'), ('mkernel_redo_state', 'Commit')):
        f = fns.get(n)
        if f is None:
            continue
        rep.count('api_functions')
        a = HistFlow(P)
        res, exc = a.run(f)
        D, K = ('par', 0, f.params[0]['n']), ('par', 1, f.params[1]['n'])
        for s, v in res:
            if s.aux.get('caught'):
                if a.load0(s, D) != ('c', False):
                    rep.bad(n + ':failed', f.where, '%s does not report false when the action fails' % n)
                continue
            if s.aux.get('events') != ((ev, ()),):
                rep.bad(n + ':once', f.where, '%s does not take exactly one step in the history' % n)
                continue
            h = ('hist', ev)
            none = [tr for at, tr in s.facts.items() if at[0] == '==' and h in at[1:] and ('null',) in at[1:]]
            d, k = a.load0(s, D), a.load0(s, K)
            if none and none[0]:
                if d != ('c', False):
                    rep.bad(n + ':reported', f.where, '%s reports a step although there was nothing to do' % n)
                else:
                    rep.ok()
            elif none:
                if d != ('c', True) or k != ('deref', h):
                    rep.bad(n + ':reported', f.where, '%s does not report the step it took, or not under the id of the state it changed' % n)
                else:
                    rep.ok()
            elif d == ('op', '!=', h, ('null',)) or d[0] in ('top', 'op', 'call'):
                rep.ok()
            else:
                rep.bad(n + ':reported', f.where, '%s reports its result without asking whether there was a step' % n)
    for n, i in (('mkernel_undo_state_count', None), ('mkernel_undo_state_count_for_id', 0)):
        f = fns.get(n)
        if f is None:
            continue
        rep.count('api_functions')
        a = HistFlow(P)
        res, exc = a.run(f)
        o = [('par', j, p['n']) for j, p in enumerate(f.params) if p['t'].ref or p['t'].ptr]
        ida = ('c', -999) if i is None else ('par', i, f.params[i]['n'])
        for s, v in res:
            if s.aux.get('caught'):
                continue
            for p, m in zip(o, ('CommittedSize', 'RestoredSize')):
                x = a.load0(s, p)
                if x == ('c', 0) and i is not None:
                    continue
                if x[0] == 'call' and x[1] == STACK + '::' + m and x[3:] == (ida,):
                    rep.ok()
                elif x[0] in ('call', 'c'):
                    rep.bad(n + ':' + m, f.where, '%s does not report %s for %s' % (n, m, 'all states' if i is None else 'the id it was asked for'))
    for n, ev in (('mkernel_clear_undo_state', 'Clear'), ('mkernel_clear_undo_state_for_id', 'Remove'), ('mkernel_set_undo_size', 'SetMaximumSize')):
        f = fns.get(n)
        if f is None:
            continue
        rep.count('api_functions')
        a = HistFlow(P)
        res, exc = a.run(f)
        want = ((ev, tuple(('par', j, p['n']) for j, p in enumerate(f.params))),)
        for s, v in res:
            if s.aux.get('caught'):
                continue
            if s.aux.get('events') != want:
                rep.bad(n + ':history', f.where, '%s does not call %s with what it was given' % (n, ev))
            else:
                rep.ok()
