"""A call works on exactly the state its id names and refuses ids that do not exist."""
from ..api import ApiFlow, api_functions, id_params, state_map
from ..facts import AnalysisBroken

MIN = {'functions_with_id': 100, 'state_accesses': 50, 'success_returns': 50}

# documented to accept any id: the answer for an unknown id is part of their contract
ANY_ID = {
    'mkernel_is_valid_state': 'asks whether the id exists',
    'mkernel_undo_state_count_for_id': 'documented to report zero for an unknown id',
    'mkernel_clear_undo_state_for_id': 'removing the history of an unknown id is a no-op',
}
CREATE = {'mkernel_allocate_state'}
DESTROY = {'mkernel_expunge_state'}
DESTROY_ALL = {'mkernel_clear_state'}


class F(ApiFlow):
    def setup(self, f, rep):
        self.f = f
        self.rep = rep
        self.okids = {('par', i, f.params[i]['n']) for i in id_params(f)}
        self.acc = {}

    def where(self, node):
        fr = self.frame().fn
        return '%s:%s' % (fr.file, node.get('l', fr.line))

    def on_fact(self, st, atom, val):
        if atom[0] == 't' and atom[1][0] == 'contains' and atom[1][1] == self.map and val:
            st.aux[('has', atom[1][2])] = True

    def on_element(self, base, idx, st, node, kind):
        if base != self.map:
            return
        c = st.facts.get(('t', ('contains', base, idx)))
        k = (self.f.d.n, kind, self.where(node))
        self.rep.count('state_accesses')
        if kind == 'at':
            st.aux[('has', idx)] = True
        if idx not in self.okids:
            self.rep.bad('%s:foreign-id' % self.f.d.n, self.where(node), '%s accesses the state of an id that is not the one passed by the caller (%s)' % (self.f.d.n, idx,))
        elif c is not True:
            self.rep.bad('%s:unchecked-id' % self.f.d.n, self.where(node), '%s uses the state of its id on a path where the id is not known to exist (the map would create it)' % self.f.d.n)

    def on_map_mutation(self, ob, n, args, st, node):
        if ob != self.map:
            return
        name = self.f.d.n
        self.rep.count('map_mutations')
        if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if name not in CREATE:
                self.rep.bad('%s:creates' % name, self.where(node), '%s adds a state' % name)
            else:
                st.aux['inserted'] = self.keyof(args, st)
                if n == 'insert_or_assign':
                    self.rep.bad('%s:overwrites' % name, self.where(node), 'allocating a state can overwrite an existing one')
        elif n in ('erase', 'extract'):
            k = self.aval(st, args[0]) if args else None
            if k is not None and k[0] == 'find':
                k = k[2]
            if name not in DESTROY:
                self.rep.bad('%s:removes' % name, self.where(node), '%s removes a state' % name)
            elif k not in self.okids:
                self.rep.bad('%s:foreign-id' % name, self.where(node), '%s removes the state of an id that is not the one passed by the caller' % name)
            else:
                st.aux[('erased', k)] = True
        elif n == 'clear' and name in DESTROY_ALL:
            st.aux['cleared'] = True
        elif n != 'clear' or name not in DESTROY_ALL:
            self.rep.bad('%s:removes' % name, self.where(node), '%s changes the set of states (%s)' % (name, n))

    def keyof(self, args, st):
        v = self.aval(st, args[0])
        return v[1] if v[0] == 'tuple' else v

    def on_write(self, path, val, st, node):
        # the state counter is only ever advanced, except when all states are dropped
        if path == self.counter:
            if val[0] == 'op' and val[1] == '+' and val[3][0] == 'c' and val[3][1] > 0:
                self.rep.count('counter_writes')
                self.rep.ok()
                st.aux['advanced'] = True
            else:
                st.aux['reset'] = True
                self.rep.count('counter_writes')


def check(P, rep, tier):
    fs = {f.d.n: f for f in api_functions(P)}
    for n in list(ANY_ID) + list(CREATE | DESTROY | DESTROY_ALL):
        if n not in fs:
            raise AnalysisBroken(n + ' not found')
    counter = find_counter(P, fs, rep)
    for f in fs.values():
        a = F(P)
        a.counter = counter
        a.setup(f, rep)
        before = len(rep.viol)
        res, exc = a.run(f)
        ids = a.okids
        if ids:
            rep.count('functions_with_id')
        for s, v in res:
            if s.aux.get('caught'):
                if s.aux.get('reset') and not s.aux.get('cleared'):
                    rep.bad('%s:counter' % f.d.n, f.where, '%s can reset the id counter while states are alive: ids would be handed out twice' % f.d.n)
                continue
            if s.aux.get('reset') and not s.aux.get('cleared'):
                rep.bad('%s:counter' % f.d.n, f.where, '%s resets the id counter while states are alive: ids would be handed out twice' % f.d.n)
            if ids:
                rep.count('success_returns')
            for i in ids:
                if f.d.n not in ANY_ID and not s.aux.get(('has', i)):
                    rep.bad('%s:accepts-unknown' % f.d.n, f.where, '%s can report success for an id that does not exist' % f.d.n)
            if f.d.n in CREATE:
                out = [('par', i, p['n']) for i, p in enumerate(f.params) if p['t'].ref]
                vals = [s.store.get(o) for o in out]
                if s.aux.get('inserted') is None or (s.aux['inserted'] not in vals and s.aux['inserted'] not in out):
                    rep.bad('%s:new-id' % f.d.n, f.where, 'the id handed to the caller is not the id of the state that was created')
                elif counter is not None and not s.aux.get('advanced'):
                    rep.bad('%s:fresh-id' % f.d.n, f.where, 'a new state is created without advancing the id counter: ids would be handed out twice')
                elif counter is not None and not from_counter(s.aux['inserted'], counter) and not any(v is not None and from_counter(v, counter) for v in vals):
                    rep.bad('%s:fresh-id' % f.d.n, f.where, 'the id of a new state is not the value of the id counter: ids would be handed out twice')
            if f.d.n in DESTROY and not any(s.aux.get(('erased', i)) for i in ids):
                rep.bad('%s:keeps' % f.d.n, f.where, '%s can report success without removing the state' % f.d.n)
        if len(rep.viol) == before:
            rep.ok('%s: ids %s, %d return states' % (f.d.n, [i[2] for i in ids], len(res)) if ids else None)


def from_counter(v, counter):
    while v[0] == 'op' and v[1] in '+-' and v[3][0] == 'c':
        v = v[2]
    return v == counter


def find_counter(P, fs, rep):
    """the global integer the new id comes from"""
    from ..facts import func_nodes
    f = fs['mkernel_allocate_state']
    a = ApiFlow(P)
    got = []

    class G(ApiFlow):
        def on_map_mutation(self, ob, n, args, st, node):
            if ob == self.map:
                v = self.aval(st, args[0])
                got.append(v[1] if v[0] == 'tuple' else v)

        def on_write(self, path, val, st, node):
            if path[0] == 'g' and val[0] == 'op' and val[1] == '+':
                got.append(path)
    G(P).run(f)
    c = [g for g in got if g[0] == 'g' and g[1] in P.globals and P.globals[g[1]]['t'].b in ('int', 'uint')]
    plus = [g[2] for g in got if g[0] == 'op' and g[1] == '+' and g[2][0] == 'g' and g[3][0] == 'c']
    if c or plus:
        return (c or plus)[0]
    if not got:
        raise AnalysisBroken('no state is created by mkernel_allocate_state')
    rep.bad('mkernel_allocate_state:fresh-id', f.where, 'a new id (%s) does not come from a counter that only grows: ids of live states would be handed out again' % (got[0],))
    return None
