"""A call that reports success has set what it was asked for."""
import json
import os
from ..api import api_functions
from ..outputs import nothing_there, outputs

MIN = {'functions': 100, 'outputs_required': 50}
SPEC = os.path.join(os.path.dirname(__file__), 'c09_outputs.json')


def array(P, f, i, fld):
    """is the output an array (which may have no elements)?"""
    t = f.d.p[i]
    if not fld:
        return bool(t.ptr)
    rec = P.recs_by_q.get((t.to if t.ref and t.to is not None else t).rec)
    for x in rec.fields if rec else ():
        if x['n'] == fld:
            return bool(x['t'].ptr)
    return True


def plain_out(P, f, i):
    """a non-const reference to a number or a flag can only be an output"""
    t = f.d.p[i]
    return t.ref == 1 and t.to is not None and not t.to.const and not t.to.rec and not t.to.ptr


def check(P, rep, tier):
    spec = json.load(open(SPEC))
    for f in api_functions(P):
        if f.body is None:
            continue
        rep.count('functions')
        n = f.d.n
        pos = {p['n']: i for i, p in enumerate(f.params)}
        want = set()
        for i in range(len(f.params)):
            if plain_out(P, f, i) and n not in spec:
                want.add((i, ''))
        for i, fld in spec.get(n, ()):
            if i < len(f.params):
                want.add((i, fld))
        if not want:
            continue
        a, may, must, good, states = outputs(P, f)
        for i, fld in sorted(want):
            rep.count('outputs_required')
            name = '%s.%s' % (f.params[i]['n'], fld) if fld else f.params[i]['n']
            arr = array(P, f, i, fld)
            if (i, fld) not in may:
                rep.bad('%s:%s' % (n, name), f.where, '%s never writes its output %s' % (n, name))
                continue
            miss = [s for s, o in zip(states, good) if (i, fld) not in o and not (arr and nothing_there(s))]
            if miss:
                rep.bad('%s:%s' % (n, name), f.where, '%s can report success without having written its output %s (%d of %d success paths)' % (n, name, len(miss), len(good)))
            else:
                rep.ok('%s sets %s on all %d success paths' % (n, name, len(good)))
