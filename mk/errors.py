"""The error classes of the library and the status codes they stand for, read from the source."""
from .facts import AnalysisBroken, func_nodes, walk

BASE = 'meshkernel::MeshKernelError'


def unwrap(e):
    while isinstance(e, dict):
        if e['k'] == 'cast':
            e = e['e']
        elif e['k'] == 'ctor' and e['f'].ctor in ('copy', 'move') and e['a']:
            e = e['a'][0]
        else:
            return e
    return e


def classes(P):
    """error classes: class -> (status code, file, line) from the code each class reports for itself"""
    out = {}
    code = [f for f in P.funcs if f.d.cls == BASE and f.d.ret.enum == 'meshkernel::ExitCode']
    if len(code) != 1:
        raise AnalysisBroken('accessor of the exit code of %s not found' % BASE)
    # the virtual function that supplies it
    virt = [n['f'] for n in func_nodes(code[0]) if n.get('k') == 'call' and n.get('f') is not None and n['f'].virt]
    if len(virt) != 1:
        raise AnalysisBroken('virtual category accessor of %s not found' % BASE)
    fds = [virt[0]]
    seen = []
    while fds:
        x = fds.pop()
        if x in seen:
            continue
        seen.append(x)
        fds.extend(x.overriders)
    sup = {}
    for fd in seen:
        if fd.defn is None:
            continue
        es = [n for n in func_nodes(fd.defn) if n.get('k') == 'enum' and n['t'] is not None and n['t'].enum == 'meshkernel::ExitCode']
        vals = {n['v'] for n in es}
        sup[fd.cls] = (vals, fd.defn)
    for q, r in P.recs_by_q.items():
        bs = P.bases_of(q)
        if BASE in bs:
            for b in bs:
                if b in sup:
                    out[q] = sup[b]
                    break
    return out, code[0].d
