"""No exception leaves the C API."""
from ..api import ApiFlow, api_functions
from ..facts import func_nodes, walk
from ..throws import ExplicitThrows

# argument checks that the calls inside parallel regions satisfy: the index comes from the loop / from the face's own node list
ARGCHECK = {
    'meshkernel::NextCircularForwardIndex': 'called with a loop index below the size it is given',
    'meshkernel::Mesh::Node': 'called with a node index below GetNumNodes()',
    'meshkernel::Polygon::FaceAreaAndCenterOfMass': 'called with a closed face polygon (at least 3 points; faces with fewer nodes are refused when faces are built)',
}
MIN = {'api_functions': 100, 'try_blocks': 1}


class F(ApiFlow):
    def throw(self, st, ty):
        if len(self.exc) == 1:
            self.esc.append((self.curnode, ty))
        super().throw(st, ty)

    def ev_call(self, e, st):
        self.curnode = e
        return super().ev_call(e, st)


def check(P, rep, tier):
    for f in api_functions(P):
        a = F(P)
        a.esc = []
        a.curnode = None
        res, exc = a.run(f)
        rep.count('api_functions')
        rep.count('try_blocks', sum(1 for n in func_nodes(f) if n.get('k') == 'try'))
        if exc:
            n, ty = a.esc[0] if a.esc else (None, '')
            callee = ''
            if n is not None and n.get('f') is not None:
                callee = n['f'].q
            rep.bad('%s:escape' % f.d.n, '%s:%s' % (f.file, n['l'] if n is not None and 'l' in n else f.line),
                    'an exception (%s) can leave the C function %s%s' % (ty, f.d.n, ', raised by ' + callee if callee else ''))
        else:
            rep.ok('%s: every raising expression lies under a handler that catches everything and whose own body cannot throw' % f.d.n)
    # std::terminate: explicit throws reachable inside noexcept functions, destructors, OpenMP regions
    T = ExplicitThrows(P, ARGCHECK)
    for f in P.funcs:
        nx = f.d.nx == 1 or (f.d.dtor and f.d.nx != 2)
        if nx and not f.d.dflt:
            rep.count('noexcept_functions')
            w = T.escaping(f)
            if w:
                rep.bad('%s:noexcept' % f.d.q, f.where, 'is noexcept but an exception can leave it: %s' % T.show(w))
            else:
                rep.ok()
        for n in func_nodes(f):
            if n.get('k') == 'omp' and 'parallel' in n['dir']:
                rep.count('omp_regions')
                w = T.node_escaping(n['body'], f)
                if w:
                    rep.bad('%s:omp' % f.d.q, '%s:%s' % (f.file, n['l']), 'an exception can leave the body of a parallel region (terminates the process): %s' % T.show(w))
                else:
                    rep.ok()
