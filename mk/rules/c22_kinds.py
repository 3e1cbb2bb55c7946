"""Numbers of nodes, edges and faces are never mixed up."""
M = 'meshkernel::Mesh::'
SEEDS = {
    M + 'm_nodes': ('vec', 'node', None), M + 'm_edges': ('vec', 'edge', ('tup', 'node', 'node')),
    M + 'm_nodesEdges': ('vec', 'node', ('vec', 'place around a node', 'edge')), M + 'm_nodesNumEdges': ('vec', 'node', 'place around a node'),
    M + 'm_nodesNodes': ('vec', 'node', ('vec', 'place around a node', 'node')), M + 'm_nodesTypes': ('vec', 'node', None),
    M + 'm_edgesFaces': ('vec', 'edge', ('vec', 'side of an edge', 'face')), M + 'm_edgesNumFaces': ('vec', 'edge', None),
    M + 'm_edgeLengths': ('vec', 'edge', None), M + 'm_edgesCenters': ('vec', 'edge', None),
    M + 'm_facesNodes': ('vec', 'face', ('vec', 'place in a face', 'node')), M + 'm_numFacesNodes': ('vec', 'face', 'place in a face'),
    M + 'm_facesEdges': ('vec', 'face', ('vec', 'place in a face', 'edge')),
    M + 'm_facesCircumcenters': ('vec', 'face', None), M + 'm_facesMassCenters': ('vec', 'face', None), M + 'm_faceArea': ('vec', 'face', None),
    'meshkernel::LandBoundary::m_nodes': ('vec', 'point of a land boundary', None),
    'meshkernel::LandBoundaries::m_validLandBoundaries': ('vec', 'part of a land boundary', None),
    'meshkernel::Polygons::m_enclosures': ('vec', 'polygon', None),
    'meshkernel::Contacts::m_mesh1dIndices': ('vec', 'contact', 'node'), 'meshkernel::Contacts::m_mesh2dIndices': ('vec', 'contact', 'face'),
    'meshkernel::Network1D::m_polyLines': ('vec', 'polyline', None), 'meshkernel::Network1D::m_chainages': ('vec', 'polyline', None),
    'meshkernel::Smoother::m_topologyXi': ('vec', 'topology', None), 'meshkernel::Smoother::m_topologyEta': ('vec', 'topology', None),
}

from ..facts import walk
from ..kinds import Kinds, find

MIN = {'indexed': 1500, 'kinded': 600, 'strict': 20}
COUNTS = ('meshkernel::Mesh::GetNumNodes', 'meshkernel::Mesh::GetNumEdges', 'meshkernel::Mesh::GetNumFaces')


class Run(Kinds):
    """counts the index expressions whose table has a known kind"""
    kinded = 0

    def index(self, b, i, e):
        r = super().index(b, i, e)
        b = find(b)
        if b.con == 'vec' and find(b.args[0]).kind:
            self.kinded += 1
        return r


def strip(e):
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e['e']
    return e


def count_of(e):
    """what is counted by an expression: the field whose size it is, or the counting function"""
    e = strip(e)
    if e.get('k') == 'call' and e.get('f') is not None:
        f = e['f']
        if f.q in COUNTS:
            return {'GetNumNodes': 'node', 'GetNumEdges': 'edge', 'GetNumFaces': 'face'}[f.n]
        if f.n == 'size' and isinstance(e.get('o'), dict) and strip(e['o']).get('k') == 'mem':
            s = SEEDS.get(strip(e['o']).get('f'))
            return s[1] if s else None
    return None


def bounds(P, rep):
    """loops over all nodes (edges, faces ...) stop before the count"""
    for f in P.funcs:
        for n in walk(f.body) if f.body else ():
            if n.get('k') not in ('for', 'while'):
                continue
            c = n.get('c')
            c = strip(c) if isinstance(c, dict) else None
            if not c or c.get('k') != 'bin' or c['op'] not in ('<', '<=', '>', '>=', '!='):
                continue
            x, y, op = strip(c['x']), strip(c['y']), c['op']
            if op in ('>', '>='):
                x, y, op = y, x, {'>': '<', '>=': '<='}[op]
            k = count_of(y)
            if k is None or x.get('k') != 'ref':
                continue
            rep.count('strict')
            if op != '<=':
                continue
            for m in walk(n.get('body')):
                t, i = None, None
                if m.get('k') == 'call' and m.get('f') is not None and m['f'].op == '[]' and m.get('a'):
                    t, i = strip(m.get('o')) if isinstance(m.get('o'), dict) else None, strip(m['a'][0])
                if t and t.get('k') == 'mem' and i.get('k') == 'ref' and i['d'] == x['d'] and t.get('f') in SEEDS and SEEDS[t['f']][1] == k:
                    rep.bad('%s:%s bound' % (f.d.q, k), '%s:%s' % (f.file, n.get('l')),
                            '%s goes up to and including the number of %ss and uses it as an index of %s' % (f.d.q, k, t['f'].split('::')[-1]))
                    break


def check(P, rep, tier):
    K = Run(P, SEEDS, {})
    K.run()
    seen = set()
    for f, line, a, b, what in K.conflicts:
        key = '%s:%s' % (f.d.q, '/'.join(sorted((a, b))))
        if key not in seen:
            seen.add(key)
            rep.bad(key, '%s:%s' % (f.file, line), '%s uses the number of a %s where the number of a %s is meant (%s)' % (f.d.q, a, b, what or 'value'))
    rep.count('indexed', K.indexed)
    rep.count('kinded', K.kinded)
    rep.count('functions', len(P.funcs))
    rep.count('agreements', K.links)
    bounds(P, rep)
    bad = {f for f, *_ in K.conflicts}
    for f in P.funcs:
        if f not in bad:
            rep.ok('%s: consistent' % f.d.q)
