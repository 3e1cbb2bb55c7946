"""Numbers of nodes and edges given by the caller: a negative one, the first one past the end and any larger one are refused."""
from ..api import api_functions
from ..reject import BIG, outcomes

MIN = {'parameters': 6, 'bad_numbers': 18}
NODES = ('m_nodes', 'GetNumNodes')
EDGES = ('m_edges', 'GetNumEdges')
POINTS = ('*', 'Size', 'num_coordinates')       # polygons and splines: the number of points
PARAMS = {
    'mkernel_curvilinear_compute_transfinite_from_polygon': (POINTS, {'firstNode': 2, 'secondNode': 3, 'thirdNode': 4}),
    'mkernel_curvilinear_compute_transfinite_from_triangle': (POINTS, {'firstNode': 2, 'secondNode': 3, 'thirdNode': 4}),
    'mkernel_mesh2d_split_row': (NODES, {'firstNode': 1, 'secondNode': 2}),
    'mkernel_polygon_count_linear_refine': (POINTS, {'firstNodeIndex': 2, 'secondNodeIndex': 3}),
    'mkernel_polygon_linear_refine': (POINTS, {'firstNodeIndex': 2, 'secondNodeIndex': 3}),
    'mkernel_polygon_snap_to_landboundary': (POINTS, {'endIndex': 4}),
    'mkernel_splines_snap_to_landboundary': (POINTS, {'startSplineIndex': 3, 'endSplineIndex': 4}),
    'mkernel_mesh2d_delete_edge_by_index': (EDGES, {'edgeIndex': 1}),
    'mkernel_mesh2d_delete_node': (NODES, {'nodeIndex': 1}),
    'mkernel_mesh2d_move_node': (NODES, {'nodeIndex': 3}),
    'mkernel_mesh2d_merge_two_nodes': (NODES, {'firstNode': 1, 'secondNode': 2}),
    'mkernel_mesh2d_insert_edge': (NODES, {'startNode': 1, 'endNode': 2}),
}


def check(P, rep, tier):
    jobs = []
    for f in api_functions(P):
        counts, params = PARAMS.get(f.d.n, (None, {}))
        for name, pos in params.items():
            i = next((k for k, p in enumerate(f.params) if p['n'] == name), pos)
            if i >= len(f.d.p) or f.d.p[i].rec or f.d.p[i].ptr:
                continue
            rep.count('parameters')
            for v, c in ((BIG, None), (-1, None), (BIG, counts)):
                jobs.append((f, i, '', v, 300000, True, c))
    for j, r in zip(jobs, outcomes(P, jobs)):
        f, i, v, c = j[0], j[1], j[3], j[6]
        n = f.params[i]['n']
        what = '%s = %s' % (n, -1 if v < 0 else 'a number far past the end' if c is None else 'the first number past the end')
        rep.count('bad_numbers')
        if r == 'accepted':
            rep.bad('%s:%s' % (f.d.n, n), f.where, '%s can succeed with %s' % (f.d.n, what))
        elif r == 'refused':
            rep.ok('%s refuses %s' % (f.d.n, what))
        else:
            rep.count('internal_errors' if r.startswith('error') else 'undecided')
