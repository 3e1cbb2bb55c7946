"""Parameter structs: a value outside its permitted range is refused, one inside is not."""
import math
from ..api import api_functions
from ..reject import outcomes

MIN = {'functions': 4, 'bad_values': 40}
POS = ([-1, 0], [1])
FLAG = ([-1, 2], [0, 1])
NAN = math.nan
UNIT = ([-0.001, 1.001, NAN], [0.0, 1.0])
POSD = ([-1.0, 0.0, NAN], [1e-3])
NONNEG = ([-0.001, NAN], [0.0])
INF = math.inf
RANGES = {
    'OrthogonalizationParameters': {
        'outer_iterations': POS, 'boundary_iterations': POS, 'inner_iterations': POS,
        'orthogonalization_to_smoothing_factor': UNIT, 'orthogonalization_to_smoothing_factor_at_boundary': UNIT, 'areal_to_angle_smoothing_factor': UNIT},
    'MeshRefinementParameters': {
        'max_num_refinement_iterations': POS, 'refine_intersected': FLAG, 'use_mass_center_when_refining': FLAG, 'min_edge_size': POSD, 'refinement_type': ([0, 4], []),
        'connect_hanging_nodes': FLAG, 'account_for_samples_outside': FLAG, 'smoothing_iterations': ([-1], [0]), 'max_courant_time': POSD, 'directional_refinement': FLAG},
    'CurvilinearParameters': {
        'm_refinement': POS, 'n_refinement': POS, 'smoothing_iterations': POS, 'smoothing_parameter': UNIT, 'attraction_parameter': NONNEG},
    'SplinesToCurvilinearParameters': {
        'aspect_ratio': POSD, 'aspect_ratio_grow_factor': POSD, 'average_width': POSD, 'curvature_adapted_grid_spacing': FLAG, 'grow_grid_outside': FLAG,
        'maximum_num_faces_in_uniform_part': POS, 'nodes_on_top_of_each_other_tolerance': POSD, 'min_cosine_crossing_angles': POSD, 'check_front_collisions': FLAG,
        'remove_skinny_triangles': FLAG},
    'MakeGridParameters': {
        'num_columns': POS, 'num_rows': POS, 'angle': ([-90.5, 90.5, NAN], [-90.0, 90.0]), 'block_size_x': ([-1.0, 0.0, NAN, INF], [1.0]), 'block_size_y': ([-1.0, 0.0, NAN, INF], [1.0]),
        'radius_curvature': ([-0.001, NAN, INF], [0.0]), 'uniform_columns_fraction': ([-0.001, NAN, INF], [0.0]), 'uniform_rows_fraction': ([-0.001, NAN, INF], [0.0]),
        'maximum_uniform_size_columns': ([-0.001, NAN, INF], [0.0]), 'maximum_uniform_size_rows': ([-0.001, NAN, INF], [0.0])},
}
# the calls that promise to check their parameters, and what they additionally demand
CALLS = {
    'mkernel_mesh2d_compute_orthogonalization': ('OrthogonalizationParameters',),
    'mkernel_mesh2d_initialize_orthogonalization': ('OrthogonalizationParameters',),
    'mkernel_curvilinear_initialize_orthogonalize': ('OrthogonalizationParameters',),
    'mkernel_mesh2d_refine_based_on_samples': ('MeshRefinementParameters',),
    'mkernel_mesh2d_refine_ridges_based_on_gridded_samples': ('MeshRefinementParameters',),
    'mkernel_mesh2d_refine_based_on_gridded_samples': ('MeshRefinementParameters',),
    'mkernel_mesh2d_refine_based_on_polygon': ('MeshRefinementParameters',),
    'mkernel_curvilinear_compute_transfinite_from_splines': ('CurvilinearParameters',),
    'mkernel_curvilinear_compute_orthogonal_grid_from_splines': ('CurvilinearParameters', 'SplinesToCurvilinearParameters'),
    'mkernel_curvilinear_initialize_orthogonal_grid_from_splines': ('CurvilinearParameters', 'SplinesToCurvilinearParameters'),
    'mkernel_curvilinear_compute_circular_grid': ('MakeGridParameters',),
}


def check(P, rep, tier):
    jobs = []
    for f in api_functions(P):
        want = CALLS.get(f.d.n)
        if not want:
            continue
        rep.count('functions')
        for i, t in enumerate(f.d.p):
            u = t.to if t.ref and t.to is not None else t
            s = (u.rec or '').split('::')[-1]
            if s not in want or u.rec not in P.recs_by_q:
                continue
            have = {x['n']: u.rec + '::' + x['n'] for x in P.recs_by_q[u.rec].fields}
            for fld, (bad, good) in RANGES[s].items():
                if fld not in have:
                    continue
                for v in bad:
                    jobs.append((f, i, have[fld], v, 300000, True))
                for v in good:
                    jobs.append((f, i, have[fld], v, 60000, False))
    for j, r in zip(jobs, outcomes(P, jobs)):
        f, i, fld, v, _, bad = j
        what = '%s.%s = %s' % (f.params[i]['n'], fld.split('::')[-1], v)
        rep.count('bad_values' if bad else 'good_values')
        if bad and r == 'accepted':
            rep.bad('%s:%s:bad' % (f.d.n, fld.split('::')[-1]), f.where, '%s can succeed with %s, which is outside the permitted range' % (f.d.n, what))
        elif not bad and r == 'refused':
            rep.bad('%s:%s:good' % (f.d.n, fld.split('::')[-1]), f.where, '%s refuses %s, which is inside the permitted range' % (f.d.n, what))
        elif r == 'unknown' or bad and r == 'maybe' or r.startswith('error'):
            rep.count('internal_errors' if r.startswith('error') else 'undecided')
        else:
            rep.ok('%s: %s %s' % (f.d.n, what, r))
