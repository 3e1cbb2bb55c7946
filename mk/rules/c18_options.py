"""Option numbers: a number that stands for nothing is refused, each published number is accepted."""
from ..api import api_functions
from ..reject import outcomes

MIN = {'parameters': 5, 'bad_numbers': 20}
OPTIONS = {
    'mkernel_allocate_state': {'projectionType': (0, [0, 1, 2])},
    'mkernel_mesh2d_convert_projection': {'projectionType': (1, [0, 1, 2])},
    'mkernel_mesh2d_delete': {'deletionOption': (2, [0, 1, 2])},
    'mkernel_mesh2d_compute_orthogonalization': {'projectToLandBoundaryOption': (1, [0, 1, 2, 3, 4])},
    'mkernel_mesh2d_initialize_orthogonalization': {'projectToLandBoundaryOption': (1, [0, 1, 2, 3, 4])},
    'mkernel_mesh2d_get_location_index': {'locationType': (3, [0, 1, 2])},
    'mkernel_curvilinear_get_location_index': {'locationType': (3, [0, 1, 2])},
    'mkernel_mesh2d_get_property': {'propertyValue': (1, [0, 1])},
    'mkernel_mesh2d_get_property_dimension': {'propertyValue': (1, [0, 1])},
    'mkernel_mesh2d_get_filtered_face_polygons_dimension': {'propertyValue': (1, [0])},
    'mkernel_mesh2d_get_filtered_face_polygons': {'propertyValue': (1, [0])},
    'mkernel_mesh2d_averaging_interpolation': {'locationType': (2, [0, 1, 2]), 'averagingMethodType': (3, [1, 2, 3, 4, 5, 6])},
    'mkernel_mesh2d_triangulation_interpolation': {'locationType': (2, [0, 1, 2])},
    'mkernel_curvilinear_compute_smoothness': {'direction': (1, [0, 1])},
    'mkernel_curvilinear_compute_curvature': {'direction': (1, [0, 1])},
}


def check(P, rep, tier):
    jobs = []
    for f in api_functions(P):
        for name, (pos, valid) in OPTIONS.get(f.d.n, {}).items():
            i = next((k for k, p in enumerate(f.params) if p['n'] == name), pos)
            t = f.d.p[i] if i < len(f.d.p) else None
            if t is None or t.rec or t.ptr:
                continue
            rep.count('parameters')
            bad = {-9999, 9999, min(valid) - 1, max(valid) + 1} | {v for v in range(min(valid), max(valid)) if v not in valid}
            for v in sorted(bad):
                jobs.append((f, i, '', v, 300000, True))
            for v in valid:
                jobs.append((f, i, '', v, 60000, False))
    for j, r in zip(jobs, outcomes(P, jobs)):
        f, i, _, v, _, bad = j
        what = '%s = %s' % (f.params[i]['n'], v)
        rep.count('bad_numbers' if bad else 'good_numbers')
        if bad and r == 'accepted':
            rep.bad('%s:%s:bad' % (f.d.n, f.params[i]['n']), f.where, '%s can succeed with %s, which stands for no option' % (f.d.n, what))
        elif not bad and r == 'refused':
            rep.bad('%s:%s:good' % (f.d.n, f.params[i]['n']), f.where, '%s refuses %s, a documented option' % (f.d.n, what))
        elif r == 'unknown' or bad and r == 'maybe' or r.startswith('error'):
            rep.count('internal_errors' if r.startswith('error') else 'undecided')
        else:
            rep.ok('%s: %s %s' % (f.d.n, what, r))
