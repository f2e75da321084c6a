import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, symexec, callback, geom
from decide import Job
from spline import *
def go(c):
    callback.prepare()
    M = symexec.libmods()
    T = common.TIER == "thorough"
    jobs = []
    grids = GRIDS + ([Sp(3, 8, 6, 120), Sp(2, 7, 8, 179)] if T else [])
    for L in grids:
        jobs.append(Job("project " + L.tag, M, h_project(L, 1), gen(L), pre=PRE, nsamples=12, deadline=300, stubs=STUBS, splitint=True, roots=ROOTS[:1]))
    for L in (grids[0], grids[3]):
        jobs.append(Job("constant surface " + L.tag, M, h_project(L, 1, True), gen(L), pre=PRE, nsamples=12, deadline=300, stubs=STUBS, splitint=True, roots=ROOTS[:1]))
        jobs.append(Job("two points " + L.tag, M, h_project(L, 2), gen(L), pre=PRE, nsamples=12, deadline=300, stubs=STUBS, splitint=True, roots=ROOTS))
    for n in (2, 3): jobs.append(Job("smooth order %d" % n, M, h_smooth(n), lambda rng, n: dict(gridx=rng.uniform(0, 5)), nsamples=2))
    jobs += callback_jobs(M, GRIDS[1::3] + (GRIDS[2::3] if T else []))
    decide.run_jobs(c, jobs)
    c.functions |= {"mrcal_project", "mrcal_optimizer_callback", "project", "_project_point_splined", "sample_bspline_surface_cubic", "sample_bspline_surface_quadratic", "get_sample_coeffs__*", "interp__*", "_mrcal_precompute_lensmodel_data"}
    c.bounds = dict(grids=", ".join(L.tag for L in grids), points="every point not on the optical axis behind the camera, with a stereographic projection below %d in magnitude; inside of the grid and beyond" % UMAX,
                    values="every control point, focal length and center", batches="1 or 2 points")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME + [geom.ASSUME, "tan() of the field of view is the number which the C library gives"]
common.main(go, "C03", "other")
