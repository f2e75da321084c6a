import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cbmc, lenses
def go(c):
    T = common.TIER == "thorough"
    cm = 4 if T else 2; nt = 5 if T else 4; no = 3 if T else 2
    C = cbmc.CBMC(c, ["mrcal.c"], "layout.c", extra_defs=("CMAX=%d" % cm, "SPLINE_N=8", "NTRI=%d" % nt, "NOBS=%d" % no), unwind=max(nt, no) + 3, timeout=400)
    J = lenses.jobs("measurement_layout", splined=((5, 4), (11, 8)))
    C2 = cbmc.CBMC(c, ["mrcal.c"], "layout.c", extra_defs=("CMAX=%d" % cm, "SPLINE_N=8", "NTRI=%d" % nt, "NOBS=%d" % no), unwind=max(nt, no) + 3, timeout=400)
    K = lenses.jobs("nnz_prediction", splined=((5, 4), (11, 8)))
    if not T: # the parametric models differ only by a number. Sample the ones with different structure
        K = [k for k in K if any(s in k["name"] for s in ("OPENCV5", "CAHVORE", "SPLINED_STEREOGRAPHIC_5"))]
        J = [k for k in J if any(s in k["name"] for s in ("PINHOLE", "OPENCV8", "CAHVORE", "SPLINED_STEREOGRAPHIC_5"))]
    nd = 8 if T else 6
    C3 = cbmc.CBMC(c, ["mrcal.c"], "layout.c", extra_defs=("CMAX=2", "SPLINE_N=8", "SQRT_TABLE", "NTRI=%d" % nd), unwind=nd + 3, unwindset=("sqrt.0:401",), timeout=400)
    D = [dict(fn="decode_triangulated")]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(C.many, J, 2), ex.submit(C2.many, K, 2), ex.submit(C3.many, D, 2)]
        for f in fs: f.result()
    c.functions |= {"mrcal_measurement_index_*", "mrcal_num_measurements*", "_mrcal_num_j_nonzero", "mrcal_decode_observation_indices_points_triangulated"}
    c.bounds = dict(counts="0..%d" % cm, triangulated_observations="0..%d, every partition into sets of >=2" % nt, observations="0..%d boards, points; every camera/point index" % no,
                    decode="every partition of up to %d observations; every measurement index" % nd)
    c.extra["explanation"] = "CBMC bounded model checking of mrcal.c; harness/layout.c states the measurement layout and the row-by-row count of Jacobian entries"
common.main(go, "C08")
