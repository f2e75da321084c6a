import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cbmc, lenses
def go(c):
    T = common.TIER == "thorough"
    cm = 60 if T else 15
    C = cbmc.CBMC(c, ["mrcal.c"], "layout.c", extra_defs=("CMAX=%d" % cm, "SPLINE_N=8"), unwind=5, timeout=400)
    C.many(lenses.jobs("state_layout"))
    # splined grid sizes symbolic too, with smaller counts
    C2 = cbmc.CBMC(c, ["mrcal.c"], "layout.c", extra_defs=("CMAX=%d" % (4 if T else 2), "SPLINE_N=%d" % (8 if T else 5)), unwind=5, timeout=500 if T else 200)
    C2.one("state_layout", name="state_layout/SPLINED symbolic grid", defs=("LENSTYPE=MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC",))
    c.functions |= {"mrcal_num_states*", "mrcal_state_index_*", "mrcal_num_intrinsics_optimization_params", "mrcal_lensmodel_num_params"}
    c.bounds = dict(counts="0..%d of each of cameras, extrinsics, frames, points, fixed points, board observations" % cm,
                    item_index="every 32-bit int", lens_models="all; splined with 4 concrete grids and a small symbolic one")
    c.extra["explanation"] = "CBMC bounded model checking of mrcal.c; harness/layout.c states the layout and asserts it for all inputs in the bounds"
common.main(go, "C07")
