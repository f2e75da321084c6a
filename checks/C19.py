import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cbmc
def go(c):
    T = common.TIER == "thorough"
    cam = 4 if T else 3
    sizes = [(nb, np) for nb in range(5 if T else 4) for np in range(4 if T else 3) if nb + np <= (7 if T else 5)]
    C = cbmc.CBMC(c, ["mrcal.c"], "icam.c", unwind=9, timeout=500)
    C.many([dict(fn="icam", name="cameras=%d extrinsics=%d boards=%d points=%d" % (i, e, nb, np), defs=("NCI=%d" % i, "NCE=%d" % e, "NBOARD=%d" % nb, "NPOINT=%d" % np))
            for i in range(1, cam + 1) for e in range(cam + 2) for nb, np in sizes
            if e in (i, i - 1) or (nb, np) == (1, 1)], workers=4)
    c.functions |= {"mrcal_corresponding_icam_extrinsics", "_corresponding_icam_extrinsics__check"}
    c.bounds = dict(cameras="1..%d" % cam, extrinsics="0..%d" % (cam + 1), board_observations="0..%d" % max(s[0] for s in sizes), point_observations="0..%d" % max(s[1] for s in sizes), indices="every valid camera and extrinsics index; -3..-1 as the reference")
    c.extra["explanation"] = "CBMC bounded model checking of mrcal.c against harness/icam.c: the specification is stated over pairs of observations; the memory accesses are checked too"
common.main(go, "C19")
