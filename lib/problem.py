"""Shared pieces for the checks of the optimization problem: selections, lens models, layout"""
import common, sym
from lenses import lens_enum, cconst, LENSES
SEL = ["core", "distortions", "extrinsics", "frames", "warp", "regularization", "outliers", "unity"]
_FIELDS = ["do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions", "do_optimize_extrinsics", "do_optimize_frames", "do_optimize_calobject_warp",
           "do_apply_regularization", "do_apply_outlier_rejection", "do_apply_regularization_unity_cam01"]
_bits = {}
def selections(**k):
    """the byte that is passed as a mrcal_problem_selections_t"""
    if not _bits:
        ex = ["((union{mrcal_problem_selections_t s; unsigned char b;}){.s={.%s=1}}).b" % f for f in _FIELDS]
        v = cconst(ex + ["sizeof(mrcal_problem_selections_t)"])
        assert v["sizeof(mrcal_problem_selections_t)"] == 1
        for n, e in zip(SEL, ex): _bits[n] = v[e]
    return sum(_bits[n] for n, on in k.items() if on)
ND = dict(PINHOLE=0, STEREOGRAPHIC=0, LONLAT=0, LATLON=0, OPENCV4=4, OPENCV5=5, OPENCV8=8, OPENCV12=12, CAHVOR=5, CAHVORE=8)
class Lens:
    """a lens model: name, number of parameters"""
    def __init__(s, name, order=0, nx=0, ny=0, fov=0):
        s.name, s.order, s.nx, s.ny, s.fov = name, order, nx, ny, fov
        s.nd = 2*nx*ny if nx else ND[name]; s.n = 4 + s.nd
        s.tag = name if not nx else "%s order=%d %dx%d" % (name, order, nx, ny)
_off = {}
def offsets():
    if not _off:
        c = "offsetof(mrcal_lensmodel_t,%s)"; S = "LENSMODEL_SPLINED_STEREOGRAPHIC__config."
        f = ["type"] + [S + x for x in ("order", "Nx", "Ny", "fov_x_deg")] + ["LENSMODEL_CAHVORE__config.linearity"]
        v = cconst([c % x for x in f] + ["sizeof(mrcal_lensmodel_t)"])
        for x in f: _off[x.split(".")[-1]] = v[c % x]
        _off["size"] = v["sizeof(mrcal_lensmodel_t)"]
    return _off
def lensmem(run, L, linearity=sym.ZERO, name="lensmodel"):
    o = offsets(); fl = {o["type"]: ("i", lens_enum()[L.name])}
    if L.nx: fl.update({o["order"]: ("h", L.order), o["Nx"]: ("h", L.nx), o["Ny"]: ("h", L.ny), o["fov_x_deg"]: ("h", L.fov)})
    if L.name == "CAHVORE": fl[o["linearity"]] = ("d", linearity)
    return run.mem(name, o["size"], fl)
def prepare():
    """before the jobs fork"""
    selections(); lens_enum(); offsets()
def layout(L, sel, Nci, Nce, Nf, Np, Npf, Nob):
    """[(kind, block, item, element)] of the state vector"""
    out = []
    for i in range(Nci):
        if sel.get("core"): out += [("focal", "intrinsics", i, 0), ("focal", "intrinsics", i, 1), ("center", "intrinsics", i, 2), ("center", "intrinsics", i, 3)]
        if sel.get("distortions"): out += [("distortion", "intrinsics", i, 4 + k) for k in range(L.nd)]
    if sel.get("extrinsics"):
        for i in range(Nce): out += [("camera rotation" if k < 3 else "camera translation", "extrinsics", i, k) for k in range(6)]
    if sel.get("frames"):
        for i in range(Nf): out += [("frame rotation" if k < 3 else "frame translation", "frames", i, k) for k in range(6)]
        for i in range(Np - Npf): out += [("point", "points", i, k) for k in range(3)]
    if sel.get("warp") and Nob > 0: out += [("warp", "warp", 0, 0), ("warp", "warp", 0, 1)]
    return out
