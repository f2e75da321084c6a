"""An optimization problem with symbolic contents, and a call of mrcal_optimizer_callback() on it"""
import sym, problem, common
from lenses import cconst
from problem import layout, lensmem, selections, SEL
from decide import eq, true
_off = {}
def offsets():
    if not _off:
        e = {}
        for s in ("p", "i", "x"): e["Jt_" + s] = "offsetof(struct cholmod_sparse_struct,%s)" % s
        e["Jt"] = "sizeof(struct cholmod_sparse_struct)"
        for t, fs in (("board", ("icam.intrinsics", "icam.extrinsics", "iframe")), ("point", ("icam.intrinsics", "icam.extrinsics", "i_point")), ("point_triangulated", ("icam.intrinsics", "icam.extrinsics", "px"))):
            for f in fs: e[t + "_" + f] = "offsetof(mrcal_observation_%s_t,%s)" % (t, f)
            e[t] = "sizeof(mrcal_observation_%s_t)" % t
        # the byte of the flags
        for f in ("last_in_set", "outlier"):
            u = "((union{mrcal_observation_point_triangulated_t t;unsigned char b[sizeof(mrcal_observation_point_triangulated_t)];}){.t={.%s=1}})" % f
            e[f] = u + ".b[offsetof(mrcal_observation_point_triangulated_t,icam)+sizeof(mrcal_camera_index_t)]"
        v = cconst(list(e.values()), ("cholmod.h", "mrcal.h"))
        for k, x in e.items(): _off[k] = v[x]
        _off["flags"] = cconst(["offsetof(mrcal_observation_point_triangulated_t,icam)+sizeof(mrcal_camera_index_t)"])["offsetof(mrcal_observation_point_triangulated_t,icam)+sizeof(mrcal_camera_index_t)"]
    return _off
def prepare(): problem.prepare(); offsets()
V = lambda p, *ix: sym.var(p + "_".join(map(str, ix)))
class Problem:
    """board, point: [(camera, extrinsics, frame or point)], tri: [[(camera, extrinsics, outlier)...]...]; w_board[obs][corner], w_point[obs]: "in", "out" or a number"""
    def __init__(s, L, Nci, Nce, Nf, Np=0, Npf=0, board=(), point=(), tri=(), W=2, H=2, w_board=None, w_point=None, imager=None, spacing=None, warp=True):
        s.__dict__.update(locals()); del s.__dict__["s"]
        s.imager = imager or [(640 + 10*i, 480 - 6*i) for i in range(max(Nci, 1))]
        s.intr = [[V("i", c, k) for k in range(L.n)] for c in range(Nci)]
        s.ext = [[V("e", c, k) for k in range(6)] for c in range(Nce)]
        s.frame = [[V("f", c, k) for k in range(6)] for c in range(Nf)]
        s.pt = [[V("P", c, k) for k in range(3)] for c in range(Np)]
        s.wp = [V("wp", k) for k in range(2)]
        s.spacing = sym.var("spacing")
        def obs(pre, o, c, w):
            t = (o,) if c is None else (o, c)
            wt = V(pre + "w", *t)
            return [V(pre + "x", *t), V(pre + "y", *t), wt if w in ("in", "out") else sym.lift(w)], (wt, w)
        s.weights = []
        s.bobs = []; s.pobs = []
        for o in range(len(board)):
            for c in range(W*H):
                q, w = obs("b", o, c, w_board[o][c] if w_board else "in"); s.bobs.append(q); s.weights.append(w)
        for o in range(len(point)):
            q, w = obs("p", o, None, w_point[o] if w_point else "in"); s.pobs.append(q); s.weights.append(w)
        s.tv = [[[V("t", i, j, k) for k in range(3)] for j in range(len(st))] for i, st in enumerate(tri)]
    def pre(s):
        from decide import gt, lt
        return [gt(w, 0) if k == "in" else lt(w, 0) for w, k in s.weights if k in ("in", "out")]
    def gen(s, rng):
        """plausible values: everything is in front of every camera"""
        e = {"spacing": rng.uniform(.1, .3)}
        for c in range(s.Nci):
            for k in range(s.L.n): e["i%d_%d" % (c, k)] = rng.uniform(-.05, .05)
            for k in range(4): e["i%d_%d" % (c, k)] = rng.uniform(300, 800)
            if s.L.nx:
                for k in range(4, s.L.n): e["i%d_%d" % (c, k)] = rng.uniform(-.1, .1)
        for c in range(s.Nce):
            for k in range(6): e["e%d_%d" % (c, k)] = rng.uniform(-.2, .2)
        for c in range(s.Nf):
            for k in range(6): e["f%d_%d" % (c, k)] = rng.uniform(-.3, .3)
            e["f%d_5" % c] = rng.uniform(3, 5)
        for c in range(s.Np):
            for k in range(3): e["P%d_%d" % (c, k)] = rng.uniform(-.5, .5)
            e["P%d_2" % c] = rng.uniform(3, 5)
        for k in range(2): e["wp%d" % k] = rng.uniform(-.02, .02)
        for q in s.bobs + s.pobs:
            for k in range(2): e[q[k].v] = rng.uniform(0, 900)
        for w, k in s.weights: e[w.v] = rng.uniform(.2, 3)*(-1 if k == "out" else 1)
        for i, st in enumerate(s.tv):
            p = [rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(3, 5)]
            for v, x in zip(st, s.tri[i]): e.update(s.ray(v, x, p, e, rng))
        return e
    def ray(s, v, x, p, e, rng):
        """an observation of the point p by the camera x, about"""
        import numpy as np
        if x[1] >= 0:
            r = np.array([e["e%d_%d" % (x[1], k)] for k in range(3)]); t = np.array([e["e%d_%d" % (x[1], 3 + k)] for k in range(3)])
            th = np.linalg.norm(r); a = r/th; K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
            p = (np.eye(3) + np.sin(th)*K + (1 - np.cos(th))*K@K) @ np.array(p) + t
        f = rng.uniform(.3, 2)
        return {q.v: float(y)*f + rng.uniform(-.01, .01) for q, y in zip(v, p)}
    def sel_eff(s, sel):
        """the selections which apply"""
        return sel
    def layout(s, sel): return layout(s.L, sel, s.Nci, s.Nce, s.Nf, s.Np, s.Npf, len(s.board))
    def statevars(s, sel):
        d = dict(intrinsics=s.intr, extrinsics=s.ext, frames=s.frame, points=s.pt, warp=[s.wp])
        return [d[b][i][k] for kind, b, i, k in s.layout(sel)]
    def flat(s, x): return [b for a in x for b in a]
    def call(s, run, sel, jac=True, slack=0, lin=sym.ZERO):
        """-> (succeeded, b, x, Jt) with b: packed state; x: measurements; Jt: (row pointers, columns, values)"""
        o = offsets(); L = s.L
        lm = lensmem(run, L, lin)
        intr = run.buf("intrinsics", s.flat(s.intr)) if s.Nci else None
        ext = run.buf("rt_cam_ref", s.flat(s.ext)) if s.Nce else None
        fr = run.buf("rt_ref_frame", s.flat(s.frame)) if s.Nf else None
        pt = run.buf("points", s.flat(s.pt)) if s.Np else None
        wp = run.buf("calobject_warp", s.wp) if s.warp else None
        def obs(kind, l, third):
            if not l: return None
            f = {}
            for i, (a, b, c) in enumerate(l):
                f.update({o[kind]*i + o[kind + "_icam.intrinsics"]: ("i", a & 0xffffffff), o[kind]*i + o[kind + "_icam.extrinsics"]: ("i", b & 0xffffffff), o[kind]*i + o[kind + "_" + third]: ("i", c)})
            return run.mem("observations_" + kind, o[kind]*len(l), f)
        ob, op = obs("board", s.board, "iframe"), obs("point", s.point, "i_point")
        tr, n = {}, 0
        for i, st in enumerate(s.tri):
            for j, (a, b, out) in enumerate(st):
                z = o["point_triangulated"]*n; n += 1
                tr.update({z + o["point_triangulated_icam.intrinsics"]: ("i", a & 0xffffffff), z + o["point_triangulated_icam.extrinsics"]: ("i", b & 0xffffffff)})
                tr[z + o["flags"]] = ("b", (o["last_in_set"] if j == len(st) - 1 else 0) | (o["outlier"] if out else 0))
                for k in range(3): tr[z + o["point_triangulated_px"] + 8*k] = ("d", s.tv[i][j][k])
        ot = run.mem("observations_point_triangulated", o["point_triangulated"]*n, tr) if n else None
        bp = run.buf("observations_board_pool", s.flat(s.bobs)) if s.bobs else None
        pp = run.buf("observations_point_pool", s.flat(s.pobs)) if s.pobs else None
        S = selections(**sel); counts = (s.Nci, s.Nce, s.Nf, s.Np, s.Npf)
        Nb, Npo = len(s.board), len(s.point)
        Ns = run.call("mrcal_num_states", *counts, Nb, S, lm, ret="int")
        Nm = run.call("mrcal_num_measurements", Nb, Npo, ot, n, s.W, s.H, *counts, S, lm, ret="int")
        Nj = run.call("_mrcal_num_j_nonzero", Nb, Npo, ot, n, s.W, s.H, *counts, ob, op, S, lm, ret="int")
        b, x = run.buf("b_packed", Ns), run.buf("x", Nm)
        Jp, Ji, Jx = run.buf("Jt.p", Nm + 1, "i"), run.buf("Jt.i", Nj, "i"), run.buf("Jt.x", Nj)
        Jt = run.mem("Jt", o["Jt"], {o["Jt_p"]: ("p", Jp), o["Jt_i"]: ("p", Ji), o["Jt_x"]: ("p", Jx)}) if jac else None
        im = run.buf("imagersizes", [v for q in s.imager[:max(s.Nci, 1)] for v in q], "i")
        r = run.call("mrcal_optimizer_callback", b, 8*Ns, x, 8*Nm, Jt, intr, ext, fr, pt, wp, *counts, ob, op, Nb, Npo, ot, n, bp, pp, lm, im, S, run.buf("constants", 8, "b"), s.spacing, s.W, s.H, False, ret="bool")
        return bool(r), b.ds(Ns), x.ds(Nm), (([Jp.i(k) for k in range(Nm + 1)], [Ji.i(k) for k in range(Nj)], Jx.ds(Nj)) if jac else None), (Ns, Nm, Nj)
def scales(run, P, sel, b, sv, tag=""):
    """dstate/db of each packed state variable, and the obligations on the packed state"""
    N = len(sv); o = run.buf("ones", [sym.ONE]*N)
    run.call("mrcal_unpack_solver_state_vector", o, P.Nci, P.Nce, P.Nf, P.Np, P.Npf, len(P.board), selections(**sel), lensmem(run, P.L, name="lensmodel2"))
    sc = [sym.lift(x) if run.symbolic else run.ev(sym.lift(x)) for x in o.ds(N)]
    return [sym.lift(x) for x in sc], [eq(tag + "b[%d]" % k, sym.lift(x)*sym.lift(s) if run.symbolic else run.ev(sym.lift(x)*sym.lift(s)), v, scale=1.) for k, (x, s, v) in enumerate(zip(b, sc, sv))]
def rows(J, Ns, Nm, Nj, tag):
    """-> obligations on the structure, [{column: value}]"""
    p, ix, v = J; out = []
    ok = p[0] == 0 and p[-1] == Nj and all(isinstance(a, int) and isinstance(b, int) and a <= b for a, b in zip(p, p[1:]))
    out.append(true(tag + "rows are in order, and have exactly the predicted number of entries", bool(ok)))
    if not ok: return out, None
    r = []
    good = True
    for a, b in zip(p, p[1:]):
        c = ix[a:b]
        good = good and all(isinstance(k, int) and 0 <= k < Ns for k in c) and len(set(c)) == len(c)
        r.append(dict(zip(c, v[a:b])))
    out.append(true(tag + "columns are in range, each is given once per row", bool(good)))
    return out, r if good else None
