import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, itertools, problem, callback, geom, proj, spline
from decide import eq, true, Job, gt, lt, ceq
from problem import Lens, SEL
from callback import Problem, rows, scales
from rot import *
def expected(P, forder=False):
    """-> measurements, the points in the camera frame which they depend on. the measurements of the observations: expressions of the unpacked state"""
    L = P.L; out = []; pts = []
    def pix(c, p):
        pts.extend([p, p])
        k = P.intr[c]; u = proj.core(L.name, p, k[4:], forder=forder)
        return [k[0]*u[0] + k[2], k[1]*u[1] + k[3]]
    def meas(q, wk, e):
        w, kind = wk
        if kind == "out" or (kind == 0 and False): return [ZERO, ZERO]
        return [(a - b)*q[2] for a, b in zip(e, q)]
    iw = iter(P.weights); n = 0
    for o, (ci, ce, f) in enumerate(P.board):
        rt = P.frame[f]
        if ce >= 0:
            # the composed transform
            a = P.ext[ce]; r = geom.C(*a[:3], *rt[:3]); t = vadd(mv(geom.R(*a[:3]), rt[3:]), a[3:])
        else: r, t = rt[:3], rt[3:]
        M = geom.R(*r)
        for y in range(P.H):
            for x in range(P.W):
                z = ZERO
                if P.warp:
                    xr, yr = sym.const(sym.Fraction(x, P.W - 1)), sym.const(sym.Fraction(y, P.H - 1))
                    z = P.wp[0]*4*xr*(1 - xr) + P.wp[1]*4*yr*(1 - yr)
                p = vadd(mv(M, [P.spacing*x, P.spacing*y, z]), t)
                out += meas(P.bobs[n], next(iw), pix(ci, p)); n += 1
    for o, (ci, ce, i) in enumerate(P.point):
        p = P.pt[i]
        if ce >= 0: p = vadd(mv(geom.R(*P.ext[ce][:3]), p), P.ext[ce][3:])
        out += meas(P.pobs[o], next(iw), pix(ci, p))
    for i, st in enumerate(P.tri):
        for j in range(len(st)):
            for k in range(j + 1, len(st)):
                pts.append(())
                if st[j][2] or st[k][2]: out.append(ZERO); continue
                a, b = st[j][1], st[k][1]
                v0, t = P.tv[i][j], [ZERO]*3
                if a >= 0:
                    m = geom.R(*P.ext[a][:3]); v0 = mtv(m, v0); t = vneg(mtv(m, P.ext[a][3:]))
                if b >= 0:
                    m = geom.R(*P.ext[b][:3]); v0 = mv(m, v0); t = vadd(mv(m, t), P.ext[b][3:])
                out.append(geom.E(*P.tv[i][k], *v0, *t)[0])
    return out, pts
def hints(P):
    """the points in the camera frames and their derivatives: the code's expressions for them are replaced by these, once shown to be equal"""
    ex, pts = expected(P); out = {}
    for p in pts:
        for x in p:
            for n in [x] + [sym.diff(x, v) for a in P.ext + P.frame for v in a]:
                if n.op not in "cv": out[n.id] = n
    return list(out.values())
def nregularization(P, sel):
    n = 0
    if sel.get("regularization"): n += P.Nci*(P.L.nd*bool(sel.get("distortions")) + 2*bool(sel.get("core")))
    return n + bool(sel.get("unity") and sel.get("extrinsics") and P.Nce)
def h(P, sels, nojac=False):
  ex, pts = expected(P); ex1, _ = expected(P, True)
  der, dp = {}, {}
  def cuts(k, v=None):
      if P.L.name == "PINHOLE" or not pts[k]: return None
      return [n for n in pts[k] + ([sym.diff(x, v) for x in pts[k]] if v is not None else []) if n.op not in "cv"]
  def hh(run):
    out = []
    for sel in sels:
        tag = "".join(s[0] for s in SEL if sel.get(s)) + " "
        r, b, x, J, (Ns, Nm, Nj) = P.call(run, sel)
        out.append(true(tag + "succeeds", r))
        if not r: continue
        if Nm != len(ex) + nregularization(P, sel): out.append(true(tag + "number of measurements", False)); continue
        if any(v is None for v in b) or any(v is None for v in x): out.append(true(tag + "every element is written", False)); continue
        sv = P.statevars(sel)
        for k, (e, g) in enumerate(zip(ex, x)): out.append(eq(tag + "x[%d]" % k, g, e, scale=100., cuts=cuts(k)))
        o, rw = rows(J, Ns, Nm, Nj, tag); out += o
        if rw is None: continue
        sc, ob = scales(run, P, sel, b, sv, tag); out += ob
        for k, e in enumerate(ex):
            for c, v in enumerate(sv):
                if (k, v.v) not in der: der[k, v.v] = sym.diff(e if v.v[0] == "i" else ex1[k], v)
                d = der[k, v.v]*sc[c]
                g = rw[k].get(c)
                if g is None:
                    if d is not ZERO: out.append(eq(tag + "J[%d,%d], which is not stored" % (k, c), ZERO, d, scale=100.))
                else: out.append(eq(tag + "J[%d,%d]" % (k, c), g, d, scale=100., cuts=cuts(k, v)))
        if nojac or sel is sels[0]:
            r, b2, x2, J2, _ = P.call(run, sel, jac=False)
            for k in range(len(ex)): out.append(eq(tag + "without the Jacobian x[%d]" % k, x2[k], ex[k], scale=100., cuts=cuts(k)))
    return out
  return hh
def go(c):
    callback.prepare()
    M = symexec.libmods()
    T = common.TIER == "thorough"
    allsel = [dict(zip(SEL[:5], x)) for x in itertools.product((0, 1), repeat=5) if any(x)]
    sub = [dict(zip(SEL[:5], map(int, x))) for x in "11111 01000 10010 00101 01100 10110 00011 11010".split()]
    few = lambda n: allsel if T else sub[:n]
    jobs = []
    def add(name, P, sels, n=4, **k):
        m = max(1, len(sels)//n)
        for i in range(0, len(sels), m):
            jobs.append(Job("%s %d" % (name, i//m), M, h(P, sels[i:i + m]), lambda rng, n: P.gen(rng), pre=P.pre(), nsamples=3, deadline=300, rtol=1e-6, stubs=geom.STUBS, reals=2, hints=hints(P) if P.L.name != "PINHOLE" else None))
    P1 = Problem(Lens("PINHOLE"), 2, 1, 2, 3, 1, board=[(0, -1, 0), (1, 0, 1)], point=[(0, -1, 0), (1, 0, 2), (1, 0, 1)], W=2, H=3, w_board=[["in", "out", "in", "in", 0, "in"], ["out", "in", "in", "in", "in", "in"]], w_point=["in", "in", "out"])
    add("pinhole", P1, allsel, 8)
    for l in problem.LENSES:
        if l in ("PINHOLE", "CAHVORE"): continue
        L = Lens(l)
        if l == "CAHVOR":
            # the axis of the distortions along the optical axis. The general one is decided in C01
            P = Problem(L, 2, 1, 1, 0, 0, board=[(1, 0, 0), (0, -1, 0)], W=2, H=2, w_board=[["out", "in", 0, "in"], ["in", "out", "out", "out"]])
            g0 = P.gen
            P.gen = lambda rng, g0=g0: dict(g0(rng), **{"i%d_%d" % (i, k): 0 for i in range(2) for k in (4, 5)})
            p0 = P.pre
            P.pre = lambda p0=p0, P=P: p0() + [ceq(i[k], 0) for i in P.intr for k in (4, 5)]
            add(l, P, few(5), 31)
            continue
        P = Problem(L, 2, 1, 1, 1, 0, board=[(1, 0, 0), (0, -1, 0)], point=[(0, -1, 0), (1, 0, 0)], W=2, H=2, w_board=[["out", "in", 0, "in"], ["in", "out", "out", "in"]], w_point=["in", "in"])
        add(l, P, few(8), 4)
    # triangulated points. Only the extrinsics can be optimized, and the points and frames
    for k, tri in enumerate([[[(0, -1, 0), (1, 0, 0)], [(1, 0, 0), (0, -1, 0)]], [[(0, -1, 0), (1, 0, 0), (2, 1, 0)], [(2, 1, 0), (1, 0, 0)]],
                             [[(2, 1, 0), (0, -1, 1), (1, 0, 0)], [(0, -1, 0), (2, 1, 1)], [(1, 0, 1), (2, 1, 0), (0, -1, 0)], [(2, 1, 0), (1, 0, 0), (0, -1, 1)]]]):
        P = Problem(Lens("PINHOLE"), 3, 2, 1, 1, 0, board=[(0, -1, 0), (1, 1, 0)][:k], point=[(0, 0, 0)][:k], tri=tri)
        add("triangulated %d" % k, P, [s for s in allsel if s["extrinsics"] and not s["core"] and not s["distortions"]], 4)
    # splined models: each row names the control points around its pixel
    jobs += spline.callback_jobs(M, spline.GRIDS[1::3] + (spline.GRIDS[2::3] if T else []))
    decide.run_jobs(c, jobs)
    c.bounds = dict(problems="2 or 3 cameras, at the reference or not, 1 or 2 boards of 2x2 or 2x3 corners, up to 3 observed points, up to 4 sets of up to 3 triangulated observations; weights positive, negative and 0",
                    selections="pinhole: all 31; other models: %s; triangulated points: the 8 that are allowed" % ("all 31" if T else "8 of them (CAHVOR: 5)"),
                    lens_models="all but CAHVORE (its projection is decided in C01); splined models: 2 grids, 5 selections, discrete points in any place and a board in a fixed one; CAHVOR: with the geometry, only with the distortion axis along the optical axis",
                    values="every value of the intrinsics, poses, points, warp, board spacing and observations")
    c.functions |= {"mrcal_optimizer_callback", "optimizer_callback", "project", "_mrcal_num_j_nonzero", "mrcal_num_measurements", "mrcal_num_states", "mrcal_state_index_*", "mrcal_pack_solver_state_vector"}
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME + [geom.ASSUME]
common.main(go, "C10", "other")
