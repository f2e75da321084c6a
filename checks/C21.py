import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, itertools, problem, callback, geom
from decide import eq, true, Job
from problem import Lens, SEL
from callback import Problem, rows, scales
from rot import *
Q = lambda a, b=1: sym.const(sym.Fraction(a)/b)
def expected(P, sel):
    """-> [(name, the regularization residual, the state variables it may depend on)]"""
    L = P.L; out = []
    if sel.get("regularization") and sel.get("distortions"):
        for c in range(P.Nci):
            k = P.intr[c][4:]
            if L.nx:
                s = Q(1, 100)
                for iy in range(L.ny):
                    for ix in range(L.nx):
                        i = 2*(iy*L.nx + ix); d = k[i:i + 2]; n = "camera %d knot %d,%d " % (c, ix, iy)
                        r = [2*ix - L.nx + 1, 2*iy - L.ny + 1]
                        if r == [0, 0]: u, w = [Q(1), Q(0)], 1
                        else: m = sym.sqrt(Q(r[0]**2 + r[1]**2)); u, w = [x/m for x in r], 10
                        out += [(n + "radial", s*(d[0]*u[0] + d[1]*u[1]), d), (n + "tangential", s*w*(d[0]*u[1] - d[1]*u[0]), d)]
            else:
                for j, x in enumerate(k):
                    w = 5 if L.name in ("OPENCV8", "OPENCV12") and 5 <= j <= 7 else 1
                    out.append(("camera %d distortion %d" % (c, j), Q(w, 10)*x, [x]))
    if sel.get("regularization") and sel.get("core"):
        for c in range(P.Nci):
            for j in range(2):
                x = P.intr[c][2 + j]
                out.append(("camera %d center %s" % (c, "xy"[j]), Q(1, P.imager[0][0])*(x - Q(P.imager[c][j] - 1, 2)), [x]))
    if sel.get("unity") and sel.get("extrinsics") and P.Nce:
        t = P.ext[0][3:]
        out.append(("unit separation", 10*(dot(t, t) - 1), t))
    return out
def h(P, sels):
  def hh(run):
    out = []
    for sel in sels:
        tag = "".join(s[0] for s in SEL if sel.get(s)) + " "
        ex = expected(P, sel); sv = P.statevars(sel); col = {v.v: i for i, v in enumerate(sv)}
        n0 = 2*P.W*P.H*len(P.board) + 2*len(P.point)
        for jac in (True, False):
            r, b, x, J, (Ns, Nm, Nj) = P.call(run, sel, jac=jac)
            t = tag + ("" if jac else "without the Jacobian ")
            out.append(true(t + "succeeds", r))
            out.append(true(t + "the regularization terms are present exactly when requested", Nm == n0 + len(ex)))
            if not r or Nm != n0 + len(ex): break
            if any(v is None for v in x): out.append(true(t + "every element is written", False)); break
            for (n, e, _), g in zip(ex, x[n0:]): out.append(eq(t + n, g, e, scale=10.))
            if not jac: break
            o, rw = rows(J, Ns, Nm, Nj, tag); out += o
            if rw is None: break
            sc, ob = scales(run, P, sel, b, sv, tag)
            for (n, e, dep), g, row in zip(ex, x[n0:], rw[n0:]):
                cols = [col[v.v] for v in dep]
                out.append(true(tag + n + ": depends only on what it regularizes", sorted(row) == sorted(cols)))
                for v in dep:
                    c = col[v.v]
                    if c in row: out.append(eq(tag + n + ": derivative for %s" % v.v, row[c], sym.diff(e, v)*sc[c], scale=10.))
    return out
  return hh
def go(c):
    callback.prepare()
    M = symexec.libmods()
    T = common.TIER == "thorough"
    S = [dict(zip(SEL[:5] + [SEL[5], SEL[7]], x)) for x in itertools.product((0, 1), repeat=7) if any(x[:4])]     # the warp alone needs boards
    jobs = []
    def add(name, P, sels, n):
        for i in range(n):
            jobs.append(Job("%s %d" % (name, i), M, h(P, sels[i::n]), lambda rng, n: P.gen(rng), pre=P.pre(), nsamples=3, deadline=200, stubs=geom.STUBS))
    for l in problem.LENSES:
        L = Lens(l)
        # no observations; and an observation of a point by a camera at the reference
        add(l, Problem(L, 2, 1, 1, 1, 0, imager=[(640, 480), (1024, 777)]), S, 2)
        if l != "CAHVORE": add(l + " with observations", Problem(L, 2, 2, 1, 1, 0, board=[(0, -1, 0)], point=[(0, -1, 0), (1, 0, 0)], imager=[(100, 2000), (641, 479)], w_board=[["out"]*4], w_point=["in", "out"]), S[::1 if T else 5], 2)
    for L in [Lens("SPLINED_STEREOGRAPHIC", 3, 5, 5, 100), Lens("SPLINED_STEREOGRAPHIC", 2, 4, 5, 100), Lens("SPLINED_STEREOGRAPHIC", 3, 7, 5, 100)] + ([Lens("SPLINED_STEREOGRAPHIC", 3, 4, 7, 100), Lens("SPLINED_STEREOGRAPHIC", 2, 9, 7, 100)] if T else []):
        add(L.tag, Problem(L, 2, 1, 1, 1, 0, imager=[(640, 480), (1024, 777)]), S[::1 if T else 3], 3)
    decide.run_jobs(c, jobs)
    c.functions |= {"mrcal_optimizer_callback", "optimizer_callback (regularization)", "_mrcal_num_j_nonzero", "mrcal_num_measurements", "mrcal_num_measurements_regularization", "mrcal_state_index_*"}
    c.bounds = dict(problems="2 cameras, 1 or 2 extrinsics; no observations, or a board and 2 points", selections="%d combinations of what is optimized and of the two kinds of regularization" % len(S),
                    lens_models="all; splined with %d grids" % (5 if T else 3), values="every value of the intrinsics and poses; two pairs of imager sizes")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME + [geom.ASSUME]
common.main(go, "C21", "other")
