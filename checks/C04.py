import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec
from decide import eqs, true, Job
from rot import *
from strided import Arr
MODES = (0, 1, 2)
Rv = [sym.var("R%d%d" % (i, j)) for i in range(3) for j in range(3)]; tv = [sym.var("t%d" % i) for i in range(3)]
Qv = [sym.var("Q%d%d" % (i, j)) for i in range(3) for j in range(3)]; uv = [sym.var("u%d" % i) for i in range(3)]
xv = [sym.var("x%d" % i) for i in range(3)]
ALL = [n.v for n in Rv + tv + Qv + uv + xv]
def gen(rng, n): return {k: rng.uniform(-2, 2) for k in ALL}

def inv(R, t): return tr(R), vneg(mv(tr(R), t))
def apply(R, t, x): return vadd(mv(R, x), t)

def h_rotate(run):
    out = []
    for inverted in (False, True):
        x = mv(tr(Rv) if inverted else Rv, xv)
        for m in MODES:
            for jr in (0, 1):
                for jx in (0, 1):
                    for inplace in (0, 1):
                        tag = "rotate_point_R inv=%d mode=%d J_R=%d J_x=%d inplace=%d" % (inverted, m, jr, jx, inplace)
                        xi = Arr(run, "x", (3,), xv, m)
                        xo = xi if inplace else Arr(run, "xout", (3,), None, m)
                        JR = Arr(run, "J_R", (3, 3, 3), None, m, null=not jr); JX = Arr(run, "J_x", (3, 3), None, m, null=not jx)
                        R = Arr(run, "R", (3, 3), Rv, m)
                        run.call("mrcal_rotate_point_R_full", *xo.args(), *JR.args(), *JX.args(), *R.args(), *xi.args(), inverted)
                        out += eqs(tag + " x", xo.vals(), x) + xo.holes() + JR.holes() + JX.holes()
                        out += eqs(tag + " R unchanged", R.vals(), Rv)
                        if jr: out += eqs(tag + " J_R", JR.vals(), jac(x, Rv))
                        if jx: out += eqs(tag + " J_x", JX.vals(), jac(x, xv))
    return out
def h_transform(run):
    out = []
    for inverted in (False, True):
        x = apply(*inv(Rv, tv), xv) if inverted else apply(Rv, tv, xv)
        for m in MODES:
            for jr in (0, 1):
                for jx in (0, 1):
                    for inplace in (0, 1):
                        tag = "transform_point_Rt inv=%d mode=%d J_Rt=%d J_x=%d inplace=%d" % (inverted, m, jr, jx, inplace)
                        xi = Arr(run, "x", (3,), xv, m)
                        xo = xi if inplace else Arr(run, "xout", (3,), None, m)
                        JR = Arr(run, "J_Rt", (3, 4, 3), None, m, null=not jr); JX = Arr(run, "J_x", (3, 3), None, m, null=not jx)
                        R = Arr(run, "Rt", (4, 3), Rv + tv, m)
                        run.call("mrcal_transform_point_Rt_full", *xo.args(), *JR.args(), *JX.args(), *R.args(), *xi.args(), inverted)
                        out += eqs(tag + " x", xo.vals(), x) + xo.holes() + JR.holes() + JX.holes()
                        out += eqs(tag + " Rt unchanged", R.vals(), Rv + tv)
                        if jr: out += eqs(tag + " J_Rt", JR.vals(), jac(x, Rv + tv))
                        if jx: out += eqs(tag + " J_x", JX.vals(), jac(x, xv))
    return out
def h_invert(run):
    out = []
    for m in MODES:
        for inplace in (0, 1):
            tag = "invert mode=%d inplace=%d" % (m, inplace)
            R = Arr(run, "R", (3, 3), Rv, m); o = R if inplace else Arr(run, "Rout", (3, 3), None, m)
            run.call("mrcal_invert_R_full", *o.args(), *R.args())
            out += eqs(tag + " R", o.vals(), tr(Rv)) + o.holes()
            R = Arr(run, "Rt", (4, 3), Rv + tv, m); o = R if inplace else Arr(run, "Rtout", (4, 3), None, m)
            run.call("mrcal_invert_Rt_full", *o.args(), *R.args())
            Ri, ti = inv(Rv, tv)
            out += eqs(tag + " Rt", o.vals(), Ri + ti) + o.holes()
        for nm, shape, v in (("R", (3, 3), I3), ("r", (3,), [ZERO]*3), ("Rt", (4, 3), I3 + [ZERO]*3), ("rt", (6,), [ZERO]*6)):
            o = Arr(run, "id", shape, None, m)
            run.call("mrcal_identity_%s_full" % nm, *o.args())
            out += eqs("identity_%s mode=%d" % (nm, m), o.vals(), v) + o.holes()
    return out
def h_compose(run):
    out = []
    for i0 in (False, True):
        for i1 in (False, True):
            A = inv(Rv, tv) if i0 else (Rv, tv); B = inv(Qv, uv) if i1 else (Qv, uv)
            exp = mm(A[0], B[0]) + apply(A[0], A[1], B[1])
            for m in MODES:
                for inplace in (0, 1, 2, 3):
                    tag = "compose_Rt inv=%d%d mode=%d inplace=%d" % (i0, i1, m, inplace)
                    a = Arr(run, "Rt0", (4, 3), Rv + tv, m); b = Arr(run, "Rt1", (4, 3), Qv + uv, m)
                    e = exp
                    if inplace == 3:   # both inputs and the output are the same array
                        b = a
                        A2 = A; B2 = inv(Rv, tv) if i1 else (Rv, tv)
                        e = mm(A2[0], B2[0]) + apply(A2[0], A2[1], B2[1])
                    o = a if inplace in (1, 3) else b if inplace == 2 else Arr(run, "Rtout", (4, 3), None, m)
                    run.call("mrcal_compose_Rt_full", *o.args(), *a.args(), *b.args(), i0, i1)
                    out += eqs(tag, o.vals(), e) + o.holes()
                    if inplace == 0: out += eqs(tag + " Rt0 unchanged", a.vals(), Rv + tv) + eqs(tag + " Rt1 unchanged", b.vals(), Qv + uv)
    return out
def h_aligned(run):
    v = run.buf("v", xv); R = run.buf("R", 9)
    run.call("mrcal_R_aligned_to_vector", R, v)
    r = R.ds(9)
    if not run.symbolic: r = [sym.const(__import__("fractions").Fraction(y)) for y in r]
    n = sqrt(dot(xv, xv))
    return eqs("R v = |v| z", mv(r, xv), [ZERO, ZERO, n]) + eqs("R R^T = I", mm(r, tr(r)), I3) + \
           eqs("det", [dot(r[:3], cross(r[3:6], r[6:]))], [ONE])
def gen_al(rng, n):
    e = {k.v: rng.uniform(-2, 2) for k in xv}
    if n % 4 == 3: e[xv[n // 4 % 3].v] = 0.
    return e
def go(c):
    M = symexec.libmods()
    jobs = [Job("rotate_point_R", M, h_rotate, gen, nsamples=3), Job("transform_point_Rt", M, h_transform, gen, nsamples=3),
            Job("invert, identity", M, h_invert, gen, nsamples=3), Job("compose_Rt", M, h_compose, gen, nsamples=3),
            Job("R_aligned_to_vector", M, h_aligned, gen_al, pre=[decide.gt(dot(xv, xv), 0)], nsamples=12)]
    decide.run_jobs(c, jobs)
    c.bounds = dict(values="all reals", strides="contiguous, padded rows, transposed with padding", gradients="every subset", inplace="output aliasing either or both inputs")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C04", "other")
