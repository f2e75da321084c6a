import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, mpmath
from fractions import Fraction
from decide import eqs, near, true, Job
from rot import *
from strided import Arr
MODES = (0, 1, 2)
rv = [sym.var("r%d" % i) for i in range(3)]; tv = [sym.var("t%d" % i) for i in range(3)]; xv = [sym.var("x%d" % i) for i in range(3)]
TH2 = dot(rv, rv)
VT, GT = 1e-9, 1e-8
SVT, SGT = 1e-14, 1e-9  # small rotations, absolute
# ---- small rotations: exact coefficients as bounded unknowns
# deviations from the leading terms
a, b, a1, b1 = [sym.lift(k) + sym.var("dev_" + n) for n, k in (("a", 1), ("b", Fraction(1, 2)), ("a1", -Fraction(1, 3)), ("b1", -Fraction(1, 12)))]
def ext(env):
    th = mpmath.sqrt(sum(env["r%d" % i] ** 2 for i in range(3)))
    if th < 1e-3:
        t2 = th * th
        env["dev_a"] = -t2/6 + t2**2/120; env["dev_b"] = -t2/24 + t2**2/720
        env["dev_a1"] = t2/30 - t2**2/840; env["dev_b1"] = t2/180
    else:
        s, c = mpmath.sin(th), mpmath.cos(th)
        env["dev_a"] = s/th - 1; env["dev_b"] = (1-c)/th**2 - mpmath.mpf(1)/2
        env["dev_a1"] = (th*c-s)/th**3 + mpmath.mpf(1)/3; env["dev_b1"] = (th*s-2*(1-c))/th**4 + mpmath.mpf(1)/12
e2 = Fraction(1, 10**10)
BOX = dict(dev_a=(-e2/6, 0), dev_b=(-e2/24, 0), dev_a1=(0, e2/30), dev_b1=(0, e2/180))
for i in range(3): BOX["r%d" % i] = (-Fraction(1, 10**5), Fraction(1, 10**5)); BOX["x%d" % i] = (-1, 1); BOX["t%d" % i] = (-1, 1)
def small(x, s):
    """rotation of x by s*r and its derivative with respect to r, exact in terms of a,b,a1,b1"""
    rx = [s*q for q in cross(rv, x)]; rdx = dot(rv, x)
    val = [(1 - TH2*b)*x[i] + a*rx[i] + b*rv[i]*rdx for i in range(3)]
    J = []
    for i in range(3):
        for j in range(3):
            ej = [ONE if k == j else ZERO for k in range(3)]
            J.append(-(2*b*rv[j] + TH2*b1*rv[j])*x[i] + a1*rv[j]*rx[i] + a*s*cross(ej, x)[i] + b1*rv[j]*rv[i]*rdx + b*(rdx if i == j else ZERO) + b*rv[i]*x[j])
    return val, J
def Rmat_small(s):
    c = [small([ONE if k == j else ZERO for k in range(3)], s)[0] for j in range(3)]
    return [c[j][i] for i in range(3) for j in range(3)]
TBOX = dict(BOX)
for i in range(3): TBOX["r%d" % i] = (-Fraction(4, 10**16), Fraction(4, 10**16))
def nears(p, got, exp, tol, box=BOX): return [near("%s[%d]" % (p, i), g, e, tol, box) for i, (g, e) in enumerate(zip(got, exp))]

def h_rotate(which, modes, inv_, masks):
  def h(run):
    out = []
    sm = run.decide(decide.lt(TH2, Fraction(1, 10**10)))
    for inverted in inv_:
        xin = vsub(xv, tv) if which == "rt" and inverted else xv
        if sm:
            x, Jr = small(xin, -1 if inverted else 1); Jx = Rmat_small(-1 if inverted else 1)
            cmpv = lambda p, g, e: nears(p, g, e, SVT); cmpg = lambda p, g, e: nears(p, g, e, SGT)
        else:
            R = R_of_r(rv); R = tr(R) if inverted else R
            x = mv(R, xin); Jr = jac(x, rv); Jx = R
            cmpv = lambda p, g, e: eqs(p, g, e, rtol=VT); cmpg = lambda p, g, e: eqs(p, g, e, rtol=GT)
        if which == "rt" and not inverted: x = vadd(x, tv)
        Jt = [-q for q in Jx] if inverted else I3
        for m in modes:
            for jr, jx, inplace in masks:
                tag = "inv=%d mode=%d J_r=%d J_x=%d inplace=%d" % (inverted, m, jr, jx, inplace)
                xi = Arr(run, "x", (3,), xv, m); xo = xi if inplace else Arr(run, "xout", (3,), None, m)
                JX = Arr(run, "J_x", (3, 3), None, m, null=not jx)
                if which == "r":
                    R_ = Arr(run, "r", (3,), rv, m); JR = Arr(run, "J_r", (3, 3), None, m, null=not jr)
                    run.call("mrcal_rotate_point_r_full", *xo.args(), *JR.args(), *JX.args(), *R_.args(), *xi.args(), inverted)
                    J = Jr
                else:
                    R_ = Arr(run, "rt", (6,), rv + tv, m); JR = Arr(run, "J_rt", (3, 6), None, m, null=not jr)
                    run.call("mrcal_transform_point_rt_full", *xo.args(), *JR.args(), *JX.args(), *R_.args(), *xi.args(), inverted)
                    J = [q for i in range(3) for q in Jr[3*i:3*i+3] + Jt[3*i:3*i+3]]
                out += cmpv(tag + " x", xo.vals(), x) + xo.holes() + JR.holes() + JX.holes()
                out += eqs(tag + " r unchanged", R_.vals(), rv if which == "r" else rv + tv)
                if jr: out += cmpg(tag + " J_r", JR.vals(), J)
                if jx: out += cmpg(tag + " J_x", JX.vals(), Jx)
    return out
  return h
def h_R(run):
    out = []
    # below the smallest double precision step, the code may use R=I
    z = run.decide(decide.lt(TH2, Fraction(1, 10**10)))
    box = TBOX if z and run.decide(decide.lt(TH2, Fraction(1, 10**31))) else BOX
    if z:
        R = Rmat_small(1); J = [sym.ZERO]*27
        for j in range(3):
            v, jj = small([ONE if k == j else ZERO for k in range(3)], 1)
            for i in range(3):
                for k in range(3): J[9*i + 3*j + k] = jj[3*i + k]
    R2 = R_of_r(rv); J2 = jac(R2, rv)
    for which in ("R", "Rt"):
        for m in MODES:
            for j in (0, 1):
                tag = "%s_from_r%s mode=%d J=%d" % (which, which[1:], m, j)
                Ra = Arr(run, "R", (3, 3) if which == "R" else (4, 3), None, m); Ja = Arr(run, "J", (3, 3, 3), None, m, null=not j)
                r = Arr(run, "r", (3,) if which == "R" else (6,), rv if which == "R" else rv + tv, m)
                run.call("mrcal_%s_full" % ("R_from_r" if which == "R" else "Rt_from_rt"), *Ra.args(), *Ja.args(), *r.args())
                tiny = z and run.symbolic and all(not isinstance(q, sym.Node) or q.op == "c" for q in Ra.vals()[:9])
                if z and (not run.symbolic or tiny):
                    out += nears(tag + " R", Ra.vals()[:9], R, SVT, box)
                    if j: out += nears(tag + " J", Ja.vals(), J, SGT, box)
                else:
                    out += eqs(tag + " R", Ra.vals()[:9], R2, rtol=VT)
                    if j: out += eqs(tag + " J", Ja.vals(), J2, rtol=1e-6 if z else GT)
                if which == "Rt": out += eqs(tag + " t", Ra.vals()[9:], tv)
                out += Ra.holes() + Ja.holes()
    return out
def h_invert(run):
    out = []
    sm = run.decide(decide.lt(TH2, Fraction(1, 10**10)))
    if sm:
        x, J = small(tv, -1); Jt = Rmat_small(-1)
        cmpv = lambda p, g, e: nears(p, g, e, SVT); cmpg = lambda p, g, e: nears(p, g, e, SGT)
    else:
        Ri = tr(R_of_r(rv)); x = mv(Ri, tv); J = jac(x, rv); Jt = Ri
        cmpv = lambda p, g, e: eqs(p, g, e, rtol=VT); cmpg = lambda p, g, e: eqs(p, g, e, rtol=GT)
    for m in MODES:
        for jr in (0, 1):
            for jt in (0, 1):
                for inplace in (0, 1):
                    tag = "invert_rt mode=%d J_r=%d J_t=%d inplace=%d" % (m, jr, jt, inplace)
                    i = Arr(run, "rt", (6,), rv + tv, m); o = i if inplace else Arr(run, "rtout", (6,), None, m)
                    JR = Arr(run, "dt_dr", (3, 3), None, m, null=not jr); JT = Arr(run, "dt_dt", (3, 3), None, m, null=not jt)
                    run.call("mrcal_invert_rt_full", *o.args(), *JR.args(), *JT.args(), *i.args())
                    out += eqs(tag + " r", o.vals()[:3], vneg(rv)) + cmpv(tag + " t", o.vals()[3:], vneg(x)) + o.holes() + JR.holes() + JT.holes()
                    if jr: out += cmpg(tag + " dt_dr", JR.vals(), vneg(J))
                    if jt: out += cmpg(tag + " dt_dt", JT.vals(), vneg(Jt))
    return out
def gen(rng, n):
    e = {k.v: rng.uniform(-1, 1) for k in rv + tv + xv}
    sc = [1, 1, 3e-6, 1e-8, 1.7, 0, 1e-3][n % 7]
    for k in rv: e[k.v] *= sc
    if n % 7 == 4: e["r%d" % (n // 7 % 3)] = 0.
    return e
def genR(rng, n):
    e = gen(rng, n)
    sc = [1, 1, 3e-6, 1e-17, 1.7, 0, 1e-3][n % 7]
    if n % 7 == 3:
        for k in rv: e[k.v] = rng.uniform(-1, 1) * 1e-17
    return e
def go(c):
    M = symexec.libmods()
    MASK = [(jr, jx, ip) for jr in (0, 1) for jx in (0, 1) for ip in (0, 1)]
    jobs = []
    for which in ("r", "rt"):
        for inv_ in (False, True):
            jobs.append(Job("%s inverted=%d" % ("rotate_point_r" if which == "r" else "transform_point_rt", inv_), M, h_rotate(which, MODES, (inv_,), MASK), gen, nsamples=14, env_ext=ext))
    jobs.append(Job("R_from_r, Rt_from_rt", M, h_R, genR, nsamples=14, env_ext=ext))
    jobs.append(Job("invert_rt", M, h_invert, gen, nsamples=14, env_ext=ext))
    decide.run_jobs(c, jobs)
    c.bounds = dict(values="every real Rodrigues vector, translation and point (below |r|^2<1e-10: |x|,|t|<=1, within 1e-14 in value and 1e-9 in derivatives)",
                    strides="contiguous, padded rows, transposed with padding", gradients="every subset", inplace="output aliasing the input point")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C05", "other")
