import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, mpmath, math, poly
from fractions import Fraction
from decide import eqs, near, true, Job, lt, le, gt, ge
from rot import *
from strided import Arr
rv = [sym.var("r%d" % i) for i in range(3)]; tv = [sym.var("t%d" % i) for i in range(3)]
TH2 = dot(rv, rv); TH = sym.sqrt(TH2); SN, CS = sym.sin(TH), sym.cos(TH)
PIr = Fraction("3.14159265358979")
# asin(), acos() of the sine and cosine of the rotation angle, which is in (0,pi)
_ctx = {}
def same(x, y, neg=False):
    k = (x.id, y.id)
    if k not in _ctx:
        c = poly.Ctx(limit=20000)
        try:
            c.scan_angles([x, y]); c.assume_positive(SN); _ctx[k] = c.zero(sym.sub(x, y))
        except Exception: _ctx[k] = False
    return _ctx[k]
def st_acos(run, a):
    x = run.num(a[0])
    if same(x, CS): return TH
    if same(x, -CS): return sym.PI - TH
    return sym.acos(x)
def st_asin(run, a):
    x = run.num(a[0])
    if same(x, SN): return TH if run.decide(ge(CS, 0)) else sym.PI - TH
    return sym.asin(x)
def st_atan2(run, a):
    y, x = run.num(a[0]), run.num(a[1])
    if same(y, SN) and same(x, CS): return TH
    return sym.atan2(y, x)
D_ = [sym.var("D%d" % i) for i in range(27)]
def st_R_from_r(run, a):
    """The reverse conversion, which C05 is about. The derivatives it gives are stood in by unknowns"""
    from symexec import Ptr
    R, s0, s1, J, j0, j1, j2, r, t = a
    s0, s1, j0, j1, j2, t = [symexec.s64(x, 32) for x in (s0, s1, j0, j1, j2, t)]
    s1 = s1 if s1 > 0 else 8; s0 = s0 if s0 > 0 else 3*s1
    j2 = j2 if j2 > 0 else 8; j1 = j1 if j1 > 0 else 3*j2; j0 = j0 if j0 > 0 else 3*j1
    t = t if t > 0 else 8
    import llir
    got = [run.num(run.load(Ptr(r.o, r.off + t*i), llir.DBL)) for i in range(3)]
    run.rr = getattr(run, "rr", []) + [got]
    for i in range(3):
        for j in range(3):
            run.store(Ptr(R.o, R.off + s0*i + s1*j), llir.DBL, sym.var("Rrt%d%d" % (i, j)))
            for k in range(3):
                if J.o is not None: run.store(Ptr(J.o, J.off + j0*i + j1*j + j2*k), llir.DBL, run.Dvals[9*i + 3*j + k])
def R_entries(kind, signs=None):
    if kind == "half":
        p = [sym.var("p%d" % i)*s for i, s in enumerate(signs)]; n = dot(p, p)
        return [2*p[i]*p[j]/n - I3[3*i+j] for i in range(3) for j in range(3)]
    if kind == "small":
        a, b = ONE + sym.var("dev_a"), sym.lift(Fraction(1, 2)) + sym.var("dev_b")
        K = [ZERO, -rv[2], rv[1], rv[2], ZERO, -rv[0], -rv[1], rv[0], ZERO]; KK = mm(K, K)
        return [I3[i] + a*K[i] + b*KK[i] for i in range(9)]
    return R_of_r(rv)
def h(kind, signs=None):
  def hh(run):
    out = []
    R = R_entries(kind, signs)
    J0 = jac(R_of_r(rv), rv) if not run.symbolic and kind == "nominal" else None
    if run.symbolic: run.Dvals = D_
    for which in ("r_from_R", "rt_from_Rt"):
        for m in (0, 1, 2):
            for j in (0, 1):
                if j and kind != "nominal": continue
                tag = "%s mode=%d J=%d" % (which, m, j)
                n = 3 if which == "r_from_R" else 6
                ra = Arr(run, "r", (n,), None, m); Ja = Arr(run, "J", (3, 3, 3), None, m, null=not j)
                Ra = Arr(run, "R", (n // 3 + 2 if n == 6 else 3, 3), R + (tv if n == 6 else []), m)
                run.call("mrcal_%s_full" % which, *ra.args(), *Ja.args(), *Ra.args())
                v = ra.vals()
                if kind == "nominal": out += eqs(tag + " r", v[:3], rv)
                elif kind == "small": out += [near(tag + " r[%d]" % i, g, e, 1e-15, BOX) for i, (g, e) in enumerate(zip(v[:3], rv))]
                else:
                    p = [sym.var("p%d" % i)*s for i, s in enumerate(signs)]; l = sym.sqrt(dot(p, p))
                    # either sign of a half turn is right
                    i = [k for k in range(3) if signs[k]][0]
                    if v[i] is None: out += eqs(tag + " r", v[:3], p)
                    else:
                        sg = None
                        for q in (1, -1):
                            if run.symbolic:
                                if sg is None and run.samples and abs(run.samples[0].val(sym.sub(v[i], sym.PI*p[i]*q/l))) < mpmath.mpf(10)**-20: sg = q
                            elif abs(v[i] - float(sym.evaluate(sym.PI*p[i]*q/l, run.env))) < 1e-6: sg = q
                        out += eqs(tag + " r", v[:3], [sym.PI*x*(sg or 1)/l for x in p])
                if n == 6: out += eqs(tag + " t", v[3:], tv)
                out += ra.holes() + Ja.holes() + eqs(tag + " R unchanged", Ra.vals(), R + (tv if n == 6 else []))
                if j and run.symbolic:
                    # J = pinv(D):   J D = I,  and the rows of J are combinations of the columns of D
                    Jv = Ja.vals()
                    if run.rr: out += eqs(tag + " derivatives evaluated at r", run.rr[-1], rv)
                    if any(x is None for x in Jv): out += eqs(tag + " J", Jv, [ZERO]*27)
                    else:
                        M = [[dot([D_[3*k + a] for k in range(9)], [D_[3*k + b] for k in range(9)]) for b in range(3)] for a in range(3)]
                        # M J^T = D^T  <=>  J = inv(D^T D) D^T
                        for a in range(3):
                            for e in range(9):
                                out.append(decide.eq(tag + " J: normal equations[%d,%d]" % (a, e), dot(M[a], [Jv[9*k + e] for k in range(3)]), D_[3*e + a], rtol=1e-6))
                elif j:
                    Jv = Ja.vals()
                    Jn = [float(sym.evaluate(q, run.env)) for q in J0]
                    for a in range(3):
                        for e in range(9):
                            s = sum(sum(Jn[3*k + a]*Jn[3*k + b] for k in range(9)) * (Jv[9*b + e] if Jv[9*b+e] is not None else math.nan) for b in range(3))
                            out.append(true(tag + " J: normal equations[%d,%d]" % (a, e), abs(s - Jn[3*e + a]) < 1e-5))
    return out
  return hh
BOX = dict(dev_a=(-Fraction(1, 10**16), 0), dev_b=(-Fraction(1, 10**16), 0))
for i in range(3): BOX["r%d" % i] = (-Fraction(1, 10**8), Fraction(1, 10**8))
def gen(rng, n):
    e = {"t%d" % i: rng.uniform(-1, 1) for i in range(3)}
    v = [rng.gauss(0, 1) for _ in range(3)]
    if n % 4 == 3: v[n % 3] = 0.
    l = math.sqrt(sum(x*x for x in v)); m = [.5, 1.5, 2., 2.9, .01, 1.][n % 6]
    for i in range(3): e["r%d" % i] = v[i]/l*m
    for i, x in enumerate(D_): e[x.v] = rng.uniform(-1, 1)
    for i in range(3):
        for j in range(3): e["Rrt%d%d" % (i, j)] = 0.
    return e
def gensmall(rng, n):
    e = gen(rng, n)
    for i in range(3): e["r%d" % i] = rng.uniform(-1, 1)*[1e-9, 0, 1e-12][n % 3]
    return e
def ext(e):
    e["dev_a"] = mpmath.mpf(0); e["dev_b"] = mpmath.mpf(0)
def genhalf(rng, n):
    e = gen(rng, n)
    for i in range(3): e["p%d" % i] = rng.uniform(.2, 1)
    if n % 4 in (1, 3): e["p%d" % (n % 3)] = rng.uniform(.001, .03)
    if n % 4 == 3: e["p%d" % ((n + 1) % 3)] = rng.uniform(.001, .03)
    return e
def go(c):
    M = symexec.libmods()
    st = {"acos": st_acos, "asin": st_asin, "atan2": st_atan2, "mrcal_R_from_r_full": st_R_from_r}
    e16 = Fraction(1, 10**16)
    jobs = [Job("nominal", M, h("nominal"), gen, pre=[gt(SN, Fraction(1001, 10**11)), gt(TH2, e16), lt(TH2, PIr**2)], nsamples=12, stubs=st, rtol=1e-7, positive=[SN])]
    small = [x for i in range(3) for x in (lt(rv[i], Fraction(1, 10**8)), gt(rv[i], -Fraction(1, 10**8)))]
    dev = [le(sym.var("dev_a"), 0), ge(sym.var("dev_a"), -e16), le(sym.var("dev_b"), 0), ge(sym.var("dev_b"), -e16)]
    jobs.append(Job("small", M, h("small"), gensmall, pre=[lt(TH2, Fraction(9, 10**17))] + small + dev, nsamples=6, env_ext=ext, stubs=st))
    for s0 in (1, 0, -1):
        for s1 in (1, 0, -1):
            for s2 in (1, 0, -1):
                s = (s0, s1, s2)
                f = [x for x in s if x]
                if not f or f[0] < 0: continue
                jobs.append(Job("half turn, signs %d %d %d" % s, M, h("half", s), genhalf, pre=[gt(sym.var("p%d" % i), 0) for i in range(3)], nsamples=24, stubs=st, rtol=1e-6))
    decide.run_jobs(c, jobs)
    c.bounds = dict(nominal="every rotation angle with sine above 1.001e-8; every axis", small="every rotation with angle below 9e-9, within 1e-15", half="every exact half-turn",
                    outside="angles within 1e-8 of a half-turn but not exactly it; derivatives of those and of tiny rotations",
                    strides="contiguous, padded, transposed", gradients="requested or not; derivative = the pseudo-inverse of the derivative of the reverse conversion, for every value of that")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME + ["mrcal_R_from_r_full(), decided by C05, is stood in by its contract: it is given the right vector and returns arbitrary derivatives"]
common.main(go, "C23", "other")
