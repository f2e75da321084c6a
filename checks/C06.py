import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, mpmath, math
from fractions import Fraction
from decide import eqs, near, true, Job, lt, ge, gt, le
from rot import *
from strided import Arr
r0 = [sym.var("a%d" % i) for i in range(3)]; r1 = [sym.var("b%d" % i) for i in range(3)]
t0 = [sym.var("s%d" % i) for i in range(3)]; t1 = [sym.var("t%d" % i) for i in range(3)]
EPS = Fraction(1, 10**8)
N0, N1 = dot(r0, r0), dot(r1, r1)
A, B = sym.sqrt(N0)/2, sym.sqrt(N1)/2
def sinc(x, small): return ONE if small else sym.sin(x)/x
def axisang(q):
    """unit quaternion -> (w, v)"""
def compose(run, i0, i1):
    """The shortest Rodrigues vector of the product of the two rotations, from the product of their quaternions"""
    p, q = [[-x for x in r] if i else r for r, i in ((r0, i0), (r1, i1))]
    ta, tb = run.decide(lt(A, EPS/2)), run.decide(lt(B, EPS/2 if False else EPS))
    if ta and tb: return vadd(p, q)
    def jinv(phi, half):          # inverse of the left Jacobian of SO(3): I - [phi]/2 + (1 - half cot half) phi phi^T-ish
        k = (ONE - half*sym.cos(half)/sym.sin(half))/(4*half*half)
        cot = half*sym.cos(half)/sym.sin(half)
        return lambda d, sg: [phi[i]*k*dot(phi, d) + cot*d[i] + sg*cross(d, phi)[i]/2 for i in range(3)]
    if ta: return vadd(q, jinv(q, B)(p, 1))
    if tb: return vadd(p, jinv(p, A)(q, -1))
    sa, sb = run.decide(lt(A, Fraction(1, 10**5))), run.decide(lt(B, Fraction(1, 10**5)))
    va, vb = [x*sinc(A, sa)/2 for x in p], [x*sinc(B, sb)/2 for x in q]
    wa, wb = sym.cos(A), sym.cos(B)
    w = wa*wb - dot(va, vb)
    v = vadd(vadd([wb*x for x in va], [wa*x for x in vb]), cross(va, vb))
    if run.decide(gt(w - ONE, sym.lift(-(1e-8*1e-8/2)))): return [2*x for x in v]
    if run.decide(lt(w + ONE, sym.lift(1e-8*1e-8/2))): return [-2*x for x in v]
    neg = run.decide(lt(w, 0))
    C = sym.acos(w)
    if neg: C = C - sym.PI
    return [2*x*C/sym.sqrt(ONE - w*w) for x in v]
def h_r(i0, i1, cases):
  def h(run):
    out = []
    e = compose(run, i0, i1); J0 = jac(e, r0); J1 = jac(e, r1)
    for m, j0, j1, ip in cases:
        tag = "inv=%d%d mode=%d dr0=%d dr1=%d inplace=%d" % (i0, i1, m, j0, j1, ip)
        a, b = Arr(run, "r_0", (3,), r0, m), Arr(run, "r_1", (3,), r1, m)
        o = (None, a, b)[ip] or Arr(run, "r_out", (3,), None, m)
        g0, g1 = Arr(run, "dr_dr0", (3, 3), None, m, null=not j0), Arr(run, "dr_dr1", (3, 3), None, m, null=not j1)
        run.call("mrcal_compose_r_full", *o.args(), *g0.args(), *g1.args(), *a.args(), *b.args(), i0, i1)
        out += eqs(tag + " r", o.vals(), e) + o.holes() + g0.holes() + g1.holes()
        if ip != 1: out += eqs(tag + " r0 unchanged", a.vals(), r0)
        if ip != 2: out += eqs(tag + " r1 unchanged", b.vals(), r1)
        if j0: out += eqs(tag + " dr_dr0", g0.vals(), J0, rtol=1e-5)
        if j1: out += eqs(tag + " dr_dr1", g1.vals(), J1, rtol=1e-5)
    return out
  return h
def h_tiny(which):
  def h(run):
    out = []
    r = r1 if which == 0 else r0; d = r0 if which == 0 else r1
    n = dot(r, r)
    if run.decide(lt(n, 2e-8*2e-8)): J = I3
    else:
        half = sym.sqrt(n)/2; cot = half*sym.cos(half)/sym.sin(half); k = (ONE - cot)/n
        K = [ZERO, -r[2], r[1], r[2], ZERO, -r[0], -r[1], r[0], ZERO]
        s = -1 if which == 0 else 1     # J_l^-1 for a perturbation on the left, J_r^-1 on the right
        J = [cot*I3[3*i+j] + k*r[i]*r[j] + s*K[3*i+j]/2 for i in range(3) for j in range(3)]
    for m in (0, 1, 2):
        g = Arr(run, "J", (3, 3), None, m); a = Arr(run, "r", (3,), r, m)
        run.call("mrcal_compose_r_tinyr%d_gradientr%d_full" % (which, which), *g.args(), *a.args())
        out += eqs("mode=%d J" % m, g.vals(), J, rtol=1e-5) + g.holes() + eqs("mode=%d r unchanged" % m, a.vals(), r)
    return out
  return h
PREn = [gt(N0, Fraction(4, 10**10)), gt(N1, Fraction(4, 10**10)), gt(N0, Fraction(1, 10**9)), gt(N1, Fraction(1, 10**9))]
def h_rt(i0, i1, cases):
  def h(run):
    out = []
    e = compose(run, i0, i1); dr0 = jac(e, r0); dr1 = jac(e, r1)
    R0, R1 = R_of_r(r0), R_of_r(r1)
    # x -> first the second transform, then the first
    P = tr(R0) if i0 else R0; p = [-x for x in mv(P, t0)] if i0 else t0
    Q = tr(R1) if i1 else R1; q = [-x for x in mv(Q, t1)] if i1 else t1
    t = vadd(mv(P, q), p)
    G = dict(dr_r0=dr0, dr_r1=dr1, dt_r0=jac(t, r0), dt_r1=jac(t, r1), dt_t0=jac(t, t0), dt_t1=jac(t, t1))
    for m, mask, ip in cases:
        tag = "inv=%d%d mode=%d gradients=%s inplace=%d" % (i0, i1, m, format(mask, "06b"), ip)
        a, b = Arr(run, "rt_0", (6,), r0 + t0, m), Arr(run, "rt_1", (6,), r1 + t1, m)
        o = (None, a, b)[ip] or Arr(run, "rt_out", (6,), None, m)
        g = [Arr(run, k, (3, 3), None, m, null=not (mask >> n & 1)) for n, k in enumerate(G)]
        run.call("mrcal_compose_rt_full", *o.args(), *[x for y in g for x in y.args()], *a.args(), *b.args(), i0, i1)
        out += eqs(tag + " rt", o.vals(), e + t) + o.holes()
        if ip != 1: out += eqs(tag + " rt0 unchanged", a.vals(), r0 + t0)
        if ip != 2: out += eqs(tag + " rt1 unchanged", b.vals(), r1 + t1)
        for y, k in zip(g, G):
            if not y.null: out += eqs(tag + " " + k, y.vals(), G[k], rtol=1e-5) + y.holes()
    return out
  return h
def vec(rng, mag):
    v = [rng.gauss(0, 1) for _ in range(3)]; n = math.sqrt(sum(x*x for x in v))
    return [x/n*mag for x in v]
def gen(rng, n):
    k = n % 8
    a, b = vec(rng, rng.uniform(.2, 1)), vec(rng, rng.uniform(.2, 1))
    if k == 1: a, b = vec(rng, rng.uniform(2.5, 3.1)), vec(rng, rng.uniform(1, 3)); b = [math.copysign(y, x) for x, y in zip(a, b)]
    if k == 2: b = [-x for x in a]
    if k == 3:
        mag = rng.uniform(2, 3); a = vec(rng, mag); b = [x/mag*(2*math.pi - mag) for x in a]
    if k == 4: a, b = vec(rng, 3.), vec(rng, 2.)
    if k == 5: b = vec(rng, 3.0)
    if k == 6: b = list(a)
    if k == 7:
        mag = rng.uniform(2, 3); a = vec(rng, mag); b = [-x/mag*(2*math.pi - mag) for x in a]
    e = {"a%d" % i: a[i] for i in range(3)}; e.update({"b%d" % i: b[i] for i in range(3)})
    e.update({"%s%d" % (s, i): rng.uniform(-2, 2) for s in "st" for i in range(3)})
    return e
def gensmall(rng, n):
    e = gen(rng, 0)
    M = [1e-10, 1e-6, 1, 1e-9, 2e-6]
    for c, m in (("a", M[n % 5]), ("b", M[n // 5 % 5])):
        for i, x in enumerate(vec(rng, m)): e[c + str(i)] = x
    if n >= 25:
        for c in "ab"[n % 2:]:
            for i in range(3): e[c + str(i)] = 0.
    return e
def go(c):
    M = symexec.libmods()
    jobs = []
    T = common.TIER == "thorough"
    full = [(m, j0, j1, ip) for m in (0, 1, 2) for j0 in (0, 1) for j1 in (0, 1) for ip in (0, 1, 2)]
    few = full if T else [(0, 0, 0, 0), (0, 1, 0, 1), (1, 0, 1, 0), (2, 1, 1, 2)]
    for i0 in (False, True):
        for i1 in (False, True):
            jobs.append(Job("compose_r inverted=%d%d" % (i0, i1), M, h_r(i0, i1, full if i0 == i1 else few), gen, pre=PREn, nsamples=24, rtol=1e-7))
            jobs.append(Job("compose_r small inverted=%d%d" % (i0, i1), M, h_r(i0, i1, few), gensmall, pre=[lt(N0 if i0 else N1, 8), lt(N1 if i0 else N0, 8)], nsamples=27, rtol=1e-7))
            for ms in range(4):
                masks = [k for k in range(64) if k % 4 == ms]
                cases = [(k % 3, k, (k // 3) % 3) for k in masks]
                if T: cases = [(m, k, ip) for k in masks for m in (0, 1, 2) for ip in (0, 1, 2)]
                jobs.append(Job("compose_rt inverted=%d%d part %d" % (i0, i1, ms), M, h_rt(i0, i1, cases), gen, pre=PREn, nsamples=24, rtol=1e-7))
    for w in (0, 1): jobs.append(Job("compose_r_tinyr%d_gradient" % w, M, h_tiny(w), gensmall, nsamples=27, rtol=1e-7))
    decide.run_jobs(c, jobs)
    c.bounds = dict(values="every pair of Rodrigues vectors of any magnitude, every translation; compose_rt for |r|>3e-5",
                    regimes="magnitude < 1e-8: first order in the small rotation; half-magnitude < 1e-5: sin(x)/x is taken as 1 (within 2e-11); composition within 1e-8 of a full turn: its limit",
                    strides="contiguous, padded, transposed", gradients="every subset", inplace="output aliasing either input")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C06", "other")
