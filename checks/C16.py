import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, math
from decide import eqs, eq, true, Job, gt, ge, lt, le, ne
from rot import *
NAMES = ["geometric", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2"]
v0 = [sym.var("a%d" % i) for i in range(3)]; v1 = [sym.var("b%d" % i) for i in range(3)]; t = [sym.var("t%d" % i) for i in range(3)]
p = [sym.var("p%d" % i) for i in range(3)]; s0, s1 = sym.var("s0"), sym.var("s1")
Rv = [sym.var("R%d" % i) for i in range(9)]
MASKS = [(1, 1, 1), (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
def call(run, name, A, B, T, mask, n2=9):
    J = [run.buf("J%d" % k, n2 if k == 2 and name == "lindstrom" else 9) if mask[k] else None for k in range(3)]
    m = run.call("mrcal_triangulate_" + name, *J, run.buf("v0", A), run.buf("v1", B), run.buf("T", T), ret="point3")
    return m, J
def h_grad(name, masks):
  def h(run):
    out = []
    lind = name == "lindstrom"; V2 = Rv + t if lind else t; n2 = 36 if lind else 9
    first = None
    for mask in masks:
        m, J = call(run, name, v0, v1, V2, mask, n2)
        tag = "J=%d%d%d" % mask
        if first is None:
            first = m
            zero = all(isinstance(x, sym.Node) and x.op == "c" and x.v == 0 for x in m) if run.symbolic else all(x == 0 for x in m)
        else: out += eqs(tag + " value", m, [sym.lift(x) for x in first])
        if zero:
            for j, n in zip(J, (9, 9, n2)):
                if j is not None: out.append(true(tag + " nothing written for rejected rays", all(x is None or (not run.symbolic and x == 0) for x in j.ds(n))))
            continue
        for j, V, n in zip(J, (v0, v1, V2), (9, 9, n2)):
            if j is None: continue
            if run.symbolic: e = jac(m, V)
            else: e = numjac(run, name, V)
            out += eqs(tag + " d/d%s" % V[0].v, j.ds(n), e)
    return out
  return h
_nj = {}
def numjac(run, name, V):
    """on the real code: the derivative of the values, by central differences with Richardson extrapolation"""
    out = [[0.]*len(V) for i in range(3)]
    V2 = Rv + t if name == "lindstrom" else t
    def at(v, d):
        e = dict(run.env); e[v.v] = float(e[v.v]) + d
        r = symexec.CRun(run.lib, e)
        return r.call("mrcal_triangulate_" + name, None, None, None, r.buf("v0", v0), r.buf("v1", v1), r.buf("T", V2), ret="point3")
    for k, v in enumerate(V):
        h = 1e-4 * max(1., abs(float(run.env[v.v])))
        D = [[(x - y)/(2*g) for x, y in zip(at(v, g), at(v, -g))] for g in (h, h/2)]
        for i in range(3): out[i][k] = (4*D[1][i] - D[0][i])/3
    return [sym.fromdouble(x) for r in out for x in r]
# rays that meet: p = k0 v0 = t + k1 v1
k0, k1 = sym.var("k0"), sym.var("k1")
L0, L1 = [v0[0]*v0[2], v0[1]*v0[2], v0[2]], [v1[0]*v1[2], v1[1]*v1[2], v1[2]]     # for lindstrom: (x/z, y/z) are variables
g = [sym.var("g%d" % i) for i in range(3)]                            # R (x1,y1,1)
RG = [x for i in range(3) for x in (Rv[3*i], Rv[3*i + 1], g[i] - Rv[3*i]*v1[0] - Rv[3*i + 1]*v1[1])]   # any matrix, by two of its columns and g
def dirs(name):
    """the rays in the coordinates of camera 0"""
    return ([v0[0], v0[1], ONE], g) if name == "lindstrom" else (v0, v1)
def meeting(name, sg0, sg1):
    A, B = dirs(name)
    P = [k0*sg0*x for x in A]
    return P, vsub(P, [k1*sg1*x for x in B])
def h_meet(name, sg0, sg1):
  def h(run):
    P, T = meeting(name, sg0, sg1)
    A, B = (L0, L1) if name == "lindstrom" else (v0, v1)
    m, _ = call(run, name, A, B, RG + T if name == "lindstrom" else T, (0, 0, 0))
    return eqs("point", m, P if sg0 > 0 and sg1 > 0 else [ZERO]*3, rtol=1e-6)
  return h
def lindstrom(Q, x0, x1):
    """rays close to the observed ones which meet to a high order: Listing 3 of the paper, "niter2". Q: the essential matrix"""
    x0, x1 = x0 + [ONE], x1 + [ONE]
    Q2 = [Q[0], Q[1], Q[3], Q[4]]
    n = mv(Q, x1)[:2]; nn = mtv(Q, x0)[:2]
    m2 = lambda x: [Q2[0]*x[0] + Q2[1]*x[1], Q2[2]*x[0] + Q2[3]*x[1]]; m2t = lambda x: [Q2[0]*x[0] + Q2[2]*x[1], Q2[1]*x[0] + Q2[3]*x[1]]
    a = dot(n, m2(nn)); b = (dot(n, n) + dot(nn, nn))/2; c = dot(x0, mv(Q, x1)); d = sym.sqrt(b*b - a*c); l = c/(b + d)
    n2_, nn2 = vsub(n, m2([l*x for x in nn])), vsub(nn, m2t([l*x for x in n])); bb = (dot(n2_, n2_) + dot(nn2, nn2))/2
    L = l*d/bb
    y0, y1 = [x0[0] - L*n2_[0], x0[1] - L*n2_[1], ONE], [x1[0] - L*nn2[0], x1[1] - L*nn2[1], ONE]
    return y0, y1, n + nn + [a, b, c, d, l] + n2_ + nn2 + [bb, L] + y0[:2] + y1[:2]
TX = [ZERO, -t[2], t[1], t[2], ZERO, -t[0], -t[1], t[0], ZERO]
LIND = lindstrom(mm(TX, Rv), v0[:2], v1[:2])
def corrected(run, name):
    """-> the corrected rays in the coordinates of camera 0, and the terms used"""
    if name == "lindstrom": y0, y1 = LIND[:2]; return y0, mv(Rv, y1)
    n2 = lambda x: dot(x, x)
    off = lambda x, n: vsub(x, [q*dot(x, n)/n2(n) for q in n])         # the component along n removed
    if name == "leecivera_l1":
        a0, a1 = dot(v0, t), dot(v1, t)
        if run.decide(gt(a0*a0*n2(v1), a1*a1*n2(v0))): return off(v0, cross(v1, t)), v1
        return v0, off(v1, cross(v0, t))
    u0, u1 = [x/sym.sqrt(n2(v0)) for x in v0], [x/sym.sqrt(n2(v1)) for x in v1]
    na, nb = cross(vadd(u0, u1), t), cross(vsub(u0, u1), t)
    n = na if run.decide(gt(n2(na), n2(nb))) else nb
    return off(u0, n), off(u1, n)
wm_hints = []
def middle(name):
    n2 = lambda x: dot(x, x)
    if name == "geometric":
        # the points of the rays closest to each other
        a, b, c, d, e = n2(v0), dot(v0, v1), n2(v1), dot(v0, t), dot(v1, t)
        k0, k1 = (c*d - b*e)/(a*c - b*b), (b*d - a*e)/(a*c - b*b)
        return [(k0*x + z + k1*y)/2 for x, y, z in zip(v0, v1, t)]
    u0, u1 = (v0, v1) if name == "leecivera_mid2" else ([x/sym.sqrt(n2(v0)) for x in v0], [x/sym.sqrt(n2(v1)) for x in v1])
    K = n2(cross(u0, u1)); q0, q1 = n2(cross(u1, t)), n2(cross(u0, t))
    l0, l1 = (sym.sqrt(q0/K), sym.sqrt(q1/K)) if name == "leecivera_mid2" else (sym.sqrt(q0)/sym.sqrt(K), sym.sqrt(q1)/sym.sqrt(K))
    wm_hints[:] = u0 + u1 + [sym.sqrt(K), sym.sqrt(q0), sym.sqrt(q1), l0, l1]
    if name == "leecivera_mid2": return [(l0*x + z + l1*y)/2 for x, y, z in zip(u0, u1, t)]
    return [(l0*l1*x + l0*z + l0*l1*y)/(l0 + l1) for x, y, z in zip(u0, u1, t)]
def h_noisy(name):
  def h(run):
    lind = name == "lindstrom"
    m, _ = call(run, name, *((L0, L1, Rv + t) if lind else (v0, v1, t)), (0, 0, 0))
    if all(isinstance(x, sym.Node) and x.op == "c" and x.v == 0 for x in m) if run.symbolic else all(x == 0 for x in m): return []
    if name in ("geometric", "leecivera_mid2", "leecivera_wmid2"): return eqs("the point", m, middle(name))
    A, B = corrected(run, name); m = [sym.lift(x) if run.symbolic else sym.fromdouble(x) for x in m]
    D = cross(vsub(m, t), B)
    # the corrected rays meet (Lindstrom's: up to higher orders of the noise): the point is on the second ray as seen in one of the coordinate planes
    return eqs("on the corrected ray of camera 0", [m[0]*A[2], m[1]*A[2]], [m[2]*A[0], m[2]*A[1]], rtol=1e-9) + [eq("on the corrected ray of camera 1", D[0]*D[1], ZERO, scale=1., cuts=A + B)]
  return h
def h_err(meet):
  def h(run):
    out = []
    A, B = v0, v1; T = meeting('', 1, 1)[1] if meet else t
    first = None
    for a, b in ((1, 1), (0, 0)) if not meet else ((1, 1), (0, 0), (1, 0), (0, 1)):
        J0 = run.buf("Jv1", 3) if a else None; J1 = run.buf("Jt", 3) if b else None
        e = run.call("_mrcal_triangulated_error", J0, J1, run.buf("v0", A), run.buf("v1", B), run.buf("t", T), ret="double")
        tag = "J=%d%d " % (a, b)
        if meet: out.append(eq(tag + "no error when the rays meet", e, ZERO, scale=1.)); continue
        if first is None: first = e
        else: out.append(eq(tag + "value", e, sym.lift(first)))
        for j, V in ((J0, v1), (J1, t)):
            if j is None: continue
            if run.symbolic: out += eqs(tag + "d/d" + V[0].v, j.ds(3), [sym.diff(e, v) for v in V])
            else:
                def at(v, d):
                    en = dict(run.env); en[v.v] = float(en[v.v]) + d
                    r = symexec.CRun(run.lib, en)
                    return r.call("_mrcal_triangulated_error", None, None, r.buf("v0", A), r.buf("v1", v1), r.buf("t", t), ret="double")
                g = []
                for v in V:
                    x = 1e-4; D = [(at(v, q) - at(v, -q))/(2*q) for q in (x, x/2)]; g.append(sym.fromdouble((4*D[1] - D[0])/3))
                out += eqs(tag + "d/d" + V[0].v, j.ds(3), g, rtol=1e-5)
    return out
  return h
def gen(kind):
    def g(rng, n):
        e = {}
        p = [rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(2, 8)]; t = [rng.uniform(-1, 1) for i in range(3)]
        if n % 5 == 3: p[2] = -p[2]
        sg0, sg1 = [(1, 1), (1, 1), (-1, 1), (1, 1), (1, -1), (-1, -1), (1, 1)][n % 7] if "gradients" in kind else (1, 1)
        e["k0"], e["k1"] = rng.uniform(.2, 3), rng.uniform(.2, 3)
        noise = .02 if "gradients" in kind else .05 if "noisy" in kind else 0.
        for i in range(3):
            e["t%d" % i] = t[i]; e["r%d" % i] = rng.uniform(-.5, .5)
            e["a%d" % i] = sg0*p[i]/e["k0"] + rng.uniform(-noise, noise)
            e["b%d" % i] = sg1*(p[i] - t[i])/e["k1"] + rng.uniform(-noise, noise)
        if "lindstrom" in kind:
            import numpy as np
            r = np.array([e["r%d" % i] for i in range(3)]); th = np.linalg.norm(r); k = r/th
            K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]); R = np.eye(3) + math.sin(th)*K + (1 - math.cos(th))*K@K
            for i in range(9): e["R%d" % i] = float(R.ravel()[i])
            b = R.T @ np.array([e["b%d" % i] for i in range(3)])
            for i in range(3): e["b%d" % i] = float(b[i])
            if "gradients" not in kind:
                for q in "ab":
                    for i in "01": e[q + i] /= e[q + "2"]
                    e[q + "2"] = abs(e[q + "2"])
                for i in range(3): e["g%d" % i] = float(R[i] @ np.array([e["b0"], e["b1"], 1.]))
                e["k0"] = p[2]; e["k1"] = float((R.T @ (np.array(p) - np.array(t)))[2])
        return e
    return g
def go(c):
    M = symexec.libmods(); jobs = []
    n2 = lambda x: dot(x, x)
    E = sym.fromdouble(1e-10)
    for name in NAMES + ["lindstrom"]:
        jobs.append(Job(name + " gradients", M, h_grad(name, MASKS), gen(name + " gradients"), nsamples=16, deadline=200, per_obl=60, rtol=1e-5))
        kw = dict(pre=[gt(v0[2], 0), gt(v1[2], 0)], hints=mm(TX, Rv) + LIND[2] + mv(Rv, LIND[1])) if name == "lindstrom" else {}
        if name == "leecivera_wmid2": middle(name); kw = dict(hints=list(wm_hints))
        jobs.append(Job(name + ", rays which do not meet", M, h_noisy(name), gen(name + " noisy"), nsamples=16, deadline=200, per_obl=60, **kw))
        for sg0 in (1, -1):
            for sg1 in (1, -1):
                A, B = dirs(name); X = cross(A, B); P, T = meeting(name, sg0, sg1)
                pre = [gt(k0, 0), gt(k1, 0), gt(n2(X), 0)]; nz = [gt(n2(q), 0) for q in (A, B, P, T, [k1*x for x in B])]; hints = [k0, k1] + P
                if name == "geometric": pre += [gt(n2(X), E)] + nz
                elif name in ("leecivera_mid2", "leecivera_wmid2"): pre += nz; hints += [k0*sym.sqrt(n2(A)), k1*sym.sqrt(n2(B))]
                else:
                    # one of the determinants is not tiny
                    if name == "leecivera_linf": X = cross([x/sym.sqrt(n2(v0)) for x in v0], [x/sym.sqrt(n2(v1)) for x in v1])
                    if name == "lindstrom": pre += [gt(v0[2], 0), gt(v1[2], 0)]
                    big = [lt(x, -E) if s < 0 else gt(x, E) for x in X[:2] for s in (1, -1)]
                    pre += [symexec.cor(symexec.cor(big[0], big[1]), symexec.cor(big[2], big[3]))]
                jobs.append(Job("%s meeting, signs %d %d" % (name, sg0, sg1), M, h_meet(name, sg0, sg1), gen(name), pre=pre, nsamples=8, deadline=200, hints=hints))
    X = cross(v0, v1); P, T_ = meeting("", 1, 1)
    T = common.TIER == "thorough"; NP = 32 if T else 16
    cs = dot(v0, v1)/sym.sqrt(n2(v0)*n2(v1))
    if T:
        for k in range(NP):
            jobs.append(Job("triangulated error gradients part %d" % k, M, h_err(0), gen("gradients"),
                            nsamples=40, nra_ms=0, deadline=200, per_obl=10, rtol=1e-4, part=(k, NP, 10), reals=1))
    else:
        # one sign flip improves the fit, or none
        K = n2(X); l0 = sym.sqrt(n2(cross(v1, t))*(1/K)); l1 = sym.sqrt(n2(cross(v0, t))*(1/K))
        w = [ZERO]*3
        for i in range(3):
            x = l1*v1[i] + t[i] - l0*v0[i]; x = x*x
            for j, y in enumerate((l1*v1[i] + t[i] + l0*v0[i], -l1*v1[i] + t[i] - l0*v0[i], -l1*v1[i] + t[i] + l0*v0[i])): w[j] = w[j] + (y*y - x)
        for k in range(3):
            jobs.append(Job("triangulated error gradients, flip %d" % k, M, h_err(0), gen("gradients"),
                            pre=[gt(dot(v0, v1), 0), gt(2 - 2*cs, sym.fromdouble(1e-21))] + [gt(x, 0) for j, x in enumerate(w) if j != k],
                            nsamples=40, nra_ms=0, deadline=200, per_obl=10, rtol=1e-4, reals=1))
    jobs.append(Job("triangulated error meeting", M, h_err(1), gen(""), pre=[gt(k0, 0), gt(k1, 0), gt(n2(X), 0)] + [gt(n2(q), 0) for q in (v0, v1, P, T_, [k1*x for x in v1])], nsamples=8, deadline=200, hints=[k0, k1, ONE] + P))
    decide.run_jobs(c, jobs)
    c.bounds = dict(values="every pair of rays of any length, every translation (lindstrom: any 3x3 matrix for the gradients, any rotation for the meeting rays)", gradients="each subset of outputs requested")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C16", "other")
