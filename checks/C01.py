import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, math, poly
from decide import eqs, true, Job, gt, lt, ne, le, ge
from rot import *
from lenses import lens_enum, cconst
NMAX = 2
P = [[sym.var("p%d%d" % (i, k)) for k in range(3)] for i in range(NMAX)]
LIN = sym.var("linearity")
ND = dict(PINHOLE=0, STEREOGRAPHIC=0, LONLAT=0, LATLON=0, OPENCV4=4, OPENCV5=5, OPENCV8=8, OPENCV12=12, CAHVOR=5, CAHVORE=8)
K = [sym.var("i%d" % i) for i in range(16)]
def axis(): 
    sa, ca, sb, cb = sym.sin(K[4]), sym.cos(K[4]), sym.sin(K[5]), sym.cos(K[5])
    return [sa*cb, sb, ca*cb]
# CAHVOR, CAHVORE: in terms of omega=dot(p,o) and of mu, instead of in terms of p.z and of r0: each determines the other. This keeps the normal forms small
W, MU = sym.var("omega"), sym.var("mu")
def subst_cahv(lens, lin, f):
    """what p[f].z and r0 are, by omega and mu -> {id: expression}"""
    o = axis(); p = P[f]
    z = (W - p[0]*o[0] - p[1]*o[1])/o[2]
    n2 = p[0]*p[0] + p[1]*p[1] + z*z
    if lens == "CAHVOR": t = n2/(W*W) - 1
    else:
        l = [a - W*b for a, b in zip([p[0], p[1], z], o)]
        th = sym.atan2(sqrt(dot(l, l)), W)
        chi = th if lin == 0 else sym.sin(th*LIN)/LIN if lin < 0 else sym.sin(th*LIN)/sym.cos(th*LIN)/LIN
        t = chi*chi
    return {p[2].id: z, K[6].id: MU - K[7]*t - K[8]*t*t}
def core(lens, p, lin, e0=True):
    """normalized projection; the documented definitions"""
    x, y, z = p; n = sqrt(dot(p, p))
    if lens == "STEREOGRAPHIC": return [2*x/(n + z), 2*y/(n + z)]
    if lens == "LONLAT": return [sym.atan2(x, z), sym.asin(y/n)]
    if lens == "LATLON": return [sym.asin(x/n), sym.atan2(y, z)]
    if lens == "CAHVOR":
        o = axis(); w = dot(p, o); l = [a - w*b for a, b in zip(p, o)]
        tau = dot(l, l)/(w*w); mu = K[6] + K[7]*tau + K[8]*tau*tau
        d = [a + mu*b for a, b in zip(p, l)]
        return [d[0]/d[2], d[1]/d[2]]
    if lens == "CAHVORE":
        o = axis(); w = dot(p, o); l = [a - w*b for a, b in zip(p, o)]; ln = sqrt(dot(l, l)); th = sym.atan2(ln, w)
        chi = th if lin == 0 else sym.sin(th*LIN)/LIN if lin < 0 else sym.sin(th*LIN)/sym.cos(th*LIN)/LIN
        mu = K[6] + K[7]*chi*chi + K[8]*chi*chi*chi*chi
        d = [a*ln/chi + b*(mu + 1) for a, b in zip(o, l)]
        return [d[0]/d[2], d[1]/d[2]]
    u, v = x/z, y/z
    if lens == "PINHOLE": return [u, v]
    k = K[4:4 + ND[lens]] + [ZERO]*12
    r2 = u*u + v*v
    rad = 1 + r2*(k[0] + r2*(k[1] + r2*k[4])); den = 1 + r2*(k[5] + r2*(k[6] + r2*k[7]))
    rad = rad/den if ND[lens] > 5 else rad
    return [u*rad + 2*k[2]*u*v + k[3]*(r2 + 2*u*u) + k[8]*r2 + k[9]*r2*r2,
            v*rad + k[2]*(r2 + 2*v*v) + 2*k[3]*u*v + k[10]*r2 + k[11]*r2*r2]
def h(lens, lin, combos, focus=None):
  NI = 4 + ND[lens]
  S = subst_cahv(lens, lin, focus) if focus is not None else {}
  sub = lambda x: [sym.substitute(e, S) for e in x] if S else x
  def hh(run):
    out = []
    Kv = K[:NI]
    if lens == "CAHVORE": Kv = Kv[:9] + [ZERO]*3
    fields = {0: ("i", lens_enum()[lens])}
    if lens == "CAHVORE": fields[OFF["lin"]] = ("d", LIN)
    M = run.mem("model", OFF["size"], fields)
    intr = run.buf("intrinsics", sub(Kv))
    ex = []
    for i in range(NMAX):
        u = core(lens, P[i], lin)
        e = [K[0]*u[0] + K[2], K[1]*u[1] + K[3]]
        ex.append(e)
    der = {}
    for N, dp, di in combos:
        tag = "N=%d%s%s " % (N, " dq_dp" if dp else "", " dq_dintrinsics" if di else "")
        if focus is not None and focus >= N: continue
        p = run.buf("p", sub([x for q in P[:N] for x in q]))
        q = run.buf("q", 2*NMAX); Jp = run.buf("Jp", 6*NMAX); Ji = run.buf("Ji", 2*NI*NMAX)
        r = run.call("mrcal_project", q, Jp if dp else None, Ji if di else None, p, N, M, intr, ret="bool")
        out.append(true(tag + "succeeds", bool(r)))
        qv, Jpv, Jiv = q.ds(2*NMAX), Jp.ds(6*NMAX), Ji.ds(2*NI*NMAX)
        for i in range(N):
            if focus not in (None, i): continue
            out += eqs(tag + "q[%d]" % i, qv[2*i:2*i + 2], sub(ex[i]))
            # the gradient can be evaluated with the point
            if dp:
                if (i, 0) not in der: der[i, 0] = sub(jac(ex[i], P[i]))
                out += eqs(tag + "dq_dp[%d]" % i, Jpv[6*i:6*i + 6], der[i, 0])
            if di:
                if (i, 1) not in der: der[i, 1] = sub(jac(ex[i], K[:NI]))
                e = der[i, 1]
                g = Jiv[2*NI*i:2*NI*i + 2*NI]
                if lens == "CAHVORE":
                    sel = [a*NI + b for a in range(2) for b in range(9)]
                    e = [e[s] for s in sel]; g = [g[s] for s in sel]
                out += eqs(tag + "dq_dintrinsics[%d]" % i, g, e)
        out.append(true(tag + "nothing else is written", all(x is None for x in qv[2*N:] + Jpv[6*N*dp:] + Jiv[2*NI*N*di:])))
    return out
  return hh
def hfail(lens, lin):
  NI = 4 + ND[lens]
  def hh(run):
    out = []
    M = run.mem("model", OFF["size"], {0: ("i", lens_enum()[lens]), OFF["lin"]: ("d", LIN)})
    intr = run.buf("intrinsics", K[:9] + [ZERO]*3)
    for dp in (0, 1):
        for di in (0, 1):
            tag = "cannot be projected,%s%s " % (" dq_dp" if dp else "", " dq_dintrinsics" if di else "")
            q = run.buf("q", 2); Jp = run.buf("Jp", 6); Ji = run.buf("Ji", 2*NI)
            run.call("mrcal_project", q, Jp if dp else None, Ji if di else None, run.buf("p", P[0]), 1, M, intr, ret="bool")
            out += eqs(tag + "q", q.ds(2), [ZERO]*2)
            if dp: out += eqs(tag + "dq_dp", Jp.ds(6), [ZERO]*6)
            if di: out += eqs(tag + "dq_dintrinsics, distortions", [x for i in range(2) for x in Ji.ds(2*NI)[i*NI + 4:i*NI + NI]], [ZERO]*(2*ND[lens]))
    return out
  return hh
OFF = {}
def gen(lens, lin):
    def gg(rng, n):
        e = {"i%d" % i: rng.uniform(-.2, .2) for i in range(16)}
        e.update(i0=rng.uniform(.5, 2000), i1=rng.uniform(.5, 2000), i2=rng.uniform(-10, 1000), i3=rng.uniform(-10, 1000), linearity=0.)
        if lens == "CAHVORE": e["linearity"] = lin*rng.uniform(.1, .9)
        for i in range(NMAX):
            for k in range(3): e["p%d%d" % (i, k)] = rng.uniform(-3, 3)
            if lens not in ("STEREOGRAPHIC", "LONLAT", "LATLON"): e["p%d2" % i] = abs(e["p%d2" % i]) + .5
        e["omega"] = rng.uniform(.5, 3); e["mu"] = rng.uniform(-.2, .2)
        return e
    return gg
def go(c):
    o = cconst(["sizeof(mrcal_lensmodel_t)", "offsetof(mrcal_lensmodel_t,LENSMODEL_CAHVORE__config.linearity)", "offsetof(mrcal_lensmodel_t,type)"])
    lens_enum()
    OFF.update(size=list(o.values())[0], lin=list(o.values())[1])
    M = symexec.libmods()
    jobs = []
    allc = [(N, dp, di) for N in (1, 2) for dp in (0, 1) for di in (0, 1)]
    for lens in ND:
        for lin in ((-1, 0, 1) if lens == "CAHVORE" else (0,)):
            for focus in ((0, 1) if lens.startswith("CAHV") else (None,)):
                S = subst_cahv(lens, lin, focus) if focus is not None else {}
                pre = [ne(K[0], 0), ne(K[1], 0)]
                for i in range(NMAX):
                    x, y, z = [sym.substitute(e, S) for e in P[i]]
                    if not S: pre.append(gt(dot(P[i], P[i]), 0))
                    if lens not in ("STEREOGRAPHIC", "LONLAT", "LATLON"): pre.append(ne(z, 0))
                    if lens == "CAHVORE":
                        a = axis(); w = dot([x, y, z], a) if i != focus else W; l = [s - w*t for s, t in zip([x, y, z], a)]; ln = sqrt(dot(l, l)); th = sym.atan2(ln, w)
                        pre += [gt(th, sym.lift(1e-8)), gt(dot(l, l), 0)]
                        if lin: pre += [le(th*LIN*lin, sym.PI/2)]
                if S: pre += [ne(W, 0), ne(axis()[2], 0)]
                if lens == "CAHVORE":
                    pre += [lt(LIN, sym.lift(-1e-15))] if lin < 0 else [gt(LIN, sym.lift(1e-15))] if lin > 0 else [symexec.eq(LIN, 0)]
                combos = [allc] if not S else [[x] for x in allc if x[0] > focus]
                for k, cc in enumerate(combos):
                    jobs.append(Job("%s%s/%s%d" % (lens, (" linearity<0", "", " linearity>0")[lin + 1] if lens == "CAHVORE" else "", "" if focus is None else "point %d/" % focus, k),
                                    M, h(lens, lin, cc, focus), gen(lens, lin), pre=pre, nsamples=5))
    for lin in (-1, 1):
        a = axis(); w = dot(P[0], a); l = [s - w*t for s, t in zip(P[0], a)]; th = sym.atan2(sqrt(dot(l, l)), w)
        pre = [gt(th*LIN*lin, sym.PI/2), gt(dot(l, l), 0)] + ([lt(LIN, sym.lift(-1e-15))] if lin < 0 else [gt(LIN, sym.lift(1e-15))])
        def g(rng, n, lin=lin):
            e = gen("CAHVORE", lin)(rng, n); e["linearity"] = lin*rng.uniform(2, 9); e["p00"] *= 3; return e
        jobs.append(Job("CAHVORE out of its domain, linearity%s0" % "<>"[lin > 0], M, hfail("CAHVORE", lin), g, pre=pre, nsamples=5))
    decide.run_jobs(c, jobs)
    c.bounds = dict(points="every batch of 1 and 2 points: each gives the value and derivatives of its own", values="every point and every intrinsics vector in the domain of the projection",
                    models="PINHOLE, STEREOGRAPHIC, LONLAT, LATLON, OPENCV4/5/8/12, CAHVOR, CAHVORE with E=0 (the three regimes of the linearity)",
                    gradients="every combination of dq_dp, dq_dintrinsics requested or NULL",
                    outside="SPLINED_STEREOGRAPHIC: C03. CAHVORE with E != 0: the projection is the result of an iteration with a data-dependent number of steps")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C01", "other")
