import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, math, poly
from decide import eqs, true, Job, gt, lt, ne
from rot import *
NMAX = 3
F = [sym.var("fx"), sym.var("fy")]; C = [sym.var("cx"), sym.var("cy")]
Q = [[sym.var("q%d%d" % (i, k)) for k in range(2)] for i in range(NMAX)]
V = [[sym.var("v%d%d" % (i, k)) for k in range(3)] for i in range(NMAX)]
U = [[(q[k] - C[k])/F[k] for k in range(2)] for q in Q]
def proj(kind, v):
    x, y, z = v; n = sqrt(dot(v, v))
    if kind == "pinhole": u = [x/z, y/z]
    elif kind == "stereographic": u = [2*x/(n + z), 2*y/(n + z)]
    elif kind == "lonlat": u = [sym.atan2(x, z), sym.asin(y/n)]
    else: u = [sym.asin(x/n), sym.atan2(y, z)]
    return [F[k]*u[k] + C[k] for k in range(2)]
# what is known about the angles of pixels in the range of the projection
def angles(kind):
    """[(angle of longitude, angle of latitude)] for each point"""
    if kind == "lonlat": return [(u[0], u[1]) for u in U]
    if kind == "latlon": return [(u[1], u[0]) for u in U]
    return []
_z = {}
def zero(e):
    if e.id not in _z:
        c = poly.Ctx(limit=50000)
        try: c.scan_angles([e]); _z[e.id] = c.zero(e)
        except Exception: _z[e.id] = False
    return _z[e.id]
def stubs(kind):
    def at2(run, a):
        y, x = run.num(a[0]), run.num(a[1])
        for lon, lat in angles(kind):
            if zero(y*sym.cos(lon) - x*sym.sin(lon)) and zero(x*sym.cos(lon) + y*sym.sin(lon) - sym.cos(lat)): return lon   # cos(lat) > 0, |lon| < pi
        return sym.atan2(y, x)
    def asn(run, a):
        x = run.num(a[0])
        for lon, lat in angles(kind):
            if zero(x - sym.sin(lat)): return lat      # |lat| < pi/2
        return sym.asin(x)
    return dict(atan2=at2, asin=asn)
def h(kind, g):
  model = {"pinhole": 2, "stereographic": 3, "lonlat": 4, "latlon": 5}
  def hh(run):
    out = []
    fc = run.buf("fxycxy", F + C)
    for N in range(NMAX + 1):
        tag = "N=%d " % N
        # project
        v = run.buf("v", [x for p in V[:N] for x in p]) if N else run.buf("v", 0)
        q = run.buf("q", 2*NMAX); J = run.buf("J", 6*NMAX)
        run.call("mrcal_project_" + kind, q, J if g else None, v, N, fc)
        qv, Jv = q.ds(2*NMAX), J.ds(6*NMAX)
        for i in range(N):
            e = proj(kind, V[i])
            out += eqs(tag + "project[%d]" % i, qv[2*i:2*i + 2], e)
            if g: out += eqs(tag + "dq_dv[%d]" % i, Jv[6*i:6*i + 6], jac(e, V[i]))
        out.append(true(tag + "project writes its outputs only", all(x is None for x in qv[2*N:]) and all(x is None for x in Jv[6*N*g:])))
        # unproject, and project that
        q = run.buf("q", [x for p in Q[:N] for x in p]) if N else run.buf("q", 0)
        v = run.buf("v", 3*NMAX); J = run.buf("J", 6*NMAX)
        run.call("mrcal_unproject_" + kind, v, J if g else None, q, N, fc)
        vv, Jv = v.ds(3*NMAX), J.ds(6*NMAX)
        for i in range(N):
            if g and run.symbolic: out += eqs(tag + "dv_dq[%d]" % i, Jv[6*i:6*i + 6], jac(vv[3*i:3*i + 3], Q[i])) if all(x is not None for x in vv[3*i:3*i+3]) else eqs(tag + "v[%d]" % i, vv[3*i:3*i+3], [ZERO]*3)
            elif g:   # on the real code: the derivative of the documented form
                u = U[i]
                w = dict(pinhole=[u[0], u[1], ONE], stereographic=[u[0], u[1], ONE - (u[0]*u[0] + u[1]*u[1])/4],
                         lonlat=[sym.cos(u[1])*sym.sin(u[0]), sym.sin(u[1]), sym.cos(u[1])*sym.cos(u[0])],
                         latlon=[sym.sin(u[0]), sym.cos(u[0])*sym.sin(u[1]), sym.cos(u[0])*sym.cos(u[1])])[kind]
                # the vector may have any length
                if all(x is not None for x in vv[3*i:3*i+3]):
                    ratio = math.sqrt(sum(x*x for x in vv[3*i:3*i+3])) / math.sqrt(sum(float(sym.evaluate(x, run.env))**2 for x in w))
                    if abs(ratio - 1) < 1e-9: out += eqs(tag + "dv_dq[%d]" % i, Jv[6*i:6*i + 6], jac(w, Q[i]))
        out.append(true(tag + "unproject writes its outputs only", all(x is None for x in vv[3*N:]) and all(x is None for x in Jv[6*N*g:])))
        if N:
            q2 = run.buf("q2", 2*NMAX)
            run.call("mrcal_project_" + kind, q2, None, v, N, fc)
            for i in range(N): out += eqs(tag + "project(unproject(q))[%d]" % i, q2.ds(2, 16*i), Q[i])
    # the general functions
    M = run.mem("model", 32, {0: ("i", LENS[kind])})
    for N in (1, 2):
        tag = "general N=%d " % N
        q = run.buf("q", [x for p in Q[:N] for x in p]); v = run.buf("v", 3*NMAX)
        r = run.call("mrcal_unproject", v, q, N, M, fc, ret="bool")
        out.append(true(tag + "mrcal_unproject succeeds", bool(r)))
        q2 = run.buf("q2", 2*NMAX)
        r = run.call("mrcal_project", q2, None, None, v, N, M, fc, ret="bool")
        out.append(true(tag + "mrcal_project succeeds", bool(r)))
        for i in range(N): out += eqs(tag + "mrcal_project(mrcal_unproject(q))[%d]" % i, q2.ds(2, 16*i), Q[i])
    return out
  return hh
LENS = {}
def gen(kind):
    def gg(rng, n):
        e = dict(fx=rng.uniform(.5, 3000), fy=rng.uniform(.5, 3000), cx=rng.uniform(-10, 3000), cy=rng.uniform(-10, 3000))
        if n % 3 == 1: e["fx"] = -e["fx"]
        for i in range(NMAX):
            lim = {"pinhole": (3, 3), "stereographic": (6, 6), "lonlat": (3.1, 1.55), "latlon": (1.55, 3.1)}[kind]
            for k in range(2): e["q%d%d" % (i, k)] = e["c" + "xy"[k]] + e["f" + "xy"[k]] * rng.uniform(-lim[k], lim[k])
            for k in range(3): e["v%d%d" % (i, k)] = rng.uniform(-3, 3)
            if kind == "pinhole" and i: e["v%d2" % i] = abs(e["v%d2" % i]) + .1
        return e
    return gg
def go(c):
    from lenses import lens_enum
    en = lens_enum()
    for k in ("pinhole", "stereographic", "lonlat", "latlon"): LENS[k] = en[k.upper()]
    M = symexec.libmods()
    jobs = []
    for kind in ("pinhole", "stereographic", "lonlat", "latlon"):
        pre = [ne(F[0], 0), ne(F[1], 0)]
        for lon, lat in angles(kind):
            pre += [gt(lon, -sym.PI), lt(lon, sym.PI), gt(lat, -sym.PI/2), lt(lat, sym.PI/2)]
        pos = [sym.cos(lat) for lon, lat in angles(kind)]
        for i in range(NMAX):
            if kind == "pinhole": pre.append(ne(V[i][2], 0))
            else: pre.append(gt(dot(V[i], V[i]), 0))
        for g in (0, 1):
            jobs.append(Job("%s%s" % (kind, " with gradients" if g else ""), M, h(kind, g), gen(kind), pre=pre, nsamples=6, stubs=stubs(kind), positive=pos))
    decide.run_jobs(c, jobs)
    c.bounds = dict(points="every batch of 0..3 points", values="every focal length but 0; every center; every pixel within the range of the projection (longitude in (-180,180), latitude in (-90,90) degrees)",
                    models="PINHOLE, STEREOGRAPHIC, LONLAT, LATLON: their own functions and mrcal_project(), mrcal_unproject()")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME + ["atan2(k sin(a),k cos(a)) = a for k>0, |a|<pi and asin(sin(a)) = a for |a|<pi/2: the conditions are preconditions of the jobs"]
common.main(go, "C02", "other")
