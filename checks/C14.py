import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, problem, geom, proj, poly
from decide import eq, eqs, true, Job, gt, lt, ge, ne
from problem import Lens, lensmem
from lenses import lens_enum
from symexec import Ptr
from rot import *
import llir
V = lambda p, n: [sym.var("%s%d" % (p, i)) for i in range(n)]
F = sym.Fraction
FC = [sym.var(n) for n in ("fx", "fy", "cx", "cy")]
R0, R1, RR = V("a", 3), V("b", 3), V("c", 3)
# the maps
def ray(kind, q):
    """the direction, in the rectified system, of the pixel q"""
    x, y = (q[0] - FC[2])/FC[0], (q[1] - FC[3])/FC[1]
    return [x, y, ONE] if kind == "PINHOLE" else [sym.sin(x), sym.cos(x)*sym.sin(y), sym.cos(x)*sym.cos(y)]
def project(L, k, p):
    u = proj.core(L.name, p, k[4:])
    return [k[0]*u[0] + k[2], k[1]*u[1] + k[3]]
def h_maps(kind, Ls, W, H, rr, rc):
  K = [V("k%d_" % c, L.n) for c, L in enumerate(Ls)]
  def h(run):
    out = []
    size = run.buf("imagersize_rectified", [W, H], "i"); maps = run.buf("maps", 4*W*H + 2, "f")
    m = [lensmem(run, L, name="lensmodel%d" % c) for c, L in enumerate(Ls)]
    k = [run.buf("intrinsics%d" % c, K[c]) for c in range(2)]; r = [run.buf("r_cam%d_ref" % c, rc[c]) for c in range(2)]
    ok = run.call("mrcal_rectification_maps", maps, m[0], k[0], r[0], m[1], k[1], r[1], lens_enum()[kind], run.buf("fxycxy", FC), size, run.buf("r_rect0_ref", rr), ret="bool")
    out.append(true("succeeds", bool(ok)))
    if not ok: return out
    for y in range(H):
        for x in range(W):
            v = ray(kind, [sym.const(x), sym.const(y)])
            p = mtv(geom.R(*rr), v)
            for c in range(2):
                e = project(Ls[c], K[c], mv(geom.R(*rc[c]), p))
                for i in range(2):
                    g = maps.f(((c*H + y)*W + x)*2 + i); n = "camera %d pixel %d,%d %s" % (c, x, y, "xy"[i])
                    out.append(true(n + " is written", False) if g is None else eq(n, g, e[i], rtol=1e-4, scale=10.))
    out.append(true("nothing else is written", all(maps.f(4*W*H + i) is None for i in range(2))))
    return out
  return h
def gen_maps(Ls, W, H):
    def g(rng, n):
        e = {"fx": rng.uniform(3, 9), "fy": rng.uniform(3, 9), "cx": rng.uniform(0, W), "cy": rng.uniform(0, H)}
        for v in "abc":
            for i in range(3): e["%s%d" % (v, i)] = rng.uniform(-.3, .3)
        for c, L in enumerate(Ls):
            for i in range(L.n): e["k%d_%d" % (c, i)] = rng.uniform(-.1, .1) if i >= 4 else rng.uniform(100, 300)
        return e
    return g
# the rectified system
T0, T1 = V("s", 3), V("t", 3)
AZ, EL, EDGE = sym.var("az0"), sym.var("el0"), sym.var("margin")
def s_r_from_R(run, a):
    """the rotation vector of a matrix: decided in C05. Here, the matrix is looked at"""
    J, s0, s1, s2, R, q0, q1 = a[2], *[geom.si(run.conc(x, 32)) for x in a[3:6]], a[6], *[geom.si(run.conc(x, 32)) for x in a[7:9]]
    q1 = q1 if q1 > 0 else 8; q0 = q0 if q0 > 0 else 3*q1
    run.rect = [run.num(run.load(Ptr(R.o, R.off + q0*i + q1*j), llir.DBL)) for i in range(3) for j in range(3)]
    geom.wr(run, a[0], lambda i: sym.var("out%d" % i), (3,), [geom.si(run.conc(a[1], 32))])
STUBS = dict(geom.STUBS, mrcal_r_from_R_full=s_r_from_R)
def unit(v): n = sqrt(dot(v, v)); return [x/n for x in v]
def h_system(r0, r1, t0, t1, ppd, fov, auto, name="mrcal_rectified_system2"):
  """auto: the center of the azimuth is to be found"""
  two = name.endswith("2")
  margin = EDGE if two else sym.const(10)
  def h(run):
    out = []
    L = Lens("PINHOLE")
    size, fc, rt, b = run.buf("imagersize_rectified", 2, "i"), run.buf("fxycxy", 4), run.buf("rt_rect0_ref", 6), run.buf("baseline", 1)
    pa, pe = [run.buf("pixels_per_deg_" + n, [sym.const(F(x))]) for n, x in zip(("az", "el"), ppd)]
    fv, z0 = run.buf("azel_fov_deg", [sym.const(F(x)) for x in fov]), run.buf("azel0_deg", [sym.ZERO if auto else AZ, EL])
    ok = run.call(name, size, fc, rt, b, pa, pe, fv, z0, *([margin] if two else []), lensmem(run, L), run.buf("intrinsics", [sym.const(x) for x in (1000, 1000, 500, 400)]),
                  run.buf("rt_cam0_ref", r0 + t0), run.buf("rt_cam1_ref", r1 + t1), lens_enum()["LATLON"], int(auto), 0, 0, 0, ret="bool")
    # the documented system, seen from the camera 0
    A, B = geom.R(*r0), geom.R(*r1)
    T = vsub(t0, mv(A, mtv(B, t1))); bb = sqrt(dot(T, T))
    x = [v/bb for v in T]
    f = [v + w for v, w in zip(mv(A, mtv(B, [ZERO, ZERO, ONE])), [ZERO, ZERO, ONE])]
    fT = dot(f, x); z = unit([v - fT*w for v, w in zip(f, x)]); y = cross(z, x)
    half = F(fov[0])/2; loose = F(1, 1000)
    small = run.decide(lt(bb, F(1, 10**6)))
    N = [round(F(fov[i])*F(ppd[i])) for i in range(2)]
    if small: return [true("no baseline: is refused", not ok)]
    if not auto:
        inside = run.decide(gt(AZ - half, margin - loose - 90)) and run.decide(lt(AZ + half, 90 - margin + loose))
        out.append(true("is refused exactly when it would look along the baseline", bool(ok) == inside))
        if not (ok and inside): return out
        az = AZ
    else:
        if not ok: return [true("is refused only when the field of view is too wide", bool(run.decide(gt(fov[0], 180 - 2*margin))))]
        az = z0.d(0)
        if az is None: return [true("the center of the azimuth is reported", False)]
        want = sym.asin(fT/sqrt(dot(f, f)))*180/sym.PI
        lo, hi = run.decide(gt(want - half, margin - loose - 90)), run.decide(lt(want + half, 90 - margin + loose))
        want = want if lo and hi else margin + half - 90 if not lo else 90 - margin - half
        out.append(eq("center of the azimuth", az, want)); az = want
    out.append(true("size of the image", size.i(0) == N[0] and size.i(1) == N[1]))
    out += [eq("pixels per degree, azimuth", pa.d(0), F(N[0])/F(fov[0])), eq("pixels per degree, elevation", pe.d(0), F(N[1])/F(fov[1]))]
    ff = [F(N[i])/F(fov[i])*180/sym.PI for i in range(2)]
    cc = [F(N[i] - 1, 2) - a*sym.PI/180*ff[i] for i, a in enumerate((az, EL))]
    out += eqs("fxycxy", fc.ds(4), ff + cc, scale=10.)
    out.append(eq("baseline", b.d(0), bb))
    M = [dot(row, [A[3*k + j] for k in range(3)]) for row in (x, y, z) for j in range(3)]
    if run.symbolic:
        if getattr(run, "rect", None) is None: return out + [true("the rotation is computed", False)]
        got = run.rect; out.append(true("the rotation is reported", [v.v if v is not None and v.op == "v" else None for v in rt.ds(3)] == ["out0", "out1", "out2"]))
    else: got = R_of_r([sym.const(F(v)) for v in rt.ds(3)]) if all(v is not None for v in rt.ds(3)) else [None]*9
    out += eqs("orientation", got, M, scale=1.)
    out += eqs("position", rt.ds(6)[3:], [dot(row, t0) for row in (x, y, z)], scale=1.)
    return out
  return h
# PINHOLE systems. The edges of the image are at the tangents a<b: so the center is at (a+b)/2, and the field of view is atan(b)-atan(a)
class Edge:
    """p, q: the tangents of half of the angles of the edges"""
    def __init__(s, p, q):
        p, q = F(p), F(q)
        s.a, s.b = a, b = sym.const(2*p/(1 - p*p)), sym.const(2*q/(1 - q*q))
        s.K = a + b; s.u = 1 + a*b
        s.cosfov = s.u*(1 - p*p)*(1 - q*q)/((1 + p*p)*(1 + q*q))
        s.s2 = 1 + s.u*(4 + s.K*s.K)/((b - a)*(b - a)); s.disc = s.K*s.K + 4*s.s2
        # what is asked of the solver: (x^2 + K x + ab)(x^2 + K x - s2)
        p, q, k = a*b, -s.s2, s.K
        s.poly = [p*q, k*(p + q), k*k + p + q, 2*k]
        s.angle = sym.acos(s.cosfov); s.mid = sym.atan2(s.K, sym.TWO)*180/sym.PI; s.fov = sym.acos(s.cosfov)*180/sym.PI
def same(x, y):
    try: return poly.Ctx(limit=20000).zero(sym.sub(x, y))
    except Exception: return False
def charpoly(A):
    """A: 4x4 -> coefficients, lowest first"""
    n = 4; M = [ZERO]*16; c = [ZERO]*4 + [ONE]
    mul = lambda X, Y: [dot(X[4*i:4*i + 4], [Y[4*k + j] for k in range(4)]) for i in range(4) for j in range(4)]
    for k in range(1, n + 1):
        M = [x + (c[n - k + 1] if i % 5 == 0 else ZERO) for i, x in enumerate(mul(A, M))]
        t = mul(A, M); c[n - k] = -(t[0] + t[5] + t[10] + t[15])/k
    return c[:4]
def s_cos(edges):
    def f(run, a):
        x = run.num(a[0])
        for e in edges:
            if same(x, e.angle): return e.cosfov
            if same(x, e.mid*sym.PI/180): return sym.TWO/sqrt(4 + e.K*e.K)
        return run.simp(sym.cos(x))
    return f
def s_tan(edges):
    def f(run, a):
        x = run.num(a[0])
        for e in edges:
            if same(x, e.mid*sym.PI/180): return e.K/2
        return run.simp(sym.tan(x))
    return f
def s_dgeev(edges):
    def f(run, a):
        i32 = lambda p: geom.si(run.conc(run.load(p, llir.IntT(32)), 32))
        n = i32(a[2])
        if n != 4: raise sym.Unsupported("dgeev_ with another size")
        run.store(a[13], llir.IntT(32), 0)
        if i32(a[12]) == -1: run.store(a[11], llir.DBL, sym.const(16)); return 0
        A = geom.rd(run, a[3], 16); c = charpoly(tr4(A))
        for e in edges:
            if all(same(x, y) for x, y in zip(c, e.poly)):
                if run.decide(ge(e.disc, 0)): d = sqrt(e.disc); r, im = [(d - e.K)/2, (-d - e.K)/2], 0
                else: r, im = [-e.K/2, -e.K/2], 1
                w = [-e.a, -e.b] + r; wi = [0, 0, im, -im]; break
        else: w, wi = [sym.const(F(1, 7))]*4, [0, 1, -1, 1]     # asked for something else: whatever that gives is looked at in the replay
        for k in range(4):
            run.store(Ptr(a[5].o, a[5].off + 8*k), llir.DBL, run.simp(w[k])); run.store(Ptr(a[6].o, a[6].off + 8*k), llir.DBL, sym.const(wi[k]))
        return 0
    return f
def sizeof(run, p, i):
    if not run.symbolic: return p.i(i)
    v = p.raw(4*i, 4)
    return v.n if isinstance(v, symexec.SI) else sym.const(geom.si(v)) if isinstance(v, int) else v
def tr4(A): return [A[4*j + i] for i in range(4) for j in range(4)]
PPD = V("ppd", 2)
def h_pinhole(ea, ee):
  ppd = PPD
  def h(run):
    out = []
    L = Lens("PINHOLE"); E = (ea, ee)
    size, fc, rt, b = run.buf("imagersize_rectified", 2, "i"), run.buf("fxycxy", 4), run.buf("rt_rect0_ref", 6), run.buf("baseline", 1)
    pa, pe = [run.buf("pixels_per_deg_" + n, [x]) for n, x in zip(("az", "el"), ppd)]
    fv, z0 = run.buf("azel_fov_deg", [e.fov for e in E]), run.buf("azel0_deg", [e.mid for e in E])
    ok = run.call("mrcal_rectified_system2", size, fc, rt, b, pa, pe, fv, z0, sym.const(5), lensmem(run, L), run.buf("intrinsics", [sym.const(x) for x in (1000, 1000, 500, 400)]),
                  run.buf("rt_cam0_ref", Z6), run.buf("rt_cam1_ref", Z6[:3] + [-ONE, ZERO, ZERO]), lens_enum()["PINHOLE"], 0, 0, 0, 0, ret="bool")
    loose = F(1, 1000)
    inside = run.decide(gt(ea.mid - ea.fov/2, 5 - loose - 90)) and run.decide(lt(ea.mid + ea.fov/2, 85 + loose))
    out.append(true("is refused exactly when it would look along the baseline", bool(ok) == inside))
    if not (ok and inside): return out
    for i, e in enumerate(E):
        cm = sym.TWO/sqrt(4 + e.K*e.K); f = ppd[i]*180/sym.PI*cm*cm
        out.append(eq("focal length " + "xy"[i], fc.d(i), f, scale=10.)); out.append(eq("center " + "xy"[i], fc.d(2 + i), -e.a*f, scale=10.))
        # the last pixel is at b
        w = (e.b - e.a)*f; n = sizeof(run, size, i)
        out.append(eq("size of the image " + "xy"[i], n, (sym.trunc(w + F(1, 2)) if run.decide(ge(w, 0)) else sym.trunc(w - F(1, 2))) + 1))
    out += [eq("baseline", b.d(0), ONE)] + [eq("pixels per degree, " + n, x.d(0), p) for n, x, p in zip(("az", "el"), (pa, pe), ppd)]
    return out
  return h
Z6 = [ZERO]*6
# the resolution that matches the camera's
S = V("scale", 2); RM = V("m", 9)
def h_resolution(kind, L, neg, fov):
  """neg: which of the two resolutions are to be found"""
  K = V("k0_", L.n)
  def h(run):
    out = []
    ppd = [run.buf("pixels_per_deg_" + n, [S[i]]) for i, n in enumerate(("az", "el"))]
    ok = run.call("mrcal_rectified_resolution", *ppd, lensmem(run, L), run.buf("intrinsics", K), run.buf("azel_fov_deg", [sym.const(F(x)) for x in fov]), run.buf("azel0_deg", [AZ, EL]),
                  run.buf("R_cam0_rect0", RM), lens_enum()[kind], ret="bool")
    out.append(true("succeeds", bool(ok)))
    if not ok: return out
    th = V("th", 2); to = {th[0].id: AZ*sym.PI/180, th[1].id: EL*sym.PI/180}
    a, e = th
    v = dict(PINHOLE=[sym.sin(a)/sym.cos(a), sym.sin(e)/sym.cos(e), ONE], LATLON=[sym.sin(a), sym.cos(a)*sym.sin(e), sym.cos(a)*sym.cos(e)], LONLAT=[sym.cos(e)*sym.sin(a), sym.sin(e), sym.cos(e)*sym.cos(a)])[kind]
    q = project(L, K, mv(RM, v))
    for i, n in enumerate(("az", "el")):
        d = [sym.substitute(sym.diff(x, th[i]), to) for x in q]
        want = S[i]
        if neg[i]: want = -S[i]*sqrt(dot(d, d))*sym.PI/180
        if kind != "PINHOLE":
            w = want*F(fov[i]); h2 = sym.const(F(1, 2))
            want = (sym.trunc(w + h2) if run.decide(ge(w, 0)) else sym.trunc(w - h2))/F(fov[i])
        out.append(eq("pixels per degree, " + n, ppd[i].d(0), want))
    return out
  return h
def gen_resolution(L, neg):
    def g(rng, n):
        e = {"az0": rng.uniform(-20, 20), "el0": rng.uniform(-20, 20)}
        for i in range(2): e["scale%d" % i] = rng.uniform(.3, 1.5)*(-1 if neg[i] else 8)
        for i in range(9): e["m%d" % i] = (i % 4 == 0) + rng.uniform(-.2, .2)
        for i in range(L.n): e["k0_%d" % i] = rng.uniform(-.1, .1) if i >= 4 else rng.uniform(500, 900)
        return e
    return g
def gen_system(rng, n):
    e = {"az0": rng.uniform(-20, 20), "el0": rng.uniform(-20, 20), "margin": rng.uniform(5, 20)}
    for v in "ab":
        for i in range(3): e["%s%d" % (v, i)] = rng.uniform(-.3, .3)
    for v in "st":
        for i in range(3): e["%s%d" % (v, i)] = rng.uniform(-2, 2)
    if rng.random() < .3: e["az0"] = rng.uniform(-90, 90)
    return e
def go(c):
    problem.prepare(); symexec.CONSTSIGN = True
    M = symexec.libmods(["stereo.c"])
    T = common.TIER == "thorough"
    jobs = []
    Z = [ZERO]*3
    for kind in ("LATLON", "PINHOLE"):
        def add(tag, Ls, W, H, rr=RR, rc=(R0, R1)):
            Ls = [Lens(l) for l in Ls]
            jobs.append(Job("maps %s %s %dx%d%s" % (kind, "+".join(l.name for l in Ls), W, H, tag), M, h_maps(kind, Ls, W, H, rr, rc), gen_maps(Ls, W, H), pre=[gt(v, 0) for v in FC[:2]], positive=FC[:2], nsamples=4, deadline=200, stubs=geom.STUBS, rtol=1e-4))
        add("", ("PINHOLE", "PINHOLE"), 3, 2)
        add("", ("PINHOLE", "PINHOLE"), 1, 4)
        add("", ("LATLON", "STEREOGRAPHIC"), 2, 3)
        add("", ("LONLAT", "PINHOLE"), 2, 2)
        add(" rectified=reference", ("OPENCV4", "PINHOLE"), 2, 2, rr=Z)
        add(" camera 0=reference", ("OPENCV8", "CAHVOR"), 1, 1, rr=Z, rc=(Z, Z))
    def adds(tag, *a, **k): jobs.append(Job("system " + tag, M, h_system(*a, **k), gen_system, nsamples=6, deadline=250, stubs=STUBS))
    adds("camera 0 at the reference", Z, R1, Z, T1, ("10", "15/2"), ("60", "40"), False)
    adds("camera 0 not rotated", Z, R1, T0, T1, ("10", "15/2"), ("60", "40"), False)
    adds("cameras not rotated, rounding", Z, Z, T0, T1, ("7/4", "7/8"), ("221/4", "99/2"), False)
    adds("camera 1 at the reference", R0, Z, T0, Z, ("10", "15/2"), ("60", "40"), False)
    adds("any", R0, R1, T0, T1, ("10", "15/2"), ("60", "40"), False)
    for fov in ("60", "120", "150"):
        adds("centered, cameras not rotated, fov %s" % fov, Z, Z, T0, T1, ("10", "15/2"), (fov, "40"), True)
        adds("centered, camera 0 at the reference, fov %s" % fov, Z, R1, Z, T1, ("10", "15/2"), (fov, "40"), True)
    adds("legacy", Z, R1, T0, T1, ("10", "15/2"), ("60", "40"), False, name="mrcal_rectified_system")
    edges = [Edge(*x) for x in (("-1/3", "1/3"), ("-1/4", "1/2"), ("-2/3", "2/3"), ("1/10", "3/5"), ("-1/2", "-1/8"), ("-3/5", "1/2"), ("-1/10", "9/10"))]
    for k, e in enumerate(edges):
        E = (e, edges[(k + 3) % len(edges)])
        jobs.append(Job("pinhole system %d" % k, M, h_pinhole(*E), lambda rng, n: {"ppd0": rng.uniform(5, 30), "ppd1": rng.uniform(5, 30)}, pre=[gt(x, 1) for x in PPD], positive=PPD, nsamples=5, deadline=200, stubs=dict(STUBS, dgeev_=s_dgeev(E), cos=s_cos(E), tan=s_tan(E))))
    for kind in ("PINHOLE", "LATLON", "LONLAT"):
        for l in ("PINHOLE", "OPENCV4", "STEREOGRAPHIC"):
            for neg in ((1, 1), (1, 0), (0, 1), (0, 0)):
                if l != "PINHOLE" and neg != (1, 1): continue
                L = Lens(l)
                jobs.append(Job("resolution %s %s %d%d" % (kind, l, *neg), M, h_resolution(kind, L, neg, ("60", "40")), gen_resolution(L, neg), pre=[(lt if n else gt)(x, 0) for n, x in zip(neg, S)], nsamples=5, deadline=200, stubs=geom.STUBS))
    decide.run_jobs(c, jobs)
    c.functions |= {"compute_pinhole_cxy", "roots_real_polynomial", "mrcal_rectification_maps", "set_rectification_map_pixel", "mrcal_project", "mrcal_rotate_point_R_full", "mrcal_rectified_system2", "mrcal_rectified_system", "mrcal_rectified_resolution", "mrcal_compose_Rt_full", "mrcal_invert_Rt_full"}
    c.bounds = dict(maps="both rectified models; rectified images up to 3x2, 2x3, 1x4; cameras of 7 lens models; every rotation (one or two of the three for some models), focal length and center",
                    system="LATLON: 7 fields of view and resolutions; every pose (some jobs: one of the cameras not rotated, or at the reference), center and margin. PINHOLE: 7 pairs of edges, every resolution above 1 pixel/degree, one pose",
                    resolution="every direction, rotation and intrinsics of PINHOLE, OPENCV4, STEREOGRAPHIC",
                    outside="splined models and CAHVORE (in maps); PINHOLE systems with other fields of view; dgeev_ (LAPACK) is stood in by the roots of the documented polynomial, when that's what it is asked for")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME + [geom.ASSUME, "mrcal_r_from_R gives the rotation vector of the matrix (C05)"]
common.main(go, "C14", "other")
