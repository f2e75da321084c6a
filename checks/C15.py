import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, math
from decide import eqs, eq, true, Job, gt, ge, lt, le, ne
from rot import *
NMAX = 3
fx, fy, cx, cy, b = [sym.var(n) for n in ("fx", "fy", "cx", "cy", "b")]
dmin, dmax = sym.var("dmin"), sym.var("dmax")
D = [sym.var("d%d" % i) for i in range(NMAX)]; Q = [[sym.var("q%d%s" % (i, k)) for k in "xy"] for i in range(NMAX)]
LENS = {}
def rays(kind, q, d):
    """the directions, in the rectified system, of the pixel q in camera 0, and of the pixel d to the left of it in camera 1; any length; and the length of the first"""
    ux0, ux1, uy = (q[0] - cx)/fx, (q[0] - cx)/fx - d/fx, (q[1] - cy)/fy
    if kind == "LATLON":
        v = lambda u: [sym.sin(u), sym.cos(u)*sym.sin(uy), sym.cos(u)*sym.cos(uy)]
        return v(ux0), v(ux1), ONE
    return [ux0, uy, ONE], [ux1, uy, ONE], sym.sqrt(ux0*ux0 + uy*uy + 1)
def geometry(tag, kind, r, q, d):
    """the point at range r along the pixel of camera 0 is seen by camera 1, b to the right, at the disparity d"""
    if r is None: return [true(tag + " written", False)]
    v0, v1, n = rays(kind, q, d)
    p = [r*x/n for x in v0]; p[0] = p[0] - b
    c = cross(p, v1)
    return [eq(tag + " reprojects[%d]" % i, x, ZERO, scale=1.) for i, x in enumerate(c) if not (x.op == "c" and x.v == 0)]
def h_sparse(kind):
  def h(run):
    out = []
    fc = run.buf("fxycxy", [fx, fy, cx, cy])
    for N in range(NMAX + 1):
        tag = "N=%d" % N
        rng = run.buf("range", NMAX)
        dd = run.buf("disparity", D[:N]) if N else run.buf("disparity", 0); qq = run.buf("qrect0", [x for q in Q[:N] for x in q]) if N else run.buf("qrect0", 0)
        ok = run.call("mrcal_stereo_range_sparse", rng, dd, qq, N, dmin, dmax, LENS[kind], fc, b, ret="bool")
        good = run.decide(lt(dmin, dmax))
        out.append(true(tag + " succeeds iff min<max", bool(ok) == good))
        rv = rng.ds(NMAX)
        if good:
            for i in range(N):
                if run.decide(le(D[i], 0)) or run.decide(lt(D[i], dmin)) or run.decide(gt(D[i], dmax)): out.append(eq(tag + " no range[%d]" % i, rv[i], ZERO))
                else: out += geometry(tag + " point %d" % i, kind, rv[i], Q[i], D[i])
        out.append(true(tag + " writes nothing else", all(x is None for x in rv[N:])))
    return out
  return h
# dense
I = lambda n: sym.var("int_" + n)
def h_dense(kind, W, H, padr, padd, full=True):
  def h(run):
    out = []
    fc = run.buf("fxycxy", [fx, fy, cx, cy])
    sr, sd = 8*(W + padr), 2*(W + padd)
    Dv = [[I("d%d_%d" % (y, x)) for x in range(W)] for y in range(H)]
    rb = run.buf("rdata", (sr // 8)*H); db = run.mem("ddata", sd*H, {sd*y + 2*x: ("h", Dv[y][x]) for y in range(H) for x in range(W)})
    hdr = lambda name, w, h, data, stride: run.mem(name, 24, {OFF["width"]: ("i", w), OFF["height"]: ("i", h), OFF["stride"]: ("i", stride), OFF["data"]: ("p", data)})
    ri = hdr("range", W, H, rb, sr); di = hdr("disparity", W, H, db, sd)
    MIN, MAX = (I("min"), I("max")) if full else (sym.const(0), sym.const(65535))
    def arg(n): return int(n.v) if n.op == "c" else symexec.SI(n, 16) if run.symbolic else int(round(run.ev(n)))
    scale, mn, mx = arg(I("scale")), arg(MIN), arg(MAX)
    ok = run.call("mrcal_stereo_range_dense", ri, di, scale, mn, mx, LENS[kind], fc, b, ret="bool")
    good = run.decide(lt(MIN, MAX))
    out.append(true("succeeds iff min<max", bool(ok) == good))
    for y in range(H):
        for x in range(sr // 8):
            r = rb.d(0, sr*y + 8*x); tag = "pixel %d,%d" % (x, y)
            if x >= W: out.append(true(tag + " padding untouched", r is None)); continue
            if not good: continue
            d = Dv[y][x]
            if run.decide(le(d, 0)) or run.decide(lt(d, MIN)) or run.decide(gt(d, MAX)): out.append(eq(tag + " no range", r, ZERO))
            else: out += geometry(tag, kind, r, [sym.const(x), sym.const(y)], d/I("scale"))
    # mismatching sizes and models are rejected
    for w2, h2 in ((W + 1, H), (W, H + 1), (H, W)):
        if (w2, h2) == (W, H): continue
        di2 = hdr("disparity2", w2, h2, db, sd)
        out.append(true("mismatching sizes %d,%d rejected" % (w2, h2), not run.call("mrcal_stereo_range_dense", ri, di2, 1, 0, 65535, LENS[kind], fc, b, ret="bool")))
    return out
  return h
def h_reject(run):
    out = []
    fc = run.buf("fxycxy", [fx, fy, cx, cy]); rng = run.buf("range", 1); dd = run.buf("d", D[:1]); qq = run.buf("q", Q[0])
    for k, v in LENS.items():
        if k in ("LATLON", "PINHOLE"): continue
        out.append(true(k + " rejected", not run.call("mrcal_stereo_range_sparse", rng, dd, qq, 1, sym.const(0), sym.const(10), v, fc, b, ret="bool")))
    out.append(true("writes nothing", rng.d(0) is None))
    return out
OFF = {}
def gen(kind, W=0, H=0):
    def gg(rng, n):
        e = dict(fx=rng.uniform(100, 3000), fy=rng.uniform(100, 3000), cx=rng.uniform(-10, 1000), cy=rng.uniform(-10, 1000), b=rng.uniform(.01, 3), dmin=rng.uniform(-3, 3), dmax=rng.uniform(50, 60))
        if n % 7 == 5: e["dmax"] = e["dmin"] - 1
        if n % 5 == 1: e["b"] = -e["b"]
        for i in range(NMAX):
            e["d%d" % i] = [rng.uniform(4, 49), rng.uniform(-5, 3), rng.uniform(61, 99), rng.uniform(4, 49)][(n + i*(1 + n//4)) % 4]
            for k in "xy": e["q%d%s" % (i, k)] = e["c" + k] + e["f" + k] * rng.uniform(-1.2, 1.2)
        if W:
            e["fx"] = rng.uniform(2, 60); e["fy"] = rng.uniform(2, 60); e["cx"] = rng.uniform(0, W); e["cy"] = rng.uniform(0, H)
            e["int_scale"] = rng.choice([1, 4, 16, 256]); e["int_min"] = rng.choice([0, 0, 1, 3]); e["int_max"] = rng.choice([65535, 200, 33000])
            if n % 11 == 10: e["int_max"] = 0
            for y in range(H):
                for x in range(W): e["int_d%d_%d" % (y, x)] = [rng.randrange(4, 199), rng.randrange(201, 65535), 0, rng.randrange(0, 3), rng.randrange(4, 65000), rng.randrange(4, 100)][(n + x + y*(1 + n//5)) % 6]
            e = {k: float(v) for k, v in e.items()}
        return e
    return gg
def go(c):
    from lenses import lens_enum, cconst
    LENS.update(lens_enum())
    F = ["width", "height", "stride", "data"]
    OFF.update({f: v for f, v in zip(F, cconst(["offsetof(mrcal_image_double_t,%s)" % f for f in F]).values())})
    M = symexec.libmods()
    jobs = []
    base = [gt(fx, 0), gt(fy, 0), ne(b, 0)]
    for kind in ("LATLON", "PINHOLE"):
        # the two rays are less than 180 degrees apart
        pre = list(base); pos = []
        if kind == "LATLON": pre += [ne(sym.sin(d/fx), 0) for d in D]
        jobs.append(Job("sparse " + kind, M, h_sparse(kind), gen(kind), pre=pre, nsamples=40, deadline=200))
        T = common.TIER == "thorough"
        for W, H, p, q, full in ((2, 1, 0, 0, 1), (1, 2, 1, 2, 1), (2, 2, 2, 1, 0), (3, 1, 1, 0, 0)) + (((2, 2, 1, 3, 1), (3, 2, 0, 1, 0), (2, 3, 1, 0, 0)) if T else ()):
            pre = list(base) + [ge(I("scale"), 1), le(I("scale"), 65535), ge(I("min"), 0), le(I("max"), 65535), le(I("min"), 65535), ge(I("max"), 0)]
            for y in range(H):
                for x in range(W):
                    d = I("d%d_%d" % (y, x)); pre += [ge(d, 0), le(d, 65535)]
                    if kind == "LATLON": pre.append(cond_or(le(d, 0), ne(sym.sin(d/I("scale")/fx), 0)))
            jobs.append(Job("dense %s %dx%d pad %d,%d%s" % (kind, W, H, p, q, "" if full else " all disparities"), M, h_dense(kind, W, H, p, q, full), gen(kind, W, H), pre=pre, nsamples=60, deadline=300))
    jobs.append(Job("other models", M, h_reject, gen("PINHOLE"), nsamples=2))
    decide.run_jobs(c, jobs)
    import cbmc
    C = cbmc.CBMC(c, ["stereo.c"], "range.c", unwind=4, timeout=200)
    C.many([dict(fn="range_sparse"), dict(fn="range_dense")], 2)
    c.bounds = dict(sparse="every batch of 0..3 points", dense="images up to 2x2 (thorough: 3x2, 2x3) with padded rows", values="every positive focal length; every center, pixel, disparity, baseline, range of disparities; every 16-bit scaled disparity, scale, min, max")
    c.extra["explanation"] = decide.EXPL
    c.bounds["not_finite"] = "CBMC: every bit pattern of the doubles, for one point and for one pixel; sin, cos and sqrt are any functions with the usual ranges"
    c.assumptions += decide.ASSUME + ["16-bit disparities are integer-valued reals in 0..65535"]
def cond_or(a, b): return symexec.cor(a, b)
common.main(go, "C15", "other")
