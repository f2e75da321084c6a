"""The splined lens models: the B-spline surface by its definition, and obligations on the code which uses it"""
import sym, math, geom, problem
from decide import eq, true, Job, gt, lt, le, ge
from problem import Lens, lensmem, SEL
from callback import Problem, rows, scales
from rot import *
F = sym.Fraction
C = sym.const
TAN = lambda x: round(math.tan(x), 12)        # the same number for the code and for the definition, which round differently
def seg(L):
    """knots per unit of u: the field of view spans the knots which aren't in the margin"""
    t = F(TAN(math.radians(L.fov/4.)))
    return C(F(L.nx - 1 - (1 if L.order == 2 else 2))/(4*t))
def basis(n, j, x):
    """the uniform B-spline of order n: the weight of control point j of the n+1 of the segment, x in [0,1] along the segment. Truncated powers"""
    t = x + (n - j); out = ZERO
    for k in range(n - j + 1): out = out + (-1)**k*math.comb(n + 1, k)*(t - k)**n
    return out/math.factorial(n)
def segment(n, N, g):
    """the segments of a grid of N knots: [(first control point, where the segment starts)]"""
    return [(i, C(F(i + 1) if n == 3 else F(i) + F(1, 2))) for i in range(N - n)]
def cell(run, n, N, g):
    """the segment which has the grid coordinate g; the ones at the edges extend forever"""
    S = segment(n, N, g)
    for (i, b), (i1, b1) in zip(S, S[1:]):
        if run.decide(lt(g, b1)): return i, g - b
    return S[-1][0], g - S[-1][1]
def surface(L, K, cx, cy):
    """-> the two displacements"""
    (i, x), (j, y) = cx, cy; n = L.order
    bx, by = [basis(n, k, x) for k in range(n + 1)], [basis(n, k, y) for k in range(n + 1)]
    return [sum((K[4 + 2*((j + b)*L.nx + i + a) + c]*bx[a]*by[b] for b in range(n + 1) for a in range(n + 1)), ZERO) for c in range(2)]
U = [[sym.var("u%d%s" % (i, a)) for a in "xys"] for i in range(3)]
def point(i):
    """every point that isn't on the optical axis behind the camera: by its stereographic projection u, and its scale"""
    x, y, s = U[i]; r = x*x + y*y
    return [4*s*x, 4*s*y, s*(4 - r)]
GX, GY = sym.var("gridx"), sym.var("gridy")
def spec(run, L, K, i):
    """-> pixel, d pixel/d control points {index: value}, d pixel/dp"""
    x, y, s = U[i]; g = seg(L)
    gx, gy = x*g + C(F(L.nx - 1, 2)), y*g + C(F(L.ny - 1, 2))
    (a, tx), (b, ty) = cell(run, L.order, L.nx, gx), cell(run, L.order, L.ny, gy)
    d = surface(L, K, (a, tx), (b, ty)); n = L.order
    # derivatives with respect to the grid coordinates
    X, Y = sym.var("tx!"), sym.var("ty!"); ds = surface(L, K, (a, X), (b, Y)); m = {X.id: tx, Y.id: ty}
    D = [[sym.substitute(sym.diff(e, v), m)*g for v in (X, Y)] for e in ds]
    for k in range(2): D[k][k] = D[k][k] + 1
    # du/dp: u = 2 (x,y)/(|p| + z)
    p = point(i); r = x*x + y*y; mag = s*(4 + r); den = 8*s
    du = [[(2/den if k == l else ZERO) - 2*p[k]/(den*den)*(p[l]/mag + (1 if l == 2 else 0)) for l in range(3)] for k in range(2)]
    q = [K[0]*(x + d[0]) + K[2], K[1]*(y + d[1]) + K[3]]
    dqdp = [[K[k]*(D[k][0]*du[0][l] + D[k][1]*du[1][l]) for l in range(3)] for k in range(2)]
    w = [{}, {}]
    for bb in range(n + 1):
        for aa in range(n + 1):
            v = basis(n, aa, tx)*basis(n, bb, ty)
            for k in range(2): w[k][4 + 2*((b + bb)*L.nx + a + aa) + k] = K[k]*v
    for k in range(2): w[k][k] = [x, y][k] + d[k]; w[k][2 + k] = sym.ONE
    return q, w, dqdp
def intr(L): return [sym.var("i%d" % k) for k in range(L.n)]
def h_project(L, N, const=False, first=0):
  def h(run):
    out = []; K = intr(L)
    if const: K = K[:4] + [sym.var("i%d" % (4 + k % 2)) for k in range(L.nd)]
    sp = [spec(run, L, K, first + i) for i in range(N)]
    for dp, di in ((1, 1), (0, 0), (1, 0), (0, 1)):
        lm = lensmem(run, L); p = run.buf("p", [v for i in range(N) for v in point(first + i)]); k = run.buf("intrinsics", K)
        q, Jp, Ji = run.buf("q", 2*N), run.buf("dq_dp", 6*N), run.buf("dq_dintrinsics", 2*N*L.n)
        r = run.call("mrcal_project", q, Jp if dp else None, Ji if di else None, p, N, lm, k, ret="bool")
        t = "%d%d " % (dp, di)
        out.append(true(t + "succeeds", bool(r)))
        if not r: return out
        for i, (eq_, w, J) in enumerate(sp):
            for c in range(2):
                out.append(eq(t + "q[%d,%d]" % (i, c), q.d(2*i + c), eq_[c], scale=100.))
                if const: out.append(eq(t + "q[%d,%d] of a constant surface" % (i, c), q.d(2*i + c), (U[first + i][c] + K[4 + c])*K[c] + K[2 + c], scale=100.))
                if dp: out += [eq(t + "dq_dp[%d,%d,%d]" % (i, c, l), Jp.d(6*i + 3*c + l), J[c][l], scale=100.) for l in range(3)]
                if di: out += [eq(t + "dq_dintrinsics[%d,%d,%d]" % (i, c, l), Ji.d((2*i + c)*L.n + l), w[c].get(l, ZERO), scale=10.) for l in range(L.n)]
        if const: break
    return out
  return h
def gen(L):
    def g(rng, n):
        e = {"i%d" % k: rng.uniform(-.1, .1) for k in range(L.n)}
        for k in range(4): e["i%d" % k] = rng.uniform(300, 800)
        for i in range(3): e.update({"u%dx" % i: rng.uniform(-3, 3), "u%dy" % i: rng.uniform(-3, 3), "u%ds" % i: rng.uniform(.1, 3)})
        return e
    return g
UMAX = 10000
# the length of the points
ROOTS = [s*(4 + x*x + y*y) for x, y, s in U[:2]]
PRE = [gt(u[2], 0) for u in U] + [c for u in U for v in u[:2] for c in (lt(v, UMAX), gt(v, -UMAX))]
def h_smooth(n):
    """the pieces of the surface meet: in value, slope, and with cubics in curvature; the weights add up to 1"""
    def h(run):
        out = []; N = n + 3; x = sym.var("gridx"); S = segment(n, N, x)
        w = [{i + j: basis(n, j, x - b) for j in range(n + 1)} for i, b in S]
        for k, ((i, b), a0, a1) in enumerate(zip(S[1:], w, w[1:])):
            at = lambda e: sym.substitute(e, {x.id: b})
            for d in range(n):
                for j in range(N):
                    e = [z.get(j, ZERO) for z in (a0, a1)]
                    for _ in range(d): e = [sym.diff(y, x) for y in e]
                    out.append(eq("segment %d control point %d derivative %d" % (k, j, d), at(e[0]), at(e[1])))
        for k, a in enumerate(w): out.append(eq("segment %d: the weights add up to 1" % k, sum(a.values(), ZERO), 1))
        return out
    return h
def h_callback(L, ext, board):
    """the optimizer's sparse report"""
    if board:
        P = Problem(L, 1, 0, 1, 0, 0, board=[(0, -1, 0)], W=2, H=2)
        P.spacing = C(4); P.frame = [[ZERO]*3 + [C(-2), C(-2), C(1)]]; P.warp = False
        sels = [dict(core=1, distortions=1), dict(distortions=1), dict(core=1)]
    else:
        P = Problem(L, 2, 1 if ext else 0, 0, 1, 0, point=[(1, 0 if ext else -1, 0)], W=0, H=0)
        pc = point(0)
        if ext: P.ext[0] = P.ext[0][:3] + vsub(pc, mv(geom.R(*P.ext[0][:3]), P.pt[0]))
        else: P.pt[0] = pc
        sels = [dict(zip(SEL[:4], s)) for s in ((1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 1, 0), (1, 1, 0, 0), (0, 1, 0, 0))]
        sels = [s for s in sels if ext or not s["extrinsics"]]
    ci = 0 if board else 1
    def h(run):
        out = []; K = P.intr[ci]; g = seg(L)
        if board:
            sp = []
            for y in range(2):
                for x in range(2):
                    old = U[0][:]; U[0][:] = [C(2*x - 1), C(2*y - 1), C(F(1, 2))]      # (+-2,+-2,1)
                    sp.append(spec(run, L, K, 0)); U[0][:] = old
        else: sp = [spec(run, L, K, 0)]
        obs = P.bobs if board else P.pobs
        for sel in sels:
            tag = "".join(s[0] for s in SEL if sel.get(s)) + " "
            r, b, x, J, (Ns, Nm, Nj) = P.call(run, sel)
            out.append(true(tag + "succeeds", r))
            if not r or Nm != 2*len(sp): out.append(true(tag + "number of measurements", False)); return out
            o, rw = rows(J, Ns, Nm, Nj, tag); out += o
            if rw is None: return out
            lay = P.layout(sel)
            one = run.buf("ones", [sym.ONE]*Ns)
            run.call("mrcal_unpack_solver_state_vector", one, P.Nci, P.Nce, P.Nf, P.Np, P.Npf, len(P.board), problem.selections(**sel), lensmem(run, L, name="lensmodel2"))
            sc = [sym.lift(v) for v in one.ds(Ns)]
            for k, (q, w, dp) in enumerate(sp):
                for c in range(2):
                    i = 2*k + c; wt = obs[k][2]
                    out.append(eq(tag + "x[%d]" % i, x[i], (q[c] - obs[k][c])*wt, scale=100.))
                    want = {}
                    for col, (kind, blk, item, el) in enumerate(lay):
                        if blk == "intrinsics":
                            if item == ci and el in w[c]: want[col] = w[c][el]
                        elif blk == "extrinsics":
                            want[col] = sum((dp[c][l]*sym.diff(mv(geom.R(*P.ext[0][:3]), P.pt[0])[l], P.ext[0][el]) for l in range(3)), ZERO) if el < 3 else dp[c][el - 3]
                        elif blk == "points":
                            m = geom.R(*P.ext[0][:3]) if ext else IDENT
                            want[col] = sum((dp[c][l]*m[3*l + el] for l in range(3)), ZERO)
                    must = {a for a, e in want.items() if lay[a][1] == "intrinsics"}
                    out.append(true(tag + "row %d names exactly the parameters which affect the pixel" % i, {a for a in rw[i] if lay[a][1] == "intrinsics"} == must))
                    for col, e in want.items():
                        if col in rw[i]: out.append(eq(tag + "J[%d,%d]" % (i, col), rw[i][col], e*wt*sc[col], scale=100.))
                        elif e is not ZERO: out.append(eq(tag + "J[%d,%d], which is not stored" % (i, col), ZERO, e*wt*sc[col]))
        return out
    def g(rng, n):
        e = P.gen(rng)
        for k in range(4, L.n): e["i%d_%d" % (ci, k)] = rng.uniform(-.1, .1)
        e.update({"u0x": rng.uniform(-3, 3), "u0y": rng.uniform(-3, 3), "u0s": rng.uniform(.1, 3)})
        return e
    return h, g, P
IDENT = [sym.ONE, ZERO, ZERO, ZERO, sym.ONE, ZERO, ZERO, ZERO, sym.ONE]
def s_tan(run, a):
    x = run.num(a[0])
    return C(F(TAN(float(sym.evaluate(x, {}, {})))))
STUBS = dict(geom.STUBS, tan=s_tan)
def callback_jobs(M, grids):
    jobs = []
    for L in grids:
        for ext in (0, 1):
            h, g, P = h_callback(L, ext, False)
            jobs.append(Job("callback %s %s" % (L.tag, "camera away" if ext else "camera at the reference"), M, h, g, pre=PRE[:1] + PRE[3:5] + PRE[3:7] + P.pre(), nsamples=12, deadline=300, stubs=STUBS, splitint=True, roots=ROOTS[:1], hints=point(0) if ext else None))
        h, g, P = h_callback(L, 0, True)
        jobs.append(Job("callback %s board" % L.tag, M, h, g, pre=P.pre(), nsamples=4, deadline=100, stubs=STUBS, splitint=True))
    return jobs
Sp = lambda o, x, y, f: Lens("SPLINED_STEREOGRAPHIC", o, x, y, f)
GRIDS = [Sp(3, 4, 4, 100), Sp(3, 6, 5, 150), Sp(3, 5, 7, 60), Sp(2, 3, 3, 100), Sp(2, 5, 4, 200), Sp(2, 4, 6, 45)]
