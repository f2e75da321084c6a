import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, problem, callback
from decide import eq, true, Job, gt, lt, le, ge
from symexec import cor, cand
from problem import Lens, lensmem, selections
V = sym.var; C = sym.const; F = sym.Fraction
class Case:
    """boards of W x H corners. free: the corners whose residuals are symbolic, the others have the given residuals; pre: the corners which are outliers already"""
    def __init__(s, nb, W, H, free, pre=(), tri=(), pretri=(), outliers=True, rest=F(1), freet=None):
        s.__dict__.update(locals()); n = nb*W*H
        s.x = []
        for k in range(n):
            for c in "xy":
                # residuals by their squares: every value of every sign (the signs are fixed)
                sg = -1 if (k + (c == "y")) % 3 == 0 else 1
                s.x.append(sg*sym.sqrt(V("%s%d" % (c, k))) if k in free else C(sg*(rest if k % 2 else F(1, 2))))
        s.X = [V("%s%d" % (c, k)) if k in free else None for k in range(n) for c in "xy"]
        s.w = [V("w%d" % k) for k in range(n)]
        s.obs = [v for k in range(n) for v in (V("qx%d" % k), V("qy%d" % k), s.w[k])]
        s.pairs = []; i0 = 0
        for st in tri:
            s.pairs += [(i0 + a, i0 + b) for a in range(len(st)) for b in range(a + 1, len(st))]; i0 += len(st)
        s.ntri = i0
        s.T = [V("t%d" % k) if freet is None or k in freet else C(1) for k in range(len(s.pairs))]
        s.tx = [(1 if k % 2 else -1)*sym.sqrt(t) for k, t in enumerate(s.T)]
        s.vars = [v for v in s.X if v is not None] + [t for t in s.T if t.op == "v"]
    def divergent(s, pretri):
        """the observations of pairs of rays that diverge; a pair isn't looked at if one of the two is marked already"""
        out = set(); i0 = 0
        for st in s.tri:
            for a in range(len(st)):
                for b in range(a + 1, len(st)):
                    if any(i0 + q in out or i0 + q in pretri for q in (a, b)): continue
                    if any(st[q][1] in DIV.values() for q in (a, b)): out |= {i0 + a, i0 + b}
            i0 += len(st)
        return out
    def pre_(s):
        return [ge(v, 0) for v in s.vars] + [lt(w, 0) if k in s.pre else gt(w, 0) for k, w in enumerate(s.w)]
    def gen(s, rng, n):
        e = {v.v: (rng.uniform(0, 2) if rng.random() < .6 else rng.uniform(0, 80)) for v in s.vars}
        for k, w in enumerate(s.w): e[w.v] = rng.uniform(.3, 2)*(-1 if k in s.pre else 1)
        for k in range(len(s.w)): e["qx%d" % k] = rng.uniform(0, 900); e["qy%d" % k] = rng.uniform(0, 900)
        return e
L = Lens("PINHOLE")
RAY = {-1: ("3/10", "2/10", 4), 0: ("-7/10", "2/10", 4), 1: ("-17/10", "2/10", 4)}
DIV = {-1: ("-3", "2/10", 4), 0: ("3", "2/10", 4)}      # diverges from the ray of the other one of the two
def h(P):
  def hh(run):
    o = callback.offsets(); nb, n = P.nb, len(P.w); nce = 2 if P.tri else 0
    f = {}
    for i in range(nb): f.update({o["board"]*i + o["board_icam.intrinsics"]: ("i", 0), o["board"]*i + o["board_icam.extrinsics"]: ("i", 0xffffffff), o["board"]*i + o["board_iframe"]: ("i", i)})
    ob = run.mem("observations_board", o["board"]*nb, f) if nb else None
    tr, k = {}, 0
    for st in P.tri:
        for j, (ce, ray) in enumerate(st):
            z = o["point_triangulated"]*k
            tr.update({z + o["point_triangulated_icam.intrinsics"]: ("i", 0), z + o["point_triangulated_icam.extrinsics"]: ("i", ce & 0xffffffff)})
            tr[z + o["flags"]] = ("b", (o["last_in_set"] if j == len(st) - 1 else 0) | (o["outlier"] if k in P.pretri else 0))
            for l in range(3): tr[z + o["point_triangulated_px"] + 8*l] = ("d", C(F(ray[l])))
            k += 1
    ot = run.mem("observations_point_triangulated", o["point_triangulated"]*k, tr) if k else None
    pool = run.buf("observations_board_pool", P.obs) if n else None
    x = run.buf("residuals", P.x + P.tx); x1 = run.buf("residuals of the second pass", [sym.ZERO]*(len(P.x) + len(P.tx)))
    xf = run.buf("x_final", len(P.x) + len(P.tx)); out = run.buf("out", 4, "i")
    ext = run.buf("rt_cam_ref", [C(v) for c in range(nce) for v in (0, 0, 0, -(c + 1), 0, 0)]) if nce else None
    fr = run.buf("rt_ref_frame", [C(F(v)) for i in range(nb) for v in (0, 0, 0, 0, 0, 5)]) if nb else None
    sel = selections(outliers=int(P.outliers), **(dict(extrinsics=1) if P.tri else dict(frames=1)))
    run.call("vf_optimize", out, xf, x, x1, len(P.x) + len(P.tx), ext, fr, 1, nce, nb, ob, nb, ot, k, pool, lensmem(run, L), run.buf("intrinsics", [C(1000), C(1000), C(500), C(400)]), run.buf("imagersizes", [1000, 800], "i"), sel, P.W, P.H)
    passes, nout, nouttri, err = [out.i(i) for i in range(4)]
    r = [true("succeeds", err == 0), true("one or two optimizations", passes in (1, 2))]
    if passes not in (1, 2) or err: return r
    # what was marked
    val = [pool.d(3*i + 2) for i in range(n)]
    if any(v is None for v in val): return [true("weights are kept", False)]
    mark = [bool(run.decide(lt(sym.lift(v), 0))) for v in val]
    for i in range(n):
        r += [eq("x of the observation %d" % i, pool.d(3*i), P.obs[3*i]), eq("y of the observation %d" % i, pool.d(3*i + 1), P.obs[3*i + 1])]
        r.append(eq("weight %d" % i, val[i], P.w[i] if i in P.pre or not mark[i] else -P.w[i]))
    tmark = []
    for i in range(k):
        z = o["point_triangulated"]*i
        b = ot.b(z + o["flags"]); tmark.append(bool(b & o["outlier"]))
        r.append(true("triangulated observation %d: only the mark may change" % i, (b | o["outlier"]) == (tr[z + o["flags"]][1] | o["outlier"]) and (tmark[-1] or i not in P.pretri)))
    sq = lambda i: P.X[i] if P.X[i] is not None else P.x[i]*P.x[i]
    inl = [i for i in range(n) if i not in P.pre]
    if not P.outliers:
        r += [true("nothing is marked", all(mark[i] == (i in P.pre) for i in range(n)) and all(t == (i in P.pretri) for i, t in enumerate(tmark))), true("one optimization", passes == 1), true("count", nout == len(P.pre))]
        return r
    # divergent pairs are outliers from the start
    div = P.divergent(P.pretri) if P.tri else set()
    good = [(j, p) for j, p in enumerate(P.pairs) if not any(a in P.pretri or a in div for a in p)]
    N = 2*len(inl) + len(good)
    var = (sum((sq(2*i) + sq(2*i + 1) for i in inl), sym.ZERO) + sum((P.T[j] for j, p in good), sym.ZERO))/N
    any5 = [gt(sq(2*i + c), 25*var) for i in inl for c in (0, 1)] + [gt(P.T[j], 25*var) for j, p in good]
    lor = lambda cs: symexec.cor(cs[0], lor(cs[1:])) if len(cs) > 1 else cs[0]
    if passes == 1:
        r.append(true("no divergent rays", not div))
        for i in inl:
            r.append(true("not marked: %d" % i, not mark[i]))
            for c in (0, 1): r.append(true("residual %d,%d is within 5 sigma" % (i, c), le(sq(2*i + c), 25*var)))
        for j, p in good: r.append(true("residual of the pair %d is within 5 sigma" % j, le(P.T[j], 25*var)))
        r.append(true("triangulated: nothing is marked", all(t == (i in P.pretri) for i, t in enumerate(tmark))))
    else:
        if not div: r.append(true("another optimization is needed: a residual is beyond 5 sigma", lor(any5)))
        for i in inl:
            a, b = sq(2*i), sq(2*i + 1)
            r.append(true("marked %d: beyond 4 sigma" % i, symexec.cor(gt(a, 16*var), gt(b, 16*var))) if mark[i] else true("not marked %d: within 4 sigma" % i, symexec.cand(le(a, 16*var), le(b, 16*var))))
        for j, p in good:
            if not any(tmark[a] for a in p): r.append(true("pair %d: within 4 sigma" % j, le(P.T[j], 16*var)))
        for i in range(k):
            if tmark[i] and i not in P.pretri and i not in div:
                cs = [gt(P.T[j], 16*var) for j, p in good if i in p]
                r.append(true("triangulated observation %d is marked: one of its pairs is beyond 4 sigma" % i, lor(cs) if cs else False))
        r.append(true("divergent rays are marked", all(tmark[i] for i in div)))
    r.append(true("the number of outliers: all that are marked", nout == sum(mark)))
    last = P.x + P.tx if passes == 1 else [sym.ZERO]*(len(P.x) + len(P.tx))
    for i, e in enumerate(last): r.append(eq("x_final[%d]" % i, xf.d(i), e))
    return r
  return hh
def go(c):
    callback.prepare()
    T = common.TIER == "thorough"
    src = os.path.join(common.VERIF, "harness", "optimize.c")
    decide.EXTRA = (src,)
    M = [symexec.module(src)] + symexec.libmods()
    jobs = []
    def add(name, P): jobs.append(Job(name, M, h(P), P.gen, pre=P.pre_(), nsamples=12, deadline=400))
    # 12 + 12 corners
    for k, (fr, pre) in enumerate([((0, 1, 23), ()), ((5, 11, 12), (0, 1)), ((3, 12, 22), (4, 23, 11)), ((7, 8), (6, 9, 10, 13)), ((13, 20), ())]):
        add("24 corners, case %d" % k, Case(2, 3, 4, fr, pre))
    for k in range(0, 24, 3) if T else (2, 14): add("24 corners, %d.." % k, Case(2, 3, 4, (k, k + 1, k + 2), ()))
    add("small residuals", Case(2, 2, 3, tuple(range(12)) if T else (0, 1, 5, 6, 11), rest=F(1, 3)))
    add("most corners are outliers", Case(1, 3, 5, (1, 2), tuple(range(3, 15))))
    add("rejection is off", Case(1, 3, 5, (1, 2), (4, 5), outliers=False))
    # triangulated points at (.3,.2,4), seen by cameras at (0,0,0), (1,0,0), (2,0,0)
    g = lambda *cams: [(ce, RAY[ce]) for ce in cams]
    add("triangulated 0", Case(1, 3, 4, (3,), tri=[g(-1, 0, 1)]))
    add("triangulated 1", Case(1, 4, 4, (0,), (5,), tri=[g(1, -1), g(0, -1, 1), g(1, 0)], pretri=(3,)))
    add("triangulated, divergent", Case(1, 3, 4, (11,), (2,), tri=[g(0, -1), [(-1, DIV[-1]), (0, RAY[0])], g(1, 0)]))
    add("triangulated, divergent 1", Case(1, 3, 4, (4,), tri=[[(-1, RAY[-1]), (0, DIV[0]), (1, RAY[1])], g(1, -1)], pretri=()))
    add("triangulated, divergent and marked", Case(1, 4, 4, (7,), tri=[[(-1, DIV[-1]), (0, RAY[0])], g(0, 1)], pretri=(0,)))
    add("triangulated, no boards", Case(0, 3, 4, (), tri=[g(-1, 0, 1)]*9 if T else [g(0, 1)]*24 + [g(-1, 0, 1)], freet=(0, 11, 24, 25, 26)))
    decide.run_jobs(c, jobs)
    c.functions |= {"mrcal_optimize", "markOutliers"}
    c.bounds = dict(corners="12 to 24 in one or two boards; 2 to 5 of them have any residual, the others a fixed one; any weights; up to 9 triangulated observations with any residuals of their pairs (27 pairs without boards); several sets of earlier outliers", passes="one pass; a second one with residuals of 0",
                    solver="stand-in for dogleg_optimize2() that returns the given residuals")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C20", "other")
