"""The rotation primitives as symbols: what C04..C06 establish about them is assumed here. Every use is by the definition of the call: the matrix of a Rodrigues
vector is the function R, the composition of two rotations is the function C; derivatives are those of the functions"""
import sym, llir
from rot import *
from symexec import Ptr, NULL
from sym import uf
def _compose(p):
    a, b = p[:3], p[3:]
    ta, tb = sqrt(dot(a, a)), sqrt(dot(b, b)); h = sym.const(sym.Fraction(1, 2))
    na, nb = [x/ta for x in a], [x/tb for x in b]
    ca, sa, cb, sb = sym.cos(ta*h), sym.sin(ta*h), sym.cos(tb*h), sym.sin(tb*h)
    w = ca*cb - sa*sb*dot(na, nb); c = cross(na, nb)
    v = [sa*cb*x + ca*sb*y + sa*sb*z for x, y, z in zip(na, nb, c)]
    n = sqrt(dot(v, v)); ang = 2*sym.atan2(n, w)
    return [ang*x/n for x in v]
R = sym.Fn("R", 3, R_of_r)
def _R0(k, parts):
    i, j = divmod(k, 3)
    if not parts: return int(i == j)
    a = parts[0]
    return (j - i) % 3 == 2 and a == 3 - i - j and 1 or ((j - i) % 3 == 1 and a == 3 - i - j and -1) or 0
R.at0 = _R0
C = sym.Fn("C", 6, _compose)
def transform(rt, p): return vadd(mv(R(*rt[:3]), p), rt[3:])
def invrt(rt):
    """-> rotation vector, translation of the inverse"""
    return [-x for x in rt[:3]], vneg(mtv(R(*rt[:3]), rt[3:]))
def Rof(r, inv=False):
    """matrix of r, of -r"""
    m = R(*r); return tr(m) if inv else m
_tmp = {}
def tmp(n):
    if n not in _tmp: _tmp[n] = [sym.var("slot!%d" % i) for i in range(n)]
    return _tmp[n]
_jc = {}
def partials(key, f, args):
    """outputs of f and the matrix of derivatives with respect to its arguments, at the arguments"""
    n = len(args)
    if key not in _jc:
        t = tmp(n); o = f(t); _jc[key] = (o, [[sym.diff(x, v) for v in t] for x in o])
    o, J = _jc[key]
    m = {t.id: a for t, a in zip(tmp(n), args)}; memo = {}
    s = lambda e: sym.substitute(e, m, memo)
    return [s(x) for x in o], lambda i, j: s(J[i][j])
def rd(run, p, n, st=0):
    st = st if st > 0 else 8
    return [run.num(run.load(Ptr(p.o, p.off + k*st), llir.DBL)) for k in range(n)]
def wr(run, p, v, shape, st):
    """v: f(index...)"""
    if p.o is None: return
    import itertools
    d = [8]*len(shape)
    for i in reversed(range(len(shape) - 1)): d[i] = d[i + 1]*shape[i + 1]
    d = [s if s > 0 else x for s, x in zip(st, d)]
    for ix in itertools.product(*map(range, shape)): run.store(Ptr(p.o, p.off + sum(i*s for i, s in zip(ix, d))), llir.DBL, run.simp(sym.lift(v(*ix))))
def si(x): return x - (1 << 32) if x >> 31 else x
def s_compose_rt(run, a):
    """mrcal_compose_rt_full"""
    S = lambda *k: [si(run.conc(a[i], 32)) for i in k]
    rt0, rt1 = rd(run, a[20], 6, *S(21)), rd(run, a[22], 6, *S(23))
    i0, i1 = bool(run.conc(a[24], 1) & 1), bool(run.conc(a[25], 1) & 1)
    def f(x):
        p, q = x[:6], x[6:]
        rp, tp = (p[:3], p[3:]) if not i0 else invrt(p)
        rq, tq = (q[:3], q[3:]) if not i1 else invrt(q)
        return C(*rp, *rq) + vadd(mv(Rof(p[:3], i0), tq), tp)
    o, J = partials(("compose_rt", i0, i1), f, rt0 + rt1)
    g = [(2, 0, 0, S(3, 4)), (5, 0, 6, S(6, 7)), (8, 3, 0, S(9, 10)), (11, 3, 6, S(12, 13)), (14, 3, 3, S(15, 16)), (17, 3, 9, S(18, 19))]
    vals = [[[J(r + i, c + j) for j in range(3)] for i in range(3)] if a[k].o is not None else None for k, r, c, st in g]
    wr(run, a[0], lambda i: o[i], (6,), S(1))
    for (k, r, c, st), v in zip(g, vals):
        if v is not None: wr(run, a[k], lambda i, j, v=v: v[i][j], (3, 3), st)
def s_R_from_r(run, a):
    S = lambda *k: [si(run.conc(a[i], 32)) for i in k]
    r = rd(run, a[7], 3, *S(8))
    o, J = partials("R", lambda x: R(*x), r)
    wr(run, a[0], lambda i, j: o[3*i + j], (3, 3), S(1, 2))
    if a[3].o is not None: wr(run, a[3], lambda i, j, k: J(3*i + j, k), (3, 3, 3), S(4, 5, 6))
def s_rotate_r(run, a):
    S = lambda *k: [si(run.conc(a[i], 32)) for i in k]
    r, x = rd(run, a[8], 3, *S(9)), rd(run, a[10], 3, *S(11)); inv = bool(run.conc(a[12], 1) & 1)
    o, J = partials(("rotate_r", inv), lambda v: mv(Rof(v[:3], inv), v[3:]), r + x)
    jr = [[J(i, j) for j in range(6)] for i in range(3)]
    wr(run, a[0], lambda i: o[i], (3,), S(1)); wr(run, a[2], lambda i, j: jr[i][j], (3, 3), S(3, 4)); wr(run, a[5], lambda i, j: jr[i][3 + j], (3, 3), S(6, 7))
def s_transform_rt(run, a):
    S = lambda *k: [si(run.conc(a[i], 32)) for i in k]
    rt, x = rd(run, a[8], 6, *S(9)), rd(run, a[10], 3, *S(11)); inv = bool(run.conc(a[12], 1) & 1)
    f = (lambda v: mtv(R(*v[:3]), vsub(v[6:], v[3:6]))) if inv else (lambda v: vadd(mv(R(*v[:3]), v[6:]), v[3:6]))
    o, J = partials(("transform_rt", inv), f, rt + x)
    jr = [[J(i, j) for j in range(9)] for i in range(3)]
    wr(run, a[0], lambda i: o[i], (3,), S(1)); wr(run, a[2], lambda i, j: jr[i][j], (3, 6), S(3, 4)); wr(run, a[5], lambda i, j: jr[i][6 + j], (3, 3), S(6, 7))
def _tri(p):
    v0, v1, t = p[:3], p[3:6], p[6:]
    n2 = lambda x: dot(x, x)
    d = n2(cross(v0, v1)); l0, l1 = sqrt(n2(cross(v1, t))/d), sqrt(n2(cross(v0, t))/d)
    m = [(a*l0 + c + b*l1)/2 for a, b, c in zip(v0, v1, t)]
    return [2*sqrt(2 - 2*dot(v0, m)/sqrt(n2(v0)*n2(m)))]
E = sym.Fn("E", 9, _tri)
def s_tri(run, a):
    """_mrcal_triangulated_error: its value and derivatives are decided in C16"""
    x = rd(run, a[2], 3) + rd(run, a[3], 3) + rd(run, a[4], 3)
    o, J = partials("E", lambda v: E(*v), x)
    g = [J(0, k) for k in range(9)]
    wr(run, a[0], lambda i: g[3 + i], (3,), [0]); wr(run, a[1], lambda i: g[6 + i], (3,), [0])
    return o[0]
STUBS = dict(_mrcal_triangulated_error=s_tri, mrcal_compose_rt_full=s_compose_rt, mrcal_R_from_r_full=s_R_from_r, mrcal_rotate_point_r_full=s_rotate_r, mrcal_transform_point_rt_full=s_transform_rt)
ASSUME = "rotation and transformation primitives (R_from_r, rotate_point_r, transform_point_rt, compose_rt) are taken by their definition, as decided in C04, C05, C06; so is the error of a pair of triangulated observations, as decided in C16"
