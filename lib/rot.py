"""Mathematical definitions (oracles) of rotations, over sym expressions"""
import sym
from sym import *
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def dot(a, b):
    r = ZERO
    for x, y in zip(a, b): r = r + x*y
    return r
def mv(R, x): return [dot(R[3*i:3*i+3], x) for i in range(3)]
def mtv(R, x): return [dot([R[j*3+i] for j in range(3)], x) for i in range(3)]
def mm(A, B): return [dot(A[3*i:3*i+3], [B[3*k+j] for k in range(3)]) for i in range(3) for j in range(3)]
def tr(A): return [A[3*j+i] for i in range(3) for j in range(3)]
I3 = [ONE if i == j else ZERO for i in range(3) for j in range(3)]
def vadd(a, b): return [x+y for x, y in zip(a, b)]
def vsub(a, b): return [x-y for x, y in zip(a, b)]
def vneg(a): return [-x for x in a]
def R_of_r(r):
    """Rodrigues' formula: I cos + (1-cos) n n^T + sin [n]x"""
    th = sqrt(dot(r, r)); n = [x/th for x in r]; c, s = cos(th), sin(th)
    K = [ZERO, -n[2], n[1], n[2], ZERO, -n[0], -n[1], n[0], ZERO]
    return [c*I3[3*i+j] + (ONE-c)*n[i]*n[j] + s*K[3*i+j] for i in range(3) for j in range(3)]
def rotr(r, x): return mv(R_of_r(r), x)
def jac(out, vars): return [sym.diff(o, v) for o in out for v in vars]
