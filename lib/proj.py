"""The lens models: normalized projection (before focal length and center)"""
import sym
from rot import *
def core(lens, p, k, lin=ZERO, forder=False):
    """k: the distortion parameters. forder: the same function in a form whose derivatives are simpler"""
    x, y, z = p; n = sqrt(dot(p, p))
    if lens == "STEREOGRAPHIC": return [2*x/(n + z), 2*y/(n + z)]
    if forder and lens == "LONLAT": return [sym.atan2(x, z), sym.atan2(y, sqrt(x*x + z*z))]
    if forder and lens == "LATLON": return [sym.atan2(x, sqrt(y*y + z*z)), sym.atan2(y, z)]
    if lens == "LONLAT": return [sym.atan2(x, z), sym.asin(y/n)]
    if lens == "LATLON": return [sym.asin(x/n), sym.atan2(y, z)]
    if lens in ("CAHVOR", "CAHVORE"):
        sa, ca, sb, cb = sym.sin(k[0]), sym.cos(k[0]), sym.sin(k[1]), sym.cos(k[1]); o = [sa*cb, sb, ca*cb]
        w = dot(p, o); l = [a - w*b for a, b in zip(p, o)]
        if lens == "CAHVOR":
            tau = dot(l, l)/(w*w); mu = k[2] + k[3]*tau + k[4]*tau*tau
            d = [a + mu*b for a, b in zip(p, l)]
            return [d[0]/d[2], d[1]/d[2]]
    u, v = x/z, y/z
    if lens == "PINHOLE": return [u, v]
    nd = len(k); k = list(k) + [ZERO]*12; r2 = u*u + v*v
    rad = 1 + r2*(k[0] + r2*(k[1] + r2*k[4])); den = 1 + r2*(k[5] + r2*(k[6] + r2*k[7]))
    rad = rad/den if nd > 5 else rad
    return [u*rad + 2*k[2]*u*v + k[3]*(r2 + 2*u*u) + k[8]*r2 + k[9]*r2*r2, v*rad + k[2]*(r2 + 2*v*v) + 2*k[3]*u*v + k[10]*r2 + k[11]*r2*r2]
