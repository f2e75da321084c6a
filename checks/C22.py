import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cbmc, decide, sym, symexec, struct, math
from decide import eq, true, Job, gt, ge, lt, le, ne
from lenses import cconst
F32 = lambda x: sym.const(struct.unpack("<f", struct.pack("<f", x))[0])
V, LO, HI = sym.var("v"), sym.var("lo"), sym.var("hi")
PI, K = sym.PI, sym.const
def formula(run, i, x):
    """gnuplot's "show palette rgbformulae", not yet clamped"""
    if i < 0: x = 1 - x; i = -i
    ab = lambda q: -q if run.decide(lt(q, 0)) else q
    h = lambda q: K(sym.Fraction(q))
    if i == 30: return K(0) if run.decide(le(x, h("1/4"))) else K(1) if run.decide(ge(x, F32(.57))) else x/F32(.32) - h("0.78125")
    if i == 31: return K(0) if run.decide(le(x, F32(.42))) else K(1) if run.decide(ge(x, F32(.92))) else 2*x - F32(.84)
    if i == 32: return 4*x if run.decide(le(x, F32(.42))) else F32(1.84) - 2*x if run.decide(le(x, F32(.92))) else x/F32(.08) - h("11.5")
    sn, cs = lambda k: sym.sin(k*x*PI/180), lambda k: sym.cos(k*x*PI/180)
    return {0: lambda: K(0), 1: lambda: h("1/2"), 2: lambda: K(1), 3: lambda: x, 4: lambda: x**2, 5: lambda: x**3, 6: lambda: x**4, 7: lambda: sym.sqrt(x), 8: lambda: sym.sqrt(sym.sqrt(x)),
            9: lambda: sn(90), 10: lambda: cs(90), 11: lambda: ab(x - h("1/2")), 12: lambda: (2*x - 1)**2, 13: lambda: sn(180), 14: lambda: ab(cs(180)), 15: lambda: sn(360), 16: lambda: cs(360),
            17: lambda: ab(sn(360)), 18: lambda: ab(cs(360)), 19: lambda: ab(sn(720)), 20: lambda: ab(cs(720)), 21: lambda: 3*x, 22: lambda: 3*x - 1, 23: lambda: 3*x - 2, 24: lambda: ab(3*x - 1),
            25: lambda: ab(3*x - 2), 26: lambda: (3*x - 1)/2, 27: lambda: (3*x - 2)/2, 28: lambda: ab((3*x - 1)/2), 29: lambda: ab((3*x - 2)/2), 33: lambda: ab(2*x - h("1/2")), 34: lambda: 2*x,
            35: lambda: 2*x - h("1/2"), 36: lambda: 2*x - 1}[i]()
OFF = {}
def h_formula(i, default=False):
  def h(run):
    a = run.buf("pixel", [V]); o = run.buf("out", 3, "b")
    hdr = lambda name, data, stride: run.mem(name, 24, {OFF["width"]: ("i", 1), OFF["height"]: ("i", 1), OFF["stride"]: ("i", stride), OFF["data"]: ("p", data)})
    ok = run.call("mrcal_apply_color_map_double", hdr("outi", o, 3), hdr("ini", a, 8), False, False, default, LO, HI, *((0, 1, 2) if default else (i, -i, 2)), ret="bool")
    x = K(0) if run.decide(le(V, LO)) else K(1) if run.decide(ge(V, HI)) else (V - LO)/(HI - LO)
    out = [true("succeeds", bool(ok))]
    for c, f in enumerate((15, 5, 7) if default else (2, -i, i)):
        y = formula(run, f, x)
        y = K(0) if run.decide(le(y, 0)) else K(1) if run.decide(ge(y, 1)) else y
        out.append(eq("channel %d" % c, o.b(c), sym.trunc(K(sym.Fraction(1, 2)) + 255*y), rtol=1e-6, scale=1.01e6))
    return out
  return h
def gen(rng, n):
    lo = rng.uniform(-5, 5); hi = lo + rng.uniform(.1, 9)
    return dict(lo=lo, hi=hi, v=lo + (hi - lo)*(rng.uniform(-.1, 1.1) if n % 3 else rng.uniform(0, 1)))
TYPES = "uint8 int8 uint16 int16 uint32 int32 uint64 int64 float double".split()
def go(c):
    T = common.TIER == "thorough"
    C = cbmc.CBMC(c, ["stereo.c"], "colormap.c", unwind=24, timeout=600 if T else 200)
    jobs = []
    for t in TYPES:
        d = ("T=" + (t if t in ("float", "double") else t + "_t"), "TNAME=" + t) + (("IS_FLOAT",) if t in ("float", "double") else ())
        for w, h in [(2, 1), (1, 2)] + ([(3, 1)] if T or "16" in t or t == "float" else []) + ([(1, 3), (2, 2)] if T else []):
            jobs.append(dict(fn="colormap", name="%s %dx%d" % (t, w, h), defs=d + ("W=%d" % w, "H=%d" % h)))
        jobs.append(dict(fn="rejects", name="%s rejects" % t, defs=d + ("W=2", "H=1")))
        lin = ("W=1", "H=1", "LINEAR", "AUTO=0")
        bits = int(t.strip("uint")) if "int" in t else 0
        if bits == 8:
            jobs.append(dict(fn="colormap", name=t + " linear", defs=d + lin))
            jobs.append(dict(fn="colormap", name=t + " linear, automatic range", defs=d + ("W=3", "H=1", "LINEAR", "AUTO=3", "SHIFT=5")))
        elif bits: jobs.append(dict(fn="colormap", name=t + " linear", defs=d + lin + ("SHIFT=%d" % (bits - 8),)))
    C.many(jobs, workers=8)
    F = ["width", "height", "stride", "data"]
    OFF.update({f: v for f, v in zip(F, cconst(["offsetof(mrcal_image_double_t,%s)" % f for f in F]).values())})
    M = symexec.libmods(["stereo.c"])
    js = [Job("formula %d" % i, M, h_formula(i), gen, pre=[lt(LO, HI)], nsamples=40, deadline=100) for i in range(37)]
    js.append(Job("default formulas", M, h_formula(0, True), gen, pre=[lt(LO, HI)], nsamples=40, deadline=100))
    decide.run_jobs(c, js)
    c.functions |= {"mrcal_apply_color_map_*", "gnuplot_color_formula"}
    c.bounds = dict(ranges="every pixel value of every type in images of up to %d pixels with padded rows; finite floating-point values up to 1e30" % (4 if T else 3),
                    linear="8-bit types: every value. Wider types: every combination of the top 8 bits", formulas="all 37 and their inverses, for every real value and range (idealized arithmetic)", formula_index="-1000000..1000000")
    c.extra["explanation"] = "CBMC on harness/colormap.c: range finding, clamping, strides, overflow, rounding. The formulas: " + decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C22")
