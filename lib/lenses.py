LENSES = ["PINHOLE","STEREOGRAPHIC","LONLAT","LATLON","OPENCV4","OPENCV5","OPENCV8","OPENCV12","CAHVOR","CAHVORE"]
def jobs(fn, splined=((4,5),(5,4),(11,8),(30,20)), extra=(), generic=None):
    out = [dict(fn=fn, name="%s/%s"%(fn,l), defs=("LENSTYPE=MRCAL_LENSMODEL_"+l,)+tuple(extra)) for l in LENSES]
    for nx,ny in splined:
        out.append(dict(fn=fn, name="%s/SPLINED_STEREOGRAPHIC_%dx%d"%(fn,nx,ny),
                        defs=("LENSTYPE=MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC","SPLINE_NX=%d"%nx,"SPLINE_NY=%d"%ny)+tuple(extra)))
    return out
_en = {}
def cconst(names, includes=("mrcal.h",)):
    """values of C integer expressions, with the current headers: {expression: int}"""
    import common, subprocess, os, hashlib
    names = list(names)
    k = hashlib.md5(repr((names, includes)).encode()).hexdigest()[:8]
    f = os.path.join(common.scratch(), "const-%s.c" % k)
    with open(f, "w") as o:
        o.write("#include <stdio.h>\n#include <stddef.h>\n" + "".join('#include "%s"\n' % i for i in includes) +
                "int main(void){" + "".join('printf("%%lld\\n",(long long)(%s));' % n for n in names) + "return 0;}\n")
    common.run(["gcc", "-w", "-I", common.src(), "-I", common.SUITESPARSE, f, "-o", f + ".x"])
    return dict(zip(names, map(int, common.run([f + ".x"]).stdout.split())))
def lens_enum():
    """{'PINHOLE': number, ...}"""
    if not _en:
        for k, v in cconst(["MRCAL_LENSMODEL_" + l for l in LENSES + ["SPLINED_STEREOGRAPHIC"]]).items(): _en[k[len("MRCAL_LENSMODEL_"):]] = v
    return _en
