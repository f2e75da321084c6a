import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, itertools, problem
from decide import eq, true, Job, gt, ne
from problem import Lens, layout, lensmem, selections, SEL
B = [sym.var("b%d" % i) for i in range(400)]
def h(L, sizes, sels):
  def hh(run):
    out = []
    lm = lensmem(run, L)
    ref = {}                                    # the first element of each kind, in any of the problems: element, packed
    for (Nci, Nce, Nf, Np, Npf, Nob), sel in itertools.product(sizes, sels):
        lay = layout(L, sel, Nci, Nce, Nf, Np, Npf, Nob); N = len(lay)
        tag = "%d,%d,%d,%d,%d,%d %s" % (Nci, Nce, Nf, Np, Npf, Nob, "".join(s[0] for s in SEL if sel.get(s)))
        a = (Nci, Nce, Nf, Np, Npf, Nob, selections(**sel), lm)
        b = run.buf("b", B[:N])                 # exactly the state: an access past it is an error
        run.call("mrcal_pack_solver_state_vector", b, *a)
        p = b.ds(N)
        for k, (kind, *_) in enumerate(lay):
            if p[k] is None: out.append(true(tag + " packed[%d] written" % k, False)); return out
            if kind not in ref:
                ref[kind] = (B[k], p[k])
                out.append(true("a nonzero factor for %s" % kind, ne(sym.lift(p[k]), 0)))
            b0, p0 = ref[kind]
            out.append(eq(tag + " packed[%d]: the factor of every %s" % (k, kind), (sym.lift(p[k])*b0) if run.symbolic else run.ev(sym.lift(p[k])*b0), sym.lift(p0)*B[k], rtol=1e-9))
        run.call("mrcal_unpack_solver_state_vector", b, *a)
        for k, x in enumerate(b.ds(N)): out.append(eq(tag + " unpacked[%d]" % k, x, B[k], rtol=1e-9))
        b = run.buf("b", B[:N])
        run.call("mrcal_unpack_solver_state_vector", b, *a)
        for k, (x, l) in enumerate(zip(b.ds(N), lay)):
            b0, p0 = ref[l[0]]
            out.append(eq(tag + " unpacked only[%d]" % k, (sym.lift(x)*sym.lift(p0)) if run.symbolic else run.ev(sym.lift(x)*sym.lift(p0)), b0*B[k], rtol=1e-9))
        run.call("mrcal_pack_solver_state_vector", b, *a)
        for k, x in enumerate(b.ds(N)): out.append(eq(tag + " repacked[%d]" % k, x, B[k], rtol=1e-9))
    return out
  return hh
def gen(rng, n): return {"b%d" % i: rng.uniform(.1, 3)*(rng.choice((1, 1e-3, 1e3))) for i in range(len(B))}
def go(c):
    problem.prepare()
    M = symexec.libmods()
    T = common.TIER == "thorough"
    sizes = [(1, 0, 1, 0, 0, 1), (2, 1, 2, 1, 0, 1), (2, 2, 1, 3, 1, 1), (1, 1, 0, 2, 2, 0), (0, 1, 1, 1, 0, 1), (2, 1, 0, 2, 0, 0)]
    if T: sizes += [(3, 2, 3, 4, 2, 2), (3, 3, 2, 2, 1, 5), (0, 0, 0, 0, 0, 0), (1, 3, 3, 0, 0, 0)]
    sels = [dict(zip(SEL[:5], x)) for x in itertools.product((0, 1), repeat=5)]
    lenses = [Lens(l) for l in problem.LENSES] + [Lens("SPLINED_STEREOGRAPHIC", 3, 4, 5, 100), Lens("SPLINED_STEREOGRAPHIC", 2, 5, 4, 100)]
    jobs = []
    for L in lenses:
        ss = [s for s in sizes if s[0]*L.n <= 150] if L.nx else sizes
        for z in (ss if L.nd > 9 else [None]):
            jobs.append(Job("%s%s" % (L.tag, " %s" % (z,) if z else ""), M, h(L, [z] if z else ss, sels), gen, pre=[gt(b, 0) for b in B], nsamples=2, deadline=200))
    decide.run_jobs(c, jobs)
    c.functions |= {"mrcal_pack_solver_state_vector", "mrcal_unpack_solver_state_vector"}
    c.bounds = dict(problems="%d problem sizes (up to %d cameras, frames and points) x all 32 selections of what is optimized" % (len(sizes), 3 if T else 2), lens_models="all; splined with 2 grids", values="every positive state vector; the scaling is linear")
    c.extra["explanation"] = decide.EXPL
    c.assumptions += decide.ASSUME
common.main(go, "C09", "other")
