import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, z3, ctypes, itertools
from decide import true, Job
from symexec import bv
def pairs(N): return list(itertools.combinations(range(N), 2))
only = None                                         # the pairs which may be linked; None: all
def edge(a, b):
    if only is not None and (min(a, b), max(a, b)) not in only: return z3.BitVecVal(0, 16)
    return z3.BitVec("shared_%d_%d" % (min(a, b), max(a, b)), 16)
W = 24                                              # bits of a path length: at most 7 edges of 65536 each
def linked(P): return z3.And([edge(a, b) != 0 for a, b in zip(P, P[1:])])
def length(P): return sum((z3.BitVecVal(65536, W) - z3.ZeroExt(W - 16, edge(a, b)) for a, b in zip(P, P[1:])), z3.BitVecVal(0, W))
def simple_paths(N, i):
    o = [x for x in range(1, N) if x != i]
    for k in range(len(o) + 1):
        for m in itertools.permutations(o, k): yield (0,) + m + (i,)
def harness(N, stop, order, links=None):
    def h(run):
        global only
        only = links
        got = []
        def cb(r, a):
            x = [(r.conc(q, 16) if r.symbolic else q) for q in a[:2]]
            c = r.conc(a[2], 64) if r.symbolic else a[2]
            got.append((x[0] & 0xffff, x[1] & 0xffff, c)); return 0 if len(got) == stop else 1
        f = symexec.Callback(cb, ctypes.CFUNCTYPE(ctypes.c_bool, ctypes.c_uint16, ctypes.c_uint16, ctypes.c_void_p))
        M = run.buf("shared", [edge(a, b) for a, b in pairs(N)], "h")
        ok = run.call("mrcal_traverse_sensor_links", N, M, f, None, ret="bool")
        out = []
        say = lambda what, c: out.append(true(what, bv(z3.simplify(c)) if z3.is_expr(c) and not z3.is_true(z3.simplify(c)) and not z3.is_false(z3.simplify(c)) else int(z3.is_true(z3.simplify(c))) if z3.is_expr(c) else c))
        say("false is returned exactly when the callback asks to stop", bool(ok) == (not (stop and len(got) >= stop)))
        if stop: say("nothing is reported after a stop", len(got) <= stop)
        seen = [0]; path = {0: (0,)}
        for i, j, c in got:
            say("a sensor", 0 < i < N); say("the cookie", not c)
            say("reported once", i not in seen); say("the predecessor was reported before", j in seen)
            if j not in path or i in path or not 0 < i < N: return out
            path[i] = path[j] + (i,); seen.append(i)
            say("sensor %d: linked to its predecessor" % i, edge(i, j) != 0)
            for P in simple_paths(N, i):
                if P == path[i]: continue
                say("sensor %d: no better path %s" % (i, P), z3.Implies(linked(P), z3.ULE(length(path[i]), length(P))))
        if order:
            for a, b in zip(seen[1:], seen[2:]): say("in order of the distance: %d %d" % (a, b), z3.ULE(length(path[a]), length(path[b])))
        if not (stop and len(got) >= stop):
            # what was not reported cannot be reached: no link from what was
            for i in range(N):
                if i not in seen: say("sensor %d: unreachable" % i, z3.And([edge(i, j) == 0 for j in seen]))
        elif order:
            for i in range(N):
                if i not in seen:
                    for P in simple_paths(N, i): say("sensor %d would come later: %s" % (i, P), z3.Implies(linked(P), z3.ULE(length(path[seen[-1]]), length(P))))
        return out
    return h
def gen(N):
    def g(rng, n):
        e = {}
        for a, b in pairs(N):
            k = rng.randrange(4)
            e["shared_%d_%d" % (a, b)] = 0 if k == 0 and n % 5 else rng.randrange(1, 4) if n % 3 == 0 else rng.choice((65535, 1, rng.randrange(1, 65536)))
        return e
    return g
def go(c):
    M = [symexec.module("traverse-sensor-links.c"), symexec.module("heap.cc")]; jobs = []
    T = common.TIER == "thorough"
    def add(name, N, stop, np=1, plen=8, order=True, links=None):
        for k in range(np):
            jobs.append(Job(name + (" part %d" % k if np > 1 else ""), M, harness(N, stop, order, links), gen(N), nsamples=300, deadline=780 if T else 180, reals=1, max_paths=100000, part=(k, np, plen) if np > 1 else None))
    for N in (1, 2, 3):
        for stop in range(N): add("%d sensors, stop %d" % (N, stop), N, stop)
    add("4 sensors, stop 0", 4, 0, 8)
    for s in (1, 2): add("4 sensors, stop %d" % s, 4, s, 1)
    ring = lambda N: frozenset((min(i, (i + 1) % N), max(i, (i + 1) % N)) for i in range(N))
    add("5 sensors, the links of a ring and one more", 5, 0, 8, links=ring(5) | {(1, 4)})
    add("6 sensors, the links of a ring", 6, 0, 1, links=ring(6))
    if T:
        add("4 sensors, stop 3", 4, 3, 8)
        add("5 sensors, stop 0", 5, 0, 256, 14)
    decide.run_jobs(c, jobs, timeout=840 if T else 240)
    c.bounds = dict(sensors="1 to 4 (thorough: 5)", shared="every 16-bit number of shared observations of every pair", callback="stops at any point, or never")
    c.extra["explanation"] = decide.EXPL
    c.assumptions.append("the standard library's heap algorithms are executed as inlined by clang from the installed headers")
common.main(go, "C17", "other")
