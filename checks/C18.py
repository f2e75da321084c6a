import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, decide, sym, symexec, z3
from decide import true, Job
from symexec import bv
IDX = [4, 0, 7, 2, 5, 1, 6, 3]                      # the elements, in the order in which they are inserted
C = [z3.BitVec("cost%d" % i, 47) for i in range(8)]; C2 = [z3.BitVec("newcost%d" % i, 47) for i in range(8)]
LOW = [z3.BitVec("low%d" % i, 17) for i in range(8)]            # the other fields of an element
OP = [z3.BitVec("op%d" % i, 2) for i in range(10)]
def word(cost, i): return z3.Concat(cost, LOW[i])
class Heap:
    """drives the real queue and keeps the multiset it should hold"""
    def __init__(s, run, cap):
        s.run, s.cap = run, cap; s.n = 0; s.set = []; s.cost = list(C); s.out = []
        s.nodes = run.buf("nodes", [word(C[i], i) for i in range(8)], "q"); s.b = run.buf("buffer", cap, "h")
        s.h = run.mem("heap", 16, {0: ("p", s.b), 8: ("i", 0)}); s.k = 0
    def say(s, what, c): s.out.append(true("%d %s" % (s.k, what), c))
    def check(s, what):
        s.k += 1
        rd = lambda i: s.b.raw(2*i, 2) if s.run.symbolic else int.from_bytes(s.b.rawb(2*i, 2), "little")
        size = s.h.at(8).i(0)
        s.say(what + ": the number of elements", size == len(s.set))
        s.say(what + ": the elements", size == len(s.set) and sorted(rd(i) for i in range(size)) == sorted(s.set))
        e = s.run.call("mrcal_heap_empty", s.h, s.nodes, ret="bool")
        s.say(what + ": emptiness", bool(e) == (not s.set))
    def push(s, x):
        s.run.call("mrcal_heap_push", s.h, s.nodes, x, ret="void"); s.set.append(x); s.check("push")
    def pop(s):
        x = s.run.call("mrcal_heap_pop", s.h, s.nodes, ret="int") & 0xffff
        s.say("pop: an element of the queue", x in s.set)
        if x in s.set:
            for y in s.set: s.say("pop: the minimum", bv(z3.simplify(z3.ULE(s.cost[x], s.cost[y]))) if x != y else 1)
            s.set.remove(x)
        s.check("pop")
    def change(s, which):
        """other costs, and a re-sort"""
        if not s.run.symbolic:
            for i in which: s.cost[i] = C2[i]; s.nodes.arr[symexec.GUARD + 8*i:symexec.GUARD + 8*i + 8] = s.run.bvval(word(C2[i], i)).to_bytes(8, "little")
        else:
            for i in which: s.cost[i] = C2[i]; s.nodes.o.cells[8*i] = (8, word(C2[i], i))
        s.run.call("mrcal_heap_resort", s.h, s.nodes, ret="void"); s.check("resort")
    def drain(s):
        while s.set: s.pop()
        for i in range(8):
            w = z3.simplify(word(s.cost[i], i))
            if s.run.symbolic:
                g = s.nodes.raw(8*i, 8); s.out.append(true("node %d untouched" % i, 1 if g is w else bv(z3.simplify((z3.BitVecVal(g, 64) if isinstance(g, int) else g) == w))))
            else: s.out.append(true("node %d untouched" % i, int.from_bytes(s.nodes.rawb(8*i, 8), "little") == s.run.bvval(w)))
        return s.out
def h_sort(n):
    def h(run):
        q = Heap(run, n)
        for i in range(n): q.push(IDX[i])
        return q.drain()
    return h
def h_resort(n, which):
    def h(run):
        q = Heap(run, n)
        for i in range(n): q.push(IDX[i])
        q.change([IDX[i] for i in which])
        return q.drain()
    return h
def h_ops(L, cap):
    """any sequence of L operations, chosen by the inputs"""
    def h(run):
        q = Heap(run, cap); q.check("new"); nxt = 0; changed = set()
        for k in range(L):
            if len(q.set) < cap and nxt < 8 and run.decide(bv(OP[k] == 0)): q.push(IDX[nxt]); nxt += 1
            elif q.set and run.decide(bv(OP[k] == 1)): q.pop()
            elif q.set and q.set[0] not in changed and run.decide(bv(OP[k] == 2)): x = q.set[0]; changed.add(x); q.change([x])
        return q.drain()
    return h
def gen(rng, n):
    e = {}
    small = n % 3 == 0                     # many ties
    for i in range(8):
        for p, w in (("cost", 47), ("newcost", 47), ("low", 17)): e[p + str(i)] = rng.randrange(4 if small and p != "low" else 1 << w)
    for i in range(10): e["op%d" % i] = rng.randrange(4)
    return e
def go(c):
    M = [symexec.module("heap.cc")]; jobs = []
    T = common.TIER == "thorough"
    def add(name, h, np=1):
        for k in range(np):
            jobs.append(Job(name + (" part %d" % k if np > 1 else ""), M, h, gen, nsamples=400, deadline=700 if T else 150, reals=1, max_paths=100000, part=(k, np, 8) if np > 1 else None))
    for n in (1, 2, 3, 4): add("%d insertions" % n, h_sort(n))
    add("5 insertions", h_sort(5), 4)
    for n in (2, 3): add("%d, all costs changed" % n, h_resort(n, range(n)), 1)
    for n in (4,): add("%d, all costs changed" % n, h_resort(n, range(n)), 8)
    add("4, one cost changed", h_resort(4, [2]), 4)
    add("operations", h_ops(5, 3), 8)
    if T:
        add("5, one cost changed", h_resort(5, [2]), 16)
        add("6 insertions", h_sort(6), 32)
        add("6 insertions, one cost changed", h_resort(6, [3]), 64)
        add("5, all costs changed", h_resort(5, range(5)), 64)
        add("long operations", h_ops(7, 4), 64)
    decide.run_jobs(c, jobs, timeout=800 if T else 200)
    c.bounds = dict(elements="5 (thorough: 6)", costs="every 47-bit value, with ties", operations="any sequence of 5 (thorough: 7) among insert, remove, change a cost and re-sort; then everything is removed")
    c.extra["explanation"] = decide.EXPL
    c.assumptions.append("the standard library's heap algorithms are executed as inlined by clang from the installed headers")
common.main(go, "C18", "other")
