"""Concrete inputs for a path or for a failed obligation: local search over the conditions, compiled to floating-point code.
It only proposes points. Every point is checked at 50 digits and then replayed on the real code before anything is reported."""
import math, random, time
import sym
from symexec import Cond
def _atan2(y, x): return math.atan2(y, x)
def compile_(roots):
    """[Node] -> f(list of variable values) -> list of floats; and the variable names"""
    L, memo, names = [], {}, []
    def emit(n):
        st = [n]
        while st:
            t = st[-1]
            if t.id in memo: st.pop(); continue
            todo = [c for c in t.a if c.id not in memo]
            if todo: st.extend(todo); continue
            st.pop(); a = [memo[c.id] for c in t.a]; op = t.op
            if op == "c": e = repr(float(t.v))
            elif op == "v":
                if t.v not in names: names.append(t.v)
                e = "X[%d]" % names.index(t.v)
            elif op == "pi": e = repr(math.pi)
            elif op == "+": e = "%s+%s" % (a[0], a[1])
            elif op == "*": e = "%s*%s" % (a[0], a[1])
            elif op == "neg": e = "-%s" % a[0]
            elif op == "inv": e = "1./%s" % a[0]
            elif op == "trunc": e = "float(int(%s))" % a[0]
            elif op == "abs": e = "abs(%s)" % a[0]
            elif op in ("sqrt", "sin", "cos", "asin", "acos", "exp", "log"): e = "math.%s(%s)" % (op, a[0])
            elif op == "atan2": e = "math.atan2(%s,%s)" % (a[0], a[1])
            else: e = "math.nan"
            v = "t%d" % len(memo); memo[t.id] = v; L.append(" %s=%s" % (v, e))
    roots0, roots = roots, [sym.expand(r) for r in roots]
    for r in roots: emit(r)
    src = "def f(X):\n" + "\n".join(L) + "\n return (%s,)\n" % ",".join(memo[r.id] for r in roots)
    d = {"math": math}; exec(src, d)
    return d["f"], names
def _pen(c, val):
    """penalty of a condition: 0 when it holds"""
    if isinstance(c, (int, bool)): return 0. if c else 1e6
    if c.k == "sign":
        g = val[c.a.id]
        if ((g > 0) - (g < 0)) in c.b: return 0.
        return abs(g) + 1e-30
    if c.k == "and": return _pen(c.a, val) + _pen(c.b, val)
    if c.k == "or": return min(_pen(c.a, val), _pen(c.b, val))
    if c.k == "not":
        import symexec
        if c.a.k == "sign": return _pen(Cond("sign", c.a.a, frozenset((-1, 0, 1)) - c.a.b), val)
    return 0.
def _atoms(c, out):
    if isinstance(c, (int, bool)): return
    if c.k == "sign": out.append(c.a)
    elif c.k in ("and", "or"): _atoms(c.a, out); _atoms(c.b, out)
    elif c.k == "not": _atoms(c.a, out)
def find(conds, starts, accept, budget=8., seed=1):
    """conds: all of them to hold; starts: [env]; accept(env)->bool decides exactly. -> env or None"""
    import mpmath
    at = []
    for c in conds: _atoms(c, at)
    uniq = list({n.id: n for n in at}.values())
    if not uniq: return None
    try: f, names = compile_(uniq)
    except Exception: return None
    ids = [n.id for n in uniq]
    pinned = {c.a.v for c in conds if isinstance(c, Cond) and c.k == "sign" and c.b == frozenset((0,)) and c.a.op == "v"}
    def P(X):
        try: v = f(X)
        except (ZeroDivisionError, ValueError, OverflowError): return math.inf
        if any(x != x for x in v): return math.inf
        d = dict(zip(ids, v))
        # each condition on its own scale
        return sum(min(p, 1.) + 1e-3*math.log1p(p) for p in (_pen(c, d) for c in conds) if p)
    rng = random.Random(seed); t0 = time.time()
    free = [i for i, n in enumerate(names) if n not in pinned and not n.startswith("dev_")]
    tried = 0
    ints = [i for i, n in enumerate(names) if n.startswith("int_")]
    def test(X, env):
        X = [float(round(x)) if i in ints else x for i, x in enumerate(X)]
        e = dict(env)
        for n, x in zip(names, X):
            if not isinstance(e.get(n), int): e[n] = mpmath.mpf(x)
        return e if accept(e) else None
    starts = [e for e in starts if all(n in e for n in names)]
    # widest first: random perturbations around the given points; then descent
    for rnd in range(2):
        for env in starts:
            X0 = [0. if n in pinned else float(env[n]) for n in names]
            best, bp = X0, P(X0)
            if bp == 0:
                e = test(X0, env)
                if e: return e
            if rnd == 0:
                for k in range(120):
                    s = 10 ** rng.uniform(-9, .3); one = rng.random() < .3
                    X = list(X0)
                    for i in ([rng.choice(free)] if one and free else free): X[i] += rng.gauss(0, s) * (1 if rng.random() < .5 else max(abs(X0[i]), 1e-3))
                    p = P(X)
                    if p == 0:
                        e = test(X, env)
                        if e: return e
                        tried += 1
                        if tried > 40: break
                if time.time() - t0 > budget/2: break
            elif free:
                step = .1
                for k in range(1500):
                    X = list(best); s = step * 10 ** rng.uniform(-2, .5)
                    for i in ([rng.choice(free)] if rng.random() < .4 else free): X[i] += rng.gauss(0, s)
                    p = P(X)
                    if p < bp:
                        best, bp = X, p; step = min(step*1.6, 10.)
                        if p == 0:
                            e = test(X, env)
                            if e: return e
                            bp = 1e-300; tried += 1
                    else: step = max(step*.985, 1e-12)
                    if k % 50 == 0 and time.time() - t0 > budget: return None
            if time.time() - t0 > budget: return None
    return None
