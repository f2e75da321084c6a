"""Hash-consed expression DAG over the reals: construction, differentiation, high-precision evaluation.
Floating-point operations are read as real operations (the idealization every claim of this engine states)."""
from fractions import Fraction
import math, struct
import mpmath
mpmath.mp.dps = 50

class Node:
    __slots__ = ("op", "a", "v", "id", "_d", "isint")
    def __repr__(self): return show(self, 4)
    # operators, to write specifications
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        r = ONE
        for _ in range(n): r = mul(r, s)
        return r

_tab = {}
_all = []
def _mk(op, a=(), v=None):
    k = (op, tuple(x.id for x in a), v)
    n = _tab.get(k)
    if n is None:
        n = Node(); n.op, n.a, n.v = op, tuple(a), v; n.id = len(_all); n._d = None
        n.isint = op == "trunc"
        _tab[k] = n; _all.append(n)
    return n

_cf = {}
def const(v):
    if isinstance(v, Node): return v
    if isinstance(v, float): return fromdouble(v)
    return _mk("c", (), Fraction(v))
NAN = _mk("nan"); INF = _mk("inf"); NINF = _mk("ninf")
PI = _mk("pi")
ZERO = const(0); ONE = const(1); TWO = const(2)
def var(name): return _mk("v", (), name)
def lift(x):
    return x if isinstance(x, Node) else const(x)

def _simplest(x):
    """the simplest rational which rounds to the double x"""
    f = Fraction(x)
    if f.denominator == 1 and abs(f.numerator) < 2**53: return f
    for lim in (64, 1024):
        g = f.limit_denominator(lim)
        if g != 0 and float(g) == x: return g
    g = Fraction(repr(x))
    if float(g) == x and len(repr(x).replace("-", "").replace(".", "").split("e")[0].strip("0")) <= 12: return g
    g = f.limit_denominator(20000)
    if g != 0 and float(g) == x: return g
    g = Fraction(repr(x))
    return g if float(g) == x else f

def fromdouble(x):
    """A double literal in the code is read as the number it was rounded from"""
    r = _cf.get(x)
    if r is not None and not (x == 0): return r
    if x != x: return NAN
    if x == math.inf: return INF
    if x == -math.inf: return NINF
    if x == 0: return ZERO
    # rational multiples of pi, 1/pi
    g = _simplest(x)
    r = None
    if g.denominator > 20000 and len(repr(abs(x)).replace(".", "").split("e")[0]) > 13:
        for mk, p in ((lambda q: mul(const(q), PI), math.pi), (lambda q: div(const(q), PI), 1. / math.pi)):
            h = Fraction(x / p).limit_denominator(720)
            if h != 0 and abs(float(h) * p - x) <= 4e-16 * abs(x):
                r = mk(h); break
        if r is None:
            # sqrt of a small rational
            h = Fraction(x * x).limit_denominator(64)
            if h != 0 and abs(math.sqrt(float(h)) - abs(x)) <= 3e-16 * abs(x):
                r = sqrt(const(h))
                if x < 0: r = neg(r)
    if r is None: r = const(g)
    _cf[x] = r
    return r

def isconst(n): return n.op == "c"
_special = ("nan", "inf", "ninf")

def add(a, b):
    if a.op in _special or b.op in _special: return _spec_add(a, b)
    if a.op == "c":
        if b.op == "c": return const(a.v + b.v)
        if a.v == 0: return b
    if b.op == "c" and b.v == 0: return a
    if b.op == "neg" and b.a[0] is a: return ZERO
    if a.op == "neg" and a.a[0] is b: return ZERO
    if a.id > b.id: a, b = b, a
    r = _mk("+", (a, b))
    r.isint = a_isint(a) and a_isint(b)
    return r
def a_isint(n): return n.isint or (n.op == "c" and n.v.denominator == 1)
def _spec_add(a, b):
    if a is NAN or b is NAN: return NAN
    if a.op in ("inf", "ninf") and b.op in ("inf", "ninf"):
        return a if a is b else NAN
    return a if a.op in ("inf", "ninf") else b
def neg(a):
    if a.op == "c": return const(-a.v)
    if a.op == "neg": return a.a[0]
    if a is NAN: return NAN
    if a is INF: return NINF
    if a is NINF: return INF
    r = _mk("neg", (a,)); r.isint = a.isint
    return r
def sub(a, b):
    if a is b and a.op not in _special: return ZERO
    return add(a, neg(b))
def mul(a, b):
    if a is NAN or b is NAN: return NAN
    if a.op == "c":
        if b.op == "c": return const(a.v * b.v)
        if a.v == 0: return ZERO if b.op not in _special else NAN
        if a.v == 1: return b
        if a.v == -1: return neg(b)
    if b.op == "c":
        if b.v == 0: return ZERO if a.op not in _special else NAN
        if b.v == 1: return a
        if b.v == -1: return neg(a)
    if a.op in _special or b.op in _special:
        if a.op == "c" or (a.op in _special and b.op in _special) or b.op == "c":
            sa = (a.v < 0) if a.op == "c" else a is NINF
            sb = (b.v < 0) if b.op == "c" else b is NINF
            return NINF if sa != sb else INF
        raise Unsupported("inf*symbolic")
    if a.op == "neg" and b.op == "neg": return mul(a.a[0], b.a[0])
    if a.op == "neg": return neg(mul(a.a[0], b))
    if b.op == "neg": return neg(mul(a, b.a[0]))
    if a.id > b.id: a, b = b, a
    r = _mk("*", (a, b)); r.isint = a_isint(a) and a_isint(b)
    return r
def div(a, b):
    if a is NAN or b is NAN: return NAN
    if b.op == "c":
        if b.v == 0:
            if a.op == "c":
                return NAN if a.v == 0 else (INF if a.v > 0 else NINF)
            raise DivByZero("symbolic/0")
        return mul(a, const(1 / b.v))
    if b.op in ("inf", "ninf"): return ZERO
    if a.op == "c" and a.v == 0: return ZERO
    if b.op == "neg": return neg(div(a, b.a[0]))
    return mul(a, _mk("inv", (b,)))
class Unsupported(Exception): pass
class DivByZero(Exception): pass

def _isqrt(q):
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator: return Fraction(n, d)
    return None
def sqrt(a):
    if a is NAN or a is NINF: return NAN
    if a is INF: return INF
    if a.op == "c":
        if a.v < 0: return NAN
        q = _isqrt(a.v)
        if q is not None: return const(q)
    return _mk("sqrt", (a,))
def sin(a):
    if a.op in _special: return NAN
    if a.op == "c" and a.v == 0: return ZERO
    if a.op == "neg": return neg(sin(a.a[0]))
    return _mk("sin", (a,))
def cos(a):
    if a.op in _special: return NAN
    if a.op == "c" and a.v == 0: return ONE
    if a.op == "neg": return cos(a.a[0])
    return _mk("cos", (a,))
def tan(a): return div(sin(a), cos(a))
def asin(a):
    if a.op == "c" and a.v == 0: return ZERO
    return _mk("asin", (a,))
def acos(a):
    if a.op == "c" and a.v == 1: return ZERO
    if a.op == "c" and a.v == 0: return div(PI, TWO)
    return _mk("acos", (a,))
def atan2(y, x):
    if y.op == "c" and y.v == 0 and x.op == "c" and x.v > 0: return ZERO
    if y.op == "c" and y.v == 0 and x.op == "c" and x.v < 0: return PI
    if x.op == "c" and x.v == 0 and y.op == "c" and y.v > 0: return div(PI, TWO)
    return _mk("atan2", (y, x))
def atan(y): return atan2(y, ONE)
def exp(a):
    if a.op == "c" and a.v == 0: return ONE
    if a is INF: return INF
    if a is NINF: return ZERO
    return _mk("exp", (a,))
def log(a): return _mk("log", (a,))
def trunc(a):
    if a.op == "c": return const(int(a.v))
    if a_isint(a): return a
    return _mk("trunc", (a,))
def fabs_ge0(a):  # |a| known sign handled by the executor
    return _mk("abs", (a,))

# ---------------------------------------------------------------- functions which are kept as such
class Fn:
    at0 = None                                  # the value and derivatives where all of the arguments are 0
    """a function of real arguments, given by its closed form; in the proofs it stays a symbol, along with its partial derivatives"""
    def __init__(self, name, nargs, exprs):
        self.name = name; self.p = [var("%s!%d" % (name, i)) for i in range(nargs)]; self.e = exprs(self.p); _fns[name] = self; self.m = {}
    def __call__(self, *a): return [uf(self.name, k, (), a) for k in range(len(self.e))]
    def expr(self, k, parts):
        key = (k, parts)
        if key not in self.m:
            e = self.e[k]
            for i in parts: e = diff(e, self.p[i])
            self.m[key] = e
        return self.m[key]
_fns = {}
def uf(name, k, parts, a):
    if _fns[name].expr(k, parts) is ZERO: return ZERO
    if _fns[name].at0 and len(parts) < 2 and all(lift(x) is ZERO for x in a): return const(_fns[name].at0(k, parts))
    return _mk("uf", tuple(lift(x) for x in a), (name, k, parts))
def expand(n):
    """with the closed forms of the functions"""
    memo = {}
    stack = [n]
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        todo = [c for c in t.a if c.id not in memo]
        if todo: stack.extend(todo); continue
        stack.pop()
        a = [memo[c.id] for c in t.a]
        if t.op == "uf":
            F = _fns[t.v[0]]; memo[t.id] = substitute(F.expr(t.v[1], t.v[2]), {p.id: x for p, x in zip(F.p, a)})
        else: memo[t.id] = t if all(p is q for p, q in zip(a, t.a)) else rebuild(t, a)
    return memo[n.id]
FN1 = dict(sqrt=sqrt, sin=sin, cos=cos, tan=tan, asin=asin, acos=acos, exp=exp, log=log, atan=atan)

# ---------------------------------------------------------------- differentiation
def diff(n, x, memo=None):
    """d n / d x, x a variable node. Iterative, memoized per x."""
    memo = _dmemo.setdefault(x.id, {}) if memo is None else memo
    stack = [n]
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        todo = [c for c in t.a if c.id not in memo]
        if todo: stack.extend(todo); continue
        stack.pop()
        op = t.op
        if op == "v": r = ONE if t is x else ZERO
        elif op in ("c", "pi", "trunc") or op in _special: r = ZERO
        else:
            d = [memo[c.id] for c in t.a]
            a = t.a
            if all(q is ZERO for q in d): r = ZERO
            elif op == "+": r = add(d[0], d[1])
            elif op == "neg": r = neg(d[0])
            elif op == "*": r = add(mul(d[0], a[1]), mul(a[0], d[1]))
            elif op == "inv": r = neg(mul(d[0], mul(t, t)))
            elif op == "sqrt": r = mul(mul(const(Fraction(1, 2)), d[0]), div(ONE, t))
            elif op == "sin": r = mul(d[0], cos(a[0]))
            elif op == "cos": r = neg(mul(d[0], sin(a[0])))
            elif op == "asin": r = mul(d[0], div(ONE, sqrt(sub(ONE, mul(a[0], a[0])))))
            elif op == "acos": r = neg(mul(d[0], div(ONE, sqrt(sub(ONE, mul(a[0], a[0]))))))
            elif op == "atan2":
                y, xx = a
                r = div(sub(mul(xx, d[0]), mul(y, d[1])), add(mul(xx, xx), mul(y, y)))
            elif op == "exp": r = mul(d[0], t)
            elif op == "log": r = div(d[0], a[0])
            elif op == "abs": r = mul(d[0], div(a[0], t))
            elif op == "uf":
                r = ZERO
                for i, q in enumerate(d):
                    if q is not ZERO: r = add(r, mul(q, uf(t.v[0], t.v[1], tuple(sorted(t.v[2] + (i,))), a)))
            else: raise Unsupported("diff " + op)
        memo[t.id] = r
    return memo[n.id]
_dmemo = {}

# ---------------------------------------------------------------- evaluation
def evaluate(n, env, memo=None):
    """env: var name -> mpf. Raises ZeroDivisionError/ValueError outside of the domain"""
    if memo is None: memo = {}
    stack = [n]
    mp = mpmath
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        todo = [c for c in t.a if c.id not in memo]
        if todo: stack.extend(todo); continue
        stack.pop()
        op = t.op
        a = [memo[c.id] for c in t.a]
        if op == "c": r = mp.mpf(t.v.numerator) / t.v.denominator
        elif op == "v": r = mp.mpf(env[t.v])
        elif op == "pi": r = +mp.pi
        elif op == "nan": r = mp.nan
        elif op == "inf": r = mp.inf
        elif op == "ninf": r = -mp.inf
        elif op == "+": r = a[0] + a[1]
        elif op == "*": r = a[0] * a[1]
        elif op == "neg": r = -a[0]
        elif op == "inv": r = 1 / a[0]
        elif op == "sqrt":
            if a[0] < 0: raise ValueError("sqrt of negative")
            r = mp.sqrt(a[0])
        elif op == "sin": r = mp.sin(a[0])
        elif op == "cos": r = mp.cos(a[0])
        elif op in ("asin", "acos"):
            if abs(a[0]) > 1: raise ValueError("asin/acos domain")
            r = mp.asin(a[0]) if op == "asin" else mp.acos(a[0])
        elif op == "atan2": r = mp.atan2(a[0], a[1])
        elif op == "exp": r = mp.exp(a[0])
        elif op == "log": r = mp.log(a[0])
        elif op == "trunc": r = mp.mpf(int(a[0]))
        elif op == "abs": r = abs(a[0])
        elif op == "uf":
            F = _fns[t.v[0]]; k = ("uf", t.v[0]) + tuple(c.id for c in t.a)
            e2 = memo.get(k)
            if e2 is None: e2 = memo[k] = ({p.v: x for p, x in zip(F.p, a)}, {})
            r = evaluate(F.expr(t.v[1], t.v[2]), e2[0], e2[1])
        else: raise Unsupported("eval " + op)
        memo[t.id] = r
    return memo[n.id]

def variables(n, seen=None):
    out = set(); seen = set() if seen is None else seen
    st = [n]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op == "v": out.add(t)
        st.extend(t.a)
    return out

def substitute(n, m, memo=None):
    """m: node id -> node"""
    memo = dict() if memo is None else memo
    stack = [n]
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        if t.id in m: memo[t.id] = m[t.id]; stack.pop(); continue
        todo = [c for c in t.a if c.id not in memo]
        if todo: stack.extend(todo); continue
        stack.pop()
        a = [memo[c.id] for c in t.a]
        memo[t.id] = t if all(p is q for p, q in zip(a, t.a)) else rebuild(t, a)
    return memo[n.id]
def rebuild(t, a):
    op = t.op
    if op == "+": return add(*a)
    if op == "*": return mul(*a)
    if op == "neg": return neg(*a)
    if op == "inv": return div(ONE, a[0])
    if op == "atan2": return atan2(*a)
    if op == "trunc": return trunc(*a)
    if op == "abs": return fabs_ge0(*a)
    if op == "uf": return uf(*t.v, a)
    return FN1[op](*a)

def show(n, depth=6):
    if n.op == "c": return str(n.v)
    if n.op == "v": return n.v
    if not n.a: return n.op
    if depth == 0: return "..."
    if n.op in "+*": return "(" + n.op.join(show(c, depth - 1) for c in n.a) + ")"
    return n.op + "(" + ",".join(show(c, depth - 1) for c in n.a) + ")"
