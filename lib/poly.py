"""Decides E == 0 for expressions of sym.py by normal forms: Laurent polynomials over algebraic and trigonometric atoms.

Atoms and their relations:
  v            free variable
  D  (den)     stands for a polynomial E which was divided by; eliminated by multiplying through
  S  (sqrt)    S^2 = E, S >= 0
  s, c         sine and cosine of one angle monomial; s^2 = 1 - c^2
  opaque       asin/acos/atan2/exp/log/trunc/abs of a normalized argument
A zero normal form is a proof that the expression is 0 wherever it is defined. A nonzero one proves nothing by itself."""
from fractions import Fraction
from math import gcd
import sym, time
W = 12
HALF = 1 << (W - 1)
FM = (1 << W) - 1

class Blowup(Exception): pass

class Ctx:
    def __init__(self, positive=(), limit=400000, deadline=None):
        self.atoms = []      # dict(kind, ...)
        self.key = {}
        self.memo = {}
        self.redmask = 0; self.redbias = 0
        self.allbias = 0
        self.limit = limit
        self.deadline = deadline
        self.positive = set()      # atom indices known to be positive
        self.posnodes = set(positive)
        self.anglebase = {}   # monomial -> Fraction base
        self.nodes_angles_scanned = set()

    # ---- atoms
    def atom(self, kind, key, **kw):
        k = (kind, key)
        i = self.key.get(k)
        if i is None:
            i = len(self.atoms); self.atoms.append(dict(kind=kind, idx=i, **kw)); self.key[k] = i
            sh = W * i
            self.allbias |= HALF << sh
            if kind in ("S", "s"):
                self.redmask |= HALF << sh
            self.redbias |= (HALF - 2) << sh
            if kind == "S": self.positive.add(i)
        return i
    def mono(self, i, e=1): return e << (W * i) if e >= 0 else -((-e) << (W * i))
    def exps(self, m):
        """[(atom, exponent)]"""
        b = m + self.allbias
        out = []
        i = 0
        x = b ^ self.allbias
        # fields which differ from the bias are nonzero
        while x:
            low = (x & -x).bit_length() - 1
            i = low // W
            f = (b >> (W * i)) & FM
            out.append((i, f - HALF))
            x &= ~(FM << (W * i))
        return out
    def exp_of(self, m, i):
        return (((m + self.allbias) >> (W * i)) & FM) - HALF

    # ---- polynomials: (dict mono->int, den)
    @staticmethod
    def pconst(q):
        q = Fraction(q)
        return ({0: q.numerator}, q.denominator) if q else ({}, 1)
    def pmono(self, i, e=1): return ({self.mono(i, e): 1}, 1)
    def padd(self, A, B):
        a, da = A; b, db = B
        if not a: return B
        if not b: return A
        if da == db:
            d = da; fa = fb = 1
        else:
            g = gcd(da, db); fa = db // g; fb = da // g; d = da * fa
        if len(a) < len(b): a, b, fa, fb = b, a, fb, fa
        r = dict(a) if fa == 1 else {k: v * fa for k, v in a.items()}
        for k, v in b.items():
            x = r.get(k, 0) + v * fb
            if x: r[k] = x
            else: r.pop(k, None)
        return self._norm((r, d))
    def pneg(self, A): return ({k: -v for k, v in A[0].items()}, A[1])
    def psub(self, A, B): return self.padd(A, self.pneg(B))
    def _norm(self, A):
        r, d = A
        if not r: return ({}, 1)
        if d != 1:
            g = d
            for v in r.values():
                g = gcd(g, v)
                if g == 1: break
            if g != 1:
                r = {k: v // g for k, v in r.items()}; d //= g
        return (r, d)
    def pmul(self, A, B, reduce=True):
        a, da = A; b, db = B
        if not a or not b: return ({}, 1)
        if len(a) > len(b): a, b = b, a
        if len(a) * len(b) > 60 * self.limit: raise Blowup("product %d x %d" % (len(a), len(b)))
        if self.deadline and len(a) * len(b) > 100000 and time.time() > self.deadline: raise Blowup("time")
        r = {}
        get = r.get
        for ka, va in a.items():
            for kb, vb in b.items():
                k = ka + kb
                r[k] = get(k, 0) + va * vb
        r = {k: v for k, v in r.items() if v}
        if len(r) > self.limit: raise Blowup("%d terms" % len(r))
        R = self._norm((r, da * db))
        return self.reduce(R) if reduce else R
    def ppow(self, A, n):
        r = self.pconst(1)
        for _ in range(n): r = self.pmul(r, A)
        return r
    def pscale(self, A, q):
        q = Fraction(q)
        return self._norm(({k: v * q.numerator for k, v in A[0].items()}, A[1] * q.denominator)) if q else ({}, 1)

    def reduce(self, A):
        while True:
            r, d = A
            mask, bias = self.redmask, self.redbias
            bad = [k for k in r if (k + bias) & mask]
            if not bad: return A
            if self.deadline and time.time() > self.deadline: raise Blowup("time")
            good = {k: v for k, v in r.items()}
            # group by (atom, half exponent), latest atom first
            groups = {}
            for k in bad:
                x = (k + bias) & mask
                i = (x.bit_length() - 1) // W
                e = self.exp_of(k, i); h = e // 2
                groups.setdefault((i, h), {})[k - self.mono(i, 2 * h)] = good.pop(k)
            A = (good, d)
            for (i, h), g in groups.items():
                rel = self.ppow(self.square_of(i), h)
                A = self.padd(A, self.pmul((g, d), rel, reduce=False))
            if len(A[0]) > self.limit: raise Blowup("reduce: %d terms" % len(A[0]))
    def square_of(self, i):
        a = self.atoms[i]
        return a["sq"]

    # ---- normalization helpers
    def content(self, A):
        """A = q * primitive; the sign of the lexicographically largest monomial made positive"""
        r, d = A
        g = 0
        for v in r.values(): g = gcd(g, v)
        m = max(r)
        if r[m] < 0: g = -g
        return Fraction(g, d), ({k: v // g for k, v in r.items()}, 1)
    def pkey(self, A): return (tuple(sorted(A[0].items())), A[1])
    def present(self, A):
        """atom -> (lowest, highest) exponent, of the atoms which occur"""
        x = 0; b = self.allbias
        for k in A[0]: x |= (k + b) ^ b
        out = {}
        while x:
            i = ((x & -x).bit_length() - 1) // W
            x &= ~(FM << (W * i))
            sh = W * i
            es = [((k + b) >> sh) & FM for k in A[0]]
            out[i] = (min(es) - HALF, max(es) - HALF)
        return out
    def common_mono(self, A):
        """largest monomial dividing A (also negative exponents)"""
        if len(A[0]) > 4: return sum(self.mono(i, e) for i, (e, _) in self.present(A).items() if e)
        lo = None
        for k in A[0]:
            e = dict(self.exps(k))
            if lo is None: lo = e
            else:
                for i in set(lo) | set(e):
                    lo[i] = min(lo.get(i, 0), e.get(i, 0))
        return sum(self.mono(i, e) for i, e in lo.items() if e)

    # ---- conversion
    def inv(self, A):
        if not A[0]: raise ZeroDivisionError
        if len(A[0]) == 1:
            (k, v), = A[0].items()
            return self.reduce(({-k: A[1] if v > 0 else -A[1]}, abs(v)))
        cm = self.common_mono(A)
        q, P = self.content(A)
        if cm: P = ({k - cm: v for k, v in P[0].items()}, 1)
        # 1 - c^2 = s^2 and the like: recognize squares of atoms
        for i, a in enumerate(self.atoms):
            if a["kind"] in ("S", "s"):
                q2, P2 = self.content(a["sq"]) if a["sq"][0] else (0, None)
                if P2 is not None and P2[0] == P[0]:
                    return ({self.mono(i, -2) - cm: (q2 / q).numerator}, (q2 / q).denominator)
        i = self.atom("D", self.pkey(P), poly=P)
        return self._norm(({self.mono(i, -1) - cm: q.denominator if q > 0 else -q.denominator}, abs(q.numerator)))

    def ispos_mono(self, m):
        for i, e in self.exps(m):
            if e % 2 and i not in self.positive: return False
        return True

    def clear_nonvar(self, A):
        """Simplifies sqrt arguments: eliminates D atoms where that makes A smaller. -> (num, den) polys without them"""
        return A

    def sqrt(self, A):
        if not A[0]: return A
        A = self.tidy(A)
        if not A[0]: return A
        out = self.pconst(1)
        # a single monomial
        cm = self.common_mono(A)
        # pull out even powers of atoms known positive, or of anything, if the sign is known
        pull = 0
        for i, e in self.exps(cm):
            h = e // 2 if e >= 0 else -((-e) // 2)
            if h and i in self.positive: pull += self.mono(i, h)
        if pull:
            A = ({k - 2 * pull: v for k, v in A[0].items()}, A[1])
            out = ({pull: 1}, 1)
        q, P = self.content(A)
        if q < 0: q, P = -q, self.pneg(P)
        # numeric factor: sqrt(n/d) = sqrt(n*d)/d
        nd = q.numerator * q.denominator
        f = 1; k = 2
        while k * k <= nd and k < 1000:
            while nd % (k * k) == 0: nd //= k * k; f *= k
            k += 1
        r = sym._isqrt(Fraction(nd))
        if r is not None: f *= r; nd = 1
        out = self.pscale(out, Fraction(f, q.denominator))
        if nd != 1:
            i = self.atom("S", ("n", int(nd)), sq=self.pconst(nd)); out = self.pmul(out, self.pmono(i))
        if len(P[0]) == 1:
            (k, v), = P[0].items()
            if k == 0 and v == 1: return out
        # a perfect square of a binomial/polynomial we know? E == (sum)^2 with a known sign
        i = self.find_square(P)
        if i is not None: return self.pmul(out, i)
        i = self.atom("S", self.pkey(P), sq=P)
        return self.pmul(out, self.pmono(i))
    def find_square(self, P):
        # P == Q^2 where Q is a polynomial registered as positive
        for Q in getattr(self, "pospolys", []):
            QQ = self.pmul(Q, Q)
            if not self.psub(P, QQ)[0]: return Q
            # times a root that's in there already
            if len(P[0]) < 200:
                for i, a in enumerate(self.atoms):
                    if a["kind"] != "S" or len(a["sq"][0]) < 2: continue
                    if not self.psub(P, self.pmul(QQ, a["sq"]))[0]: return self.pmul(Q, self.pmono(i))
        return None
    def assume_positive(self, node):
        """the caller knows that node > 0"""
        P = self.conv(node)
        if len(P[0]) == 1:
            (k, v), = P[0].items()
            ex = self.exps(k)
            if v > 0 and len([1 for i, e in ex if e % 2 and i not in self.positive]) == 1:
                for i, e in ex:
                    if e % 2: self.positive.add(i)
        self.pospolys = getattr(self, "pospolys", []) + [P]

    def tidy(self, A):
        """Eliminates D atoms if this makes the expression a polynomial with fewer terms; A up to equality"""
        if len(A[0]) > 400: return A
        ds = set()
        for k in A[0]:
            for i, e in self.exps(k):
                if self.atoms[i]["kind"] == "D": ds.add(i)
        for i in sorted(ds, reverse=True):
            n = min(self.exp_of(k, i) for k in A[0])
            if n >= 0: continue
            try:
                B = self.elim_D(({k - self.mono(i, n): v for k, v in A[0].items()}, A[1]), i)
            except Blowup:
                continue
            # divisible by E^j?
            E = self.atoms[i]["poly"]
            while n < 0:
                Q = self.exact_div(B, E)
                if Q is None: break
                B = Q; n += 1
            C = ({k + self.mono(i, n): v for k, v in B[0].items()}, B[1])
            if len(C[0]) <= len(A[0]): A = C
            if not A[0]: return A
        return A
    def exact_div(self, A, E):
        """Multivariate exact division by leading terms, None if not exact. Valid modulo reductions"""
        if not A[0]: return A
        lead = max(E[0]); lv = E[0][lead]
        R = A; Q = ({}, 1)
        for _ in range(300):
            if not R[0]: return Q
            m = max(R[0]); c = Fraction(R[0][m] * E[1], R[1] * lv)
            t = ({m - lead: c.numerator}, c.denominator)
            for i, e in self.exps(m - lead):
                if e < 0 and self.exp_of(m, i) >= 0: return None
            Q = self.padd(Q, t); 
            R2 = self.psub(R, self.pmul(t, E))
            if R2[0] and max(R2[0]) >= m: return None
            R = R2
        return None
    def elim_D(self, A, i):
        """A has nonnegative exponents of D_i: substitute"""
        E = self.atoms[i]["poly"]
        by = {}
        for k, v in A[0].items():
            e = self.exp_of(k, i)
            by.setdefault(e, {})[k - self.mono(i, e)] = v
        if not by: return A
        n = max(by)
        # Horner
        R = (by.get(n, {}), A[1])
        for e in range(n - 1, -1, -1):
            R = self.pmul(R, E)
            if e in by: R = self.padd(R, self.reduce((by[e], A[1])))
        return R

    # ---- angles
    def scan_angles(self, roots):
        """Finds all sin/cos arguments first, so that a base angle can be chosen for each monomial"""
        st = list(roots); seen = self.nodes_angles_scanned; found = []
        while st:
            t = st.pop()
            if t.id in seen: continue
            seen.add(t.id)
            if t.op in ("sin", "cos"): found.append(t)
            st.extend(t.a)
        # inner ones first
        found.sort(key=lambda t: t.id)
        for t in found:
            try: P = self.angle_poly(t.a[0])
            except ZeroDivisionError: continue
            for k, v in P[0].items():
                q = abs(Fraction(v, P[1]))
                b = self.anglebase.get(k)
                if b is None: self.anglebase[k] = q
                elif k not in self.basefrozen:
                    # rational gcd
                    self.anglebase[k] = Fraction(gcd(b.numerator * q.denominator, q.numerator * b.denominator), b.denominator * q.denominator)
    basefrozen = ()
    def angle_poly(self, node):
        P = self.tidy(self.conv(node))
        return P
    def sincos(self, P):
        """(sin, cos) of the sum of the monomials in P"""
        S, C = self.pconst(0), self.pconst(1)
        for k in sorted(P[0]):
            s, c = self.sincos1(k, Fraction(P[0][k], P[1]))
            S, C = self.padd(self.pmul(S, c), self.pmul(C, s)), self.psub(self.pmul(C, c), self.pmul(S, s))
        return S, C
    def sincos1(self, k, q):
        ex = self.exps(k)
        if len(ex) == 1 and ex[0][1] == 1:
            a = self.atoms[ex[0][0]]
            if a["kind"] == "pi":
                n = q * 2
                if n.denominator == 1:
                    n = int(n) % 4
                    return (self.pconst((0, 1, 0, -1)[n]), self.pconst((1, 0, -1, 0)[n]))
            if a["kind"] in ("asin", "acos", "atan2"):
                if q.denominator == 1:
                    s, c = a["sc"](); return self.multiple(s, c, int(q))
                if q.denominator == 2 and (a["kind"] == "acos" or a.get("ynonneg")):
                    # half of an angle in [0,pi]: the cosine is nonnegative; sin(t/2) = sin(t)/(2 cos(t/2))
                    S1, C1 = a["sc"]()
                    c = self.sqrt(self.pscale(self.padd(self.pconst(1), C1), Fraction(1, 2)))
                    s = self.pmul(S1, self.inv(self.pscale(c, 2)))
                    return self.multiple(s, c, int(q * 2))
        base = self.anglebase.get(k)
        if base is None: base = self.anglebase[k] = abs(q)
        n = q / base
        if n.denominator != 1: 
            base = abs(q); n = q / base
        ck = self.atom("c", (k, base)); 
        sk = self.atom("s", (k, base), sq=self.psub(self.pconst(1), self.pmono(ck, 2)))
        return self.multiple(self.pmono(sk), self.pmono(ck), int(n))
    def multiple(self, s, c, n):
        if n < 0:
            a, b = self.multiple(s, c, -n); return self.pneg(a), b
        S, C = self.pconst(0), self.pconst(1)
        for _ in range(n):
            S, C = self.padd(self.pmul(S, c), self.pmul(C, s)), self.psub(self.pmul(C, c), self.pmul(S, s))
        return S, C

    def conv(self, n):
        memo = self.memo
        stack = [n]
        while stack:
            t = stack[-1]
            if t.id in memo: stack.pop(); continue
            todo = [c for c in t.a if c.id not in memo]
            if todo: stack.extend(todo); continue
            stack.pop()
            memo[t.id] = self.conv1(t)
        return memo[n.id]
    def conv1(self, t):
        op = t.op
        a = [self.memo[c.id] for c in t.a]
        if op == "c": return self.pconst(t.v)
        if op == "v":
            i = self.atom("v", t.v, node=t)
            if t.v in self.posnodes: self.positive.add(i)
            return self.pmono(i)
        if op == "pi": return self.pmono(self.atom("pi", 0))
        if op == "+": return self.padd(a[0], a[1])
        if op == "neg": return self.pneg(a[0])
        if op == "*": return self.pmul(a[0], a[1])
        if op == "inv":
            r = self.tidy(a[0])
            return self.inv(r)
        if op == "sqrt": return self.sqrt(a[0])
        if op in ("sin", "cos"):
            S, C = self.sincos(self.tidy(a[0]))
            return S if op == "sin" else C
        if op in ("asin", "acos"):
            u = self.tidy(a[0])
            i = self.atom(op, self.pkey(u))
            def sc(u=u, op=op):
                o = self.sqrt(self.psub(self.pconst(1), self.pmul(u, u)))
                return (u, o) if op == "asin" else (o, u)
            self.atoms[i]["sc"] = sc
            if op == "acos": self.positive.add(i)
            return self.pmono(i)
        if op == "atan2":
            y, x = self.tidy(a[0]), self.tidy(a[1])
            i = self.atom(op, (self.pkey(y), self.pkey(x)))
            def sc(y=y, x=x):
                h = self.inv(self.tidy(self.sqrt(self.padd(self.pmul(y, y), self.pmul(x, x)))))
                return self.pmul(y, h), self.pmul(x, h)
            self.atoms[i]["sc"] = sc
            if len(y[0]) == 1:
                (k, v), = y[0].items()
                if v > 0 and self.ispos_mono(k): self.atoms[i]["ynonneg"] = True; self.positive.add(i)
            return self.pmono(i)
        if op == "uf": return self.pmono(self.atom("uf", (t.v, tuple(self.pkey(self.tidy(x)) for x in a))))
        if op in ("exp", "log", "trunc", "abs"):
            u = self.tidy(a[0])
            return self.pmono(self.atom(op, self.pkey(u)))
        raise sym.Unsupported("poly " + op)

    # ---- zero test
    def depends(self, i, memo=None):
        """atoms that atom i is defined with"""
        a = self.atoms[i]
        if "deps" in a: return a["deps"]
        s = set()
        for fld in ("poly", "sq"):
            if fld in a:
                for k in a[fld][0]:
                    for j, e in self.exps(k):
                        if j != i: s.add(j); s |= self.depends(j)
        if a["kind"] in ("s", "c"):
            k = [kk for kk, ii in self.key.items() if ii == i][0][1][0]
            for j, e in self.exps(k): s.add(j); s |= self.depends(j)
        a["deps"] = s
        return s
    def is_zero(self, A):
        if not A[0]: return True
        A = self.reduce(A)
        if not A[0]: return True
        if self.deadline and time.time() > self.deadline: raise Blowup("time")
        present = self.present(A)
        # split on variables which nothing else depends on
        needed = set()
        for i in present: needed |= self.depends(i)
        free = [i for i in present if self.atoms[i]["kind"] in ("v", "pi", "exp", "log", "trunc", "abs", "asin", "acos", "atan2", "uf") and i not in needed]
        if free:
            mask = 0
            groups = {}
            for k, v in A[0].items():
                key = tuple(self.exp_of(k, i) for i in free)
                m = k - sum(self.mono(i, e) for i, e in zip(free, key))
                groups.setdefault(key, {})[m] = v
            if len(groups) > 1 or any(any(key) for key in groups):
                return all(self.is_zero((g, A[1])) for g in sorted(groups.values(), key=len))
        # common monomial factor
        cm = self.common_mono(A)
        if cm:
            A = ({k - cm: v for k, v in A[0].items()}, A[1])
            A = self.reduce(A)
            return self.is_zero_(A, present)
        return self.is_zero_(A, present)
    def is_zero_(self, A, present):
        if not A[0]: return True
        # eliminate the latest D, or clear the latest S/s with negative exponents
        present = self.present(A)
        for i in sorted(present, reverse=True):
            kind = self.atoms[i]["kind"]
            lo, hi = present[i]
            if kind == "D":
                A = ({k - self.mono(i, lo): v for k, v in A[0].items()}, A[1]) if lo < 0 else A
                A = self.elim_D(A, i)
                return self.is_zero(A)
            if lo < 0:
                n = -lo
                if kind in ("S", "s") : n += n % 2 if False else 0
                A = self.reduce(({k + self.mono(i, n): v for k, v in A[0].items()}, A[1]))
                return self.is_zero(A)
        # S atoms: coefficients of S^0 and S^1 separately (sufficient)
        for i in sorted(present, reverse=True):
            if self.atoms[i]["kind"] in ("S", "s"):
                g0, g1 = {}, {}
                for k, v in A[0].items():
                    e = self.exp_of(k, i)
                    (g1 if e else g0)[k - self.mono(i, e)] = v
                if g0 and g1:
                    return self.is_zero((g0, A[1])) and self.is_zero((g1, A[1]))
        return False

    def zero(self, node):
        return self.is_zero(self.conv(node))
