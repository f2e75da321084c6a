"""Symbolic executor for LLVM IR. Doubles are expressions over the reals (sym.py), pointers are (object, offset),
integers are concrete, or bit-vector terms of z3, or truncated reals. Branches on symbolic conditions fork;
a path is re-executed from the start with its list of decisions."""
import os, struct, time, math, ctypes, subprocess, re, sys
from fractions import Fraction
import mpmath, z3
import common, llir, sym
from sym import Node, Unsupported

sys.setrecursionlimit(20000)
CLANG = ["-O1", "-S", "-emit-llvm", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno", "-g0"]

_mods = {}
def module(name, defs=(), text=None):
    key = (name, tuple(defs))
    if key in _mods: return _mods[key]
    d = common.src()
    path = name if os.path.isabs(name) else os.path.join(d, name)
    out = os.path.join(common.scratch(), re.sub(r"\W", "_", name) + "%08x.ll" % (hash(key) & 0xffffffff))
    cxx = path.endswith(".cc")
    common.run(["clang++" if cxx else "clang", *CLANG, *(["-fno-exceptions", "-std=c++11"] if cxx else ["-std=gnu11"]), "-DMRBUILD_VERSION=\"x\"",
                "-I", d, "-I", common.SUITESPARSE, *["-D" + x for x in defs], path, "-o", out])
    m = llir.Module(open(out).read(), name)
    _mods[key] = m
    return m

def libmods(first=()):
    """All the modules of the library; a static function is found in its own module first"""
    from concurrent.futures import ThreadPoolExecutor
    common.src()
    names = list(first) + [n for n in common.lib_sources() if n not in first]
    common.scratch()
    with ThreadPoolExecutor(8) as ex: return list(ex.map(module, names))

_csign = {}; CONSTSIGN = False
class MemError(Exception): pass
class PathEnd(Exception): pass      # assertion failure, abort, longjmp...
class PathLimit(Exception): pass
class Infeasible(Exception): pass
class NotMine(Infeasible): pass      # explored by another worker

class Obj:
    __slots__ = ("name", "size", "cells", "kind", "freed", "fn", "readonly", "blank")
    def __init__(s, name, size, kind):
        s.name, s.size, s.kind = name, size, kind; s.cells = {}; s.freed = False; s.fn = None; s.readonly = False; s.blank = None
class Ptr:
    __slots__ = ("o", "off")
    def __init__(s, o, off=0): s.o, s.off = o, off
    def __repr__(s): return "&%s+%d" % (s.o.name if s.o else "null", s.off)
NULL = Ptr(None, 0)
class SI:
    """a symbolic mathematical integer, as an expression"""
    __slots__ = ("n", "w")
    def __init__(s, n, w): s.n, s.w = n, w
class Abs:
    """|n|, before its sign is decided"""
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
class Undef: pass
UNDEF = Undef()

# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("k", "a", "b")
    def __init__(s, k, a, b=None): s.k, s.a, s.b = k, a, b
    # k: 'sign': a=Node, b=frozenset of allowed signs | 'bv': a=z3 Bool | 'not': a | 'and','or': a,b
def signcond(a, b, allowed):
    """sign(a-b) in allowed"""
    if a.op == "c" and b.op == "c":
        d = a.v - b.v
        return 1 if ((d > 0) - (d < 0)) in allowed else 0
    if a.id > b.id:
        a, b = b, a; allowed = frozenset(-x for x in allowed)
    e = sym.sub(a, b)
    if e.op == "neg": e = e.a[0]; allowed = frozenset(-x for x in allowed)
    if e.op == "c": return 1 if ((e.v > 0) - (e.v < 0)) in allowed else 0
    e, sg = canon(e)
    if sg < 0: allowed = frozenset(-x for x in allowed)
    if e.op == "c": return 1 if ((e.v > 0) - (e.v < 0)) in allowed else 0
    return Cond("sign", e, frozenset(allowed))

class _Canon:
    """One representative for all the expressions which have the same normal form up to a constant factor"""
    def __init__(s): s.ctx = None; s.memo = {}; s.rep = {}; s.spent = 0.
    def unroot(s, e):
        # sign(q*sqrt(X) + c), q>0>c  ->  sign(X - (c/q)^2)
        for _ in range(3):
            if e.op != "+": return e
            a, b = e.a
            if b.op == "c": a, b = b, a
            if a.op != "c": return e
            q, f = Fraction(1), 1
            if b.op == "neg": b = b.a[0]; f = -1
            if b.op == "*" and b.a[0].op == "c": q, b = b.a[0].v, b.a[1]
            elif b.op == "*" and b.a[1].op == "c": q, b = b.a[1].v, b.a[0]
            q = q * f; c = a.v
            if b.op != "sqrt" or q == 0 or c == 0 or (q > 0) == (c > 0): return e
            e = sym.sub(b.a[0], sym.const((c / q) ** 2))
            if q < 0: e = sym.neg(e)
        return e
    def __call__(s, e):
        r = s.memo.get(e.id)
        if r is None: r = s.memo[e.id] = s.one(e)
        return r
    def one(s, e0):
        e = s.unroot(e0); sg = 1
        if e.op == "neg": e, sg = e.a[0], -1
        if s.spent > 25: return e, sg
        import poly
        t = time.time()
        try:
            if s.ctx is None: s.ctx = poly.Ctx(limit=1500)
            c = s.ctx; c.deadline = t + 1.
            c.scan_angles([e]); P = c.tidy(c.conv(e))
            if not P[0]: return sym.ZERO, 1
            q, P = c.content(P)
            k = c.pkey(P); f = 1 if q > 0 else -1
            if len(P[0]) == 1 and 0 in P[0]: return (sym.ONE if (P[0][0] > 0) == (q > 0) else sym.neg(sym.ONE)), sg
            if k in s.rep: n, g = s.rep[k]
            else: n, g = s.rep[k] = (e, f)
            return n, sg * f * g
        except Exception:
            try:
                r = s.zerofactors(e)
                return (e, sg) if r is None else (r, sg)
            except Exception: return e, sg
        finally: s.spent += time.time() - t
    def zerofactors(s, e):
        """drops a term whose numerator is identically zero"""
        import poly
        for t in ([e] if e.op != "+" else e.a):
            st, u = [t], []
            while st:
                x = st.pop()
                if x.op == "*": st.extend(x.a)
                elif x.op == "neg": st.append(x.a[0])
                elif x.op == "+": u.append(x)
            for x in u:
                c = poly.Ctx(limit=30000, deadline=time.time() + 3)
                try: c.scan_angles([x]); z = c.zero(x)
                except Exception: z = False
                if z:
                    if e.op != "+": return sym.ZERO
                    o = e.a[1] if e.a[0] is t else e.a[0]
                    return o
canon = _Canon()
def cnot(c):
    if isinstance(c, int): return 1 - c
    if c.k == "not": return c.a
    if c.k == "sign": return Cond("sign", c.a, frozenset((-1, 0, 1)) - c.b)
    if c.k == "bv": return Cond("bv", z3.Not(c.a))
    return Cond("not", c)
def cand(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    return Cond("and", a, b)
def cor(a, b):
    if isinstance(a, int): return 1 if a else b
    if isinstance(b, int): return 1 if b else a
    return Cond("or", a, b)
def lt(a, b): return signcond(sym.lift(a), sym.lift(b), frozenset((-1,)))
def le(a, b): return signcond(sym.lift(a), sym.lift(b), frozenset((-1, 0)))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return signcond(sym.lift(a), sym.lift(b), frozenset((-1, 1)))
def eq(a, b): return signcond(sym.lift(a), sym.lift(b), frozenset((0,)))

def bvvars(e):
    """the constants of a z3 expression"""
    seen, out, st = set(), [], [e]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if t.num_args() == 0:
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(t)
        else: st.extend(t.children())
    return out
_bvv = {}
def bvval(e, env):
    """value of a z3 expression over bit-vector inputs; None if an input has no value"""
    r = _bvv.get(e.get_id())
    if r is None: r = _bvv[e.get_id()] = (bvvars(e), e)
    m = []
    for v in r[0]:
        x = env.get(str(v))
        if x is None or not z3.is_bv(v): return None
        m.append((v, z3.BitVecVal(int(x), v.size())))
    return z3.simplify(z3.substitute(e, *m))
def bv(c): return Cond("bv", c) if not isinstance(c, (bool, int)) else int(c)

class Sample:
    """A concrete assignment to the inputs, with memoized 50-digit evaluation"""
    def __init__(s, env): s.env, s.memo = env, {}; s.bad = False
    def val(s, n):
        return sym.evaluate(n, s.env, s.memo)
    def holds(s, c):
        try:
            if isinstance(c, int): return bool(c)
            if c.k == "sign":
                v = s.val(c.a)
                return ((v > 0) - (v < 0)) in c.b
            if c.k == "not": return not s.holds(c.a)
            if c.k == "and": return s.holds(c.a) and s.holds(c.b)
            if c.k == "or": return s.holds(c.a) or s.holds(c.b)
            if c.k == "bv":
                k = ("bv", c.a.get_id())
                if k not in s.memo:
                    v = bvval(c.a, s.env)
                    s.memo[k] = (None if v is None else z3.is_true(v), c.a)     # the expression is kept so that its id stays its own
                return s.memo[k][0]
        except (ZeroDivisionError, ValueError):
            s.bad = True
            return None

# ---------------------------------------------------------------- z3
class Z3T:
    """Nodes -> z3 reals. Nonlinear operations are abstracted (linear=True) or axiomatized"""
    def __init__(s, linear): s.linear = linear; s.memo = {}; s.ax = []; s.n = 0; s.trig = {}
    def fresh(s, p="t", sort=None):
        s.n += 1; return z3.Real("%s!%d" % (p, s.n))
    def __call__(s, node):
        st = [node]; m = s.memo
        while st:
            t = st[-1]
            if t.id in m: st.pop(); continue
            todo = [c for c in t.a if c.id not in m]
            if todo: st.extend(todo); continue
            st.pop(); m[t.id] = s.one(t)
        return m[node.id]
    def one(s, t):
        op = t.op; a = [s.memo[c.id] for c in t.a]
        if op == "c": return z3.RealVal(str(t.v))
        if op == "v": return z3.ToReal(z3.Int(t.v)) if t.v.startswith("int_") else z3.Real(t.v)
        if op == "+": return a[0] + a[1]
        if op == "neg": return -a[0]
        if op == "*":
            if not s.linear or t.a[0].op == "c" or t.a[1].op == "c": return a[0] * a[1]
            f = s.fresh()
            if t.a[0] is t.a[1]: s.ax.append(z3.And(f >= 0, (f == 0) == (a[0] == 0)))
            else: s.ax.append(z3.And((f > 0) == z3.Or(z3.And(a[0] > 0, a[1] > 0), z3.And(a[0] < 0, a[1] < 0)), (f == 0) == z3.Or(a[0] == 0, a[1] == 0)))
            return f
        if op == "inv":
            f = s.fresh()
            if not s.linear: s.ax.append(f * a[0] == 1)
            else: s.ax.append(z3.And(z3.Implies(a[0] > 0, f > 0), z3.Implies(a[0] < 0, f < 0)))
            return f
        f = s.fresh(op)
        if op == "pi": s.ax.append(z3.And(f > z3.RealVal("3.14159265358979"), f < z3.RealVal("3.1415926535898")))
        if op == "sqrt":
            s.ax.append(f >= 0)
            if not s.linear: s.ax.append(f * f == a[0])
            else: s.ax.append(z3.Implies(a[0] > 0, f > 0))
        if op in ("sin", "cos"):
            s.ax += [f <= 1, f >= -1]
            k = (t.a[0].id)
            o = s.trig.setdefault(k, {}); o[op] = f
            if len(o) == 2 and not s.linear: s.ax.append(o["sin"] * o["sin"] + o["cos"] * o["cos"] == 1)
        if op == "acos": s.ax += [f >= 0, f < z3.RealVal("3.15")]
        if op == "asin": s.ax += [f >= -z3.RealVal("1.58"), f < z3.RealVal("1.58")]
        if op == "atan2": s.ax += [f >= -z3.RealVal("3.15"), f < z3.RealVal("3.15")]
        if op == "exp": s.ax.append(f > 0)
        if op == "abs": s.ax.append(z3.And(f >= 0, z3.Or(f == a[0], f == -a[0])))
        if op == "trunc":
            i = z3.Int("i!%d" % s.n); f = z3.ToReal(i)
            s.ax.append(z3.If(a[0] >= 0, z3.And(f <= a[0], a[0] < f + 1), z3.And(f >= a[0], a[0] > f - 1)))
        return f
    def cond(s, c):
        if isinstance(c, int): return z3.BoolVal(bool(c))
        if c.k == "sign":
            e = s(c.a)
            o = []
            if -1 in c.b: o.append(e < 0)
            if 0 in c.b: o.append(e == 0)
            if 1 in c.b: o.append(e > 0)
            return z3.Or(*o) if o else z3.BoolVal(False)
        if c.k == "bv": return c.a
        if c.k == "not": return z3.Not(s.cond(c.a))
        if c.k == "and": return z3.And(s.cond(c.a), s.cond(c.b))
        if c.k == "or": return z3.Or(s.cond(c.a), s.cond(c.b))

class Stats:
    queries = 0; seconds = 0.; unknown = 0
def z3_check(conds, linear, timeout_ms, want_model=False):
    t = time.time()
    T = Z3T(linear)
    fs = [T.cond(c) for c in conds]
    s = z3.Solver(); s.set("timeout", timeout_ms)
    s.add(*fs); s.add(*T.ax)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    Stats.queries += 1; Stats.seconds += time.time() - t
    if r == z3.unknown: Stats.unknown += 1
    if want_model: return r, (s.model() if r == z3.sat else None)
    return r

def hasbv(c):
    if isinstance(c, int) or c.k == "sign": return False
    return c.k == "bv" or hasbv(c.a) or c.b is not None and hasbv(c.b)
def allbv(c): return isinstance(c, int) or c.k == "bv" or c.k in ("not", "and", "or") and allbv(c.a) and (c.k == "not" or allbv(c.b))
def feasible(conds, nra_ms=400):
    r = z3_check(conds, True, 2000)
    if r == z3.unsat: return False
    if nra_ms and not all(allbv(c) for c in conds):
        r = z3_check(conds, False, nra_ms)
        if r == z3.unsat: return False
    return True

# ---------------------------------------------------------------- running
def s64(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

class Path:
    __slots__ = ("conds", "samples", "out", "status", "detail", "decisions", "subst")

class Engine:
    def __init__(self, modules, stubs=None, nra_ms=400):
        self.mods = modules
        self.stubs = stubs or {}
        self.funcs = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
        self.nra_ms = nra_ms
        self.executed = set()
        self.max_paths = 3000
        self.part = None; self.splitint = False; self.roots = (); self.hints = None; self.simpmemo = {}; self.hintctx = None

    def explore(self, harness, samples=(), pre=(), deadline=None):
        """harness(run) -> outputs. Explores all the paths. -> [Path]"""
        work = [()]
        paths = []
        fcache = {}
        self.hs = [s for s in samples if all(s.holds(c) for c in pre)][:3]; self.pre = pre
        while work:
            dec = work.pop()
            r = Run(self, dec, samples, pre, fcache)
            p = Path()
            try:
                p.out = harness(r); p.status = "ok"; p.detail = ""
            except MemError as e: p.out = None; p.status = "memerr"; p.detail = str(e)
            except PathEnd as e: p.out = None; p.status = "end"; p.detail = str(e)
            except sym.DivByZero as e: p.out = None; p.status = "divbyzero"; p.detail = str(e)
            except Infeasible: 
                work.extend(r.pending); continue
            work.extend(r.pending)
            if self.part and len(r.taken) < self.part[2] and self.part[0]: continue     # short paths are the first worker's
            p.conds = r.conds; p.samples = r.samples; p.decisions = tuple(r.taken); p.subst = r.subst
            paths.append(p)
            if len(paths) > self.max_paths: raise PathLimit("more than %d paths" % self.max_paths)
            if deadline and time.time() > deadline: raise PathLimit("time, after %d paths" % len(paths))
        return paths

class Run:
    symbolic = True
    def __init__(self, eng, decisions, samples, pre, fcache):
        self.e = eng
        self.dec = list(decisions); self.taken = []
        self.pending = []
        self.conds = list(pre)
        self.samples = [s for s in samples if all(s.holds(c) for c in pre)]
        self.fcache = fcache
        self.signs = {}
        self.subst = {}
        self.globals = {}
        self.bufs = {}
        self.nobj = 0
        self.steps = 0
        self.undefs = 0
        for c in pre:
            if isinstance(c, Cond) and c.k == "sign": self.signs[c.a.id] = self.signs.get(c.a.id, frozenset((-1, 0, 1))) & c.b
    # -- user API
    def S(self, name): return sym.var(name)
    def buf(self, name, content, kind="d"):
        """content: int (uninitialized elements) or list of values. kind d: doubles, i: int32, h: uint16, b: bytes, q: int64, f: float"""
        sz = dict(d=8, i=4, h=2, b=1, q=8, f=4, p=8)[kind]
        if isinstance(content, int): o = Obj(name, sz * content, "arg")
        else:
            o = Obj(name, sz * len(content), "arg")
            for k, v in enumerate(content):
                if v is None: continue
                o.cells[sz * k] = (sz, self.inval(v, kind))
        self.bufs[name] = o
        return BufS(self, o, kind, sz)
    def inval(self, v, kind):
        if kind in "df": return sym.lift(v)
        if kind == "p": return NULL if v is None else Ptr(v.o, 0)
        n = 8 * dict(i=4, h=2, b=1, q=8)[kind]
        if isinstance(v, (int, bool)): return int(v) & ((1 << n) - 1)
        if isinstance(v, Node): return SI(v, n)     # an integer-valued variable; named int_...
        return v
    def mem(self, name, size, fields):
        """fields: {offset: (kind, value)}"""
        o = Obj(name, size, "arg"); self.bufs[name] = o
        for off, (k, v) in fields.items():
            if v is None and k != "p": continue
            sz = dict(d=8, i=4, h=2, b=1, q=8, f=4, p=8)[k]
            o.cells[off] = (sz, self.inval(v, k))
        return BufS(self, o, "b", 1)
    def call(self, fname, *args, ret=None):
        f = self.e.funcs.get("@" + fname)
        if f is None: raise Unsupported("no function " + fname)
        av = []
        params = list(f.params)
        sret = None
        if f.pattrs and "sret" in f.pattrs[0]:
            sret = Obj("sret", f.pattrs[0]["sret"].size, "stack")
            av.append(Ptr(sret, 0)); params = params[1:]
        if len(args) != len(params): raise Unsupported("%s: %d args given, %d wanted" % (fname, len(args), len(params)))
        for a, (ty, _) in zip(args, params):
            if a is None: av.append(NULL)
            elif isinstance(a, BufS): av.append(Ptr(a.o, a.off))
            elif isinstance(a, (bool, int)) and isinstance(ty, llir.IntT): av.append(int(a) & ((1 << ty.w) - 1))
            elif isinstance(a, (z3.BitVecRef, SI)): av.append(a)
            elif isinstance(ty, llir.DblT): av.append(sym.lift(a))
            elif isinstance(ty, llir.PtrT) and isinstance(a, Callback): av.append(Ptr(a.obj(self)))
            else: raise Unsupported("argument %r" % (a,))
        r = self.exec(f, av)
        if sret is not None:
            return [self.out(self.rawload(sret, 8 * i, 8)) for i in range(sret.size // 8)]
        if ret == "bool": return self.truth(r)
        if ret == "int":
            return s64(self.conc(r, f.ret.w), f.ret.w)
        if ret == "double": return self.num(r)
        return r
    def truth(self, r):
        if isinstance(r, int): return bool(r & 1)
        if isinstance(r, Cond): return self.decide(r)
        return self.decide(self.icmp("ne", r, 0, 1))
    def out(self, v):
        if v is None: return None
        if isinstance(v, int): return sym.fromdouble(struct.unpack("<d", v.to_bytes(8, "little"))[0])
        return v

    # -- decisions
    def assume(self, c):
        if isinstance(c, int):
            if not c: raise Infeasible()
            return
        self.commit(c, True)
        if not self.samples and not self.feas(self.conds): raise Infeasible()
    def commit(self, c, truth):
        cc = c if truth else cnot(c)
        if isinstance(cc, Cond) and cc.k == "sign":
            self.signs[cc.a.id] = self.signs.get(cc.a.id, frozenset((-1, 0, 1))) & cc.b
        self.conds.append(cc)
        self.samples = [s for s in self.samples if s.holds(cc)]
    def feas(self, conds):
        return feasible(conds, self.e.nra_ms)
    def decide(self, c):
        if isinstance(c, int): return bool(c)
        if c.k == "sign":
            cur = self.signs.get(c.a.id, frozenset((-1, 0, 1)))
            if cur <= c.b: return True
            if not (cur & c.b): return False
            g = self.constsign(c.a) if CONSTSIGN else None
            if g is not None: return g in c.b
        elif c.k == "not": return not self.decide(c.a)
        elif c.k == "and": return self.decide(c.a) and self.decide(c.b)
        elif c.k == "or": return self.decide(c.a) or self.decide(c.b)
        n = len(self.taken)
        if n < len(self.dec):
            d = self.dec[n]; self.taken.append(d); self.mine(); self.commit(c, d); return d
        key = tuple(self.taken)
        fc = self.fcache.get(key)
        if fc is None:
            hs = [s.holds(c) for s in self.samples]
            ft = any(h is True for h in hs); ff = any(h is False for h in hs)
            if not ft: ft = self.feas(self.conds + [c])
            if not ff: ff = self.feas(self.conds + [cnot(c)])
            fc = self.fcache[key] = (ft, ff)
        ft, ff = fc
        if not ft and not ff: raise Infeasible()
        if ft and ff:
            # prefer the side with samples
            d = True
            self.pending.append(tuple(self.taken) + (False,))
        else: d = ft
        self.taken.append(d); self.mine(); self.commit(c, d)
        return d
    def constsign(self, n):
        """the sign of an expression without variables, if it is away from 0"""
        if n.id in _csign: return _csign[n.id]
        r = None
        if not any(v.op == "v" for v in sym.variables(n)):
            try:
                with mpmath.workdps(60): v = sym.evaluate(n, {})
                if abs(v) > mpmath.mpf(10)**-30: r = 1 if v > 0 else -1
            except Exception: pass
        _csign[n.id] = r
        return r
    def mine(self):
        if self.e.part and len(self.taken) == self.e.part[2]:
            import zlib
            if zlib.crc32(bytes(self.taken)) % self.e.part[1] != self.e.part[0]: raise NotMine()
    def conc(self, v, w):
        """a concrete integer"""
        if isinstance(v, int): return v & ((1 << w) - 1)
        if isinstance(v, Cond): return 1 if self.decide(v) else 0
        if isinstance(v, SI): return self.conc_si(v) & ((1 << w) - 1)
        if isinstance(v, z3.BitVecRef):
            v = z3.simplify(v)
            if z3.is_bv_value(v): return v.as_long()
            for _ in range(4096):
                k = self.pick_bv(v)
                if self.decide(Cond("bv", v == k)): return k
            raise PathLimit("concretization")
        if isinstance(v, Node): return self.bits(v)
        if v is UNDEF: raise MemError("use of an uninitialized integer")
        if isinstance(v, Ptr) and v.o is None: return v.off
        raise Unsupported("conc %r" % (v,))
    def pick_bv(self, v):
        key = ("pick", tuple(self.taken), len(self.conds))
        k = self.fcache.get(key)
        if k is None:
            T = Z3T(True); s = z3.Solver(); s.add(*[T.cond(c) for c in self.conds], *T.ax)
            if s.check() != z3.sat: raise Infeasible()
            k = self.fcache[key] = s.model().eval(v, model_completion=True).as_long()
        return k
    def conc_si(self, v):
        n = v.n
        if n.id in self.subst: return self.subst[n.id]
        if n.op == "c": return int(n.v)
        if n.op == "neg": return -self.conc_si(SI(n.a[0], v.w))
        for it in range(200):
            key = ("pickr", tuple(self.taken), n.id, it)
            k = self.fcache.get(key)
            if k is None:
                for s in self.samples:
                    try: k = int(mpmath.nint(s.val(n))); break
                    except (ValueError, ZeroDivisionError): pass
                if k is None:
                    T = Z3T(True); s = z3.Solver(); s.set("timeout", 3000)
                    zn = T(n); s.add(*[T.cond(c) for c in self.conds]); s.add(*T.ax)
                    s.add(z3.IsInt(zn))
                    r = s.check(); Stats.queries += 1
                    if r == z3.unsat: raise Infeasible()
                    if r != z3.sat: raise PathLimit("cannot choose an integer value")
                    k = s.model().eval(zn, model_completion=True)
                    k = int(Fraction(k.numerator_as_long(), k.denominator_as_long()))
                self.fcache[key] = k
            if self.decide(eq(n, k)):
                self.subst[n.id] = k
                return k
        raise PathLimit("concretization of %r" % n)

    def simp(self, n):
        """replaces an expression by zero or by one of the job's hints, if it is equal to it: proposed by evaluating at the samples, then proved by the normal form"""
        e = self.e
        if e.hints is None or not isinstance(n, Node) or n.op in ("c", "v") or n.op in _special_ops: return n
        r = e.simpmemo.get(n.id)
        if r is None: r = e.simpmemo[n.id] = self.simp_(n)
        return r
    def simp_(self, n):
        import poly
        e = self.e
        if len(e.hs) < 2: return n
        try:
            v = [s.val(n) for s in e.hs]
            if getattr(e, "hintidx", None) is None:
                # by the value at the first sample
                e.hintidx = {}
                for h in [sym.ZERO] + e.hints:
                    x = float(abs(e.hs[0].val(h))); e.hintidx.setdefault(0. if x < 1e-35 else x, []).append(h)
                e.hintset = {h.id for h in e.hints}
            if n.id in e.hintset: return n
            x = float(abs(v[0]))
            for h in e.hintidx.get(0. if x < 1e-35 else x, ()):
                if h is n: continue
                for sg in (1, -1):
                    if all(abs(x - sg * s.val(h)) < mpmath.mpf(10) ** -35 * (1 + abs(x)) for x, s in zip(v, e.hs)):
                        t = h if sg > 0 else sym.neg(h)
                        c = e.hintctx or poly.Ctx(positive=(), limit=60000); c.deadline = time.time() + 10
                        if e.hintctx is None:
                            e.hintctx = c; c.scan_angles([n] + e.hints)
                            for q in e.pre:
                                if isinstance(q, Cond) and q.k == "sign" and q.b in (frozenset((1,)), frozenset((-1,))):
                                    try: c.assume_positive(q.a if 1 in q.b else sym.neg(q.a))
                                    except Exception: pass
                        if c.zero(sym.sub(n, t)): return t
                        return n
        except Exception: return n
        return n
    # -- values
    def bits(self, n):
        if n.op == "c":
            return struct.unpack("<Q", struct.pack("<d", float(n.v)))[0]
        if n is sym.INF: return struct.unpack("<Q", struct.pack("<d", math.inf))[0]
        if n is sym.NAN: return struct.unpack("<Q", struct.pack("<d", math.nan))[0]
        raise Unsupported("bits of a symbolic double")
    def num(self, v):
        """operand as a real expression"""
        if isinstance(v, Node): return v
        if isinstance(v, Abs):
            n = v.n
            return sym.neg(n) if self.decide(lt(n, 0)) else n
        if isinstance(v, int): return sym.fromdouble(struct.unpack("<d", v.to_bytes(8, "little"))[0])
        if v is UNDEF or v is None:
            self.undefs += 1
            return sym.var("UNDEF%d" % self.undefs)
        raise Unsupported("num %r" % (v,))

    # -- memory
    def rawload(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        # assemble from bytes
        if c is None and not any((off - k) in o.cells for k in range(1, 8)) and not any((off + k) in o.cells for k in range(size)):
            if o.blank is not None: return o.blank(off, size)
            return None
        out = []
        for b in range(size):
            x = self.loadbyte(o, off + b)
            out.append(x)
        if any(x is None for x in out): return None
        if all(isinstance(x, int) for x in out): return int.from_bytes(bytes(out), "little")
        xs = [z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in out]
        return z3.Concat(*reversed(xs)) if len(xs) > 1 else xs[0]
    def loadbyte(self, o, off):
        for k in range(8):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    v = c[1]
                    if isinstance(v, Node): v = self.bits(v) if c[0] == 8 else struct.unpack("<I", struct.pack("<f", float(v.v)))[0]
                    if isinstance(v, int): return (v >> (8 * k)) & 255
                    if isinstance(v, z3.BitVecRef): return z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
                    if v is UNDEF: return None
                    if isinstance(v, Ptr) and v.o is None: return 0
                    raise Unsupported("byte of %r" % (v,))
                break
        if o.blank is not None: return o.blank(off, 1)
        return None
    def chk(self, p, size, what):
        if not isinstance(p, Ptr): raise Unsupported("%s through %r" % (what, p))
        if p.o is None: raise MemError("%s through a null pointer" % what)
        if p.o.fn is not None: raise MemError("%s of a function" % what)
        if p.o.freed: raise MemError("%s after free: %s" % (what, p.o.name))
        if p.off < 0 or p.off + size > p.o.size:
            raise MemError("%s out of bounds: %s has %d bytes, accessing [%d,%d)" % (what, p.o.name, p.o.size, p.off, p.off + size))
    def load(self, p, ty):
        self.chk(p, ty.size, "read")
        if isinstance(ty, (llir.StructT, llir.ArrT, llir.VecT)):
            return [self.load(Ptr(p.o, p.off + off), e) for off, e in self.elems(ty)]
        v = self.rawload(p.o, p.off, ty.size)
        if isinstance(ty, llir.DblT):
            if v is None: return self.num(None) if p.o.kind != "arg" else sym.var("UNINIT_%s_%d" % (p.o.name, p.off))
            if isinstance(v, int): return sym.fromdouble(struct.unpack("<d", v.to_bytes(8, "little"))[0])
            return v
        if isinstance(ty, llir.FltT):
            if v is None: return self.num(None)
            if isinstance(v, int): return sym.fromdouble(struct.unpack("<f", v.to_bytes(4, "little"))[0])
            return v
        if isinstance(ty, llir.PtrT):
            if v is None: return UNDEF
            if v == 0 and isinstance(v, int): return NULL
            return v
        if v is None: return UNDEF
        if isinstance(v, int): return v & ((1 << ty.w) - 1)
        if isinstance(v, z3.BitVecRef) and ty.w < v.size(): return z3.Extract(ty.w - 1, 0, v)
        return v
    def elems(self, ty):
        if isinstance(ty, llir.StructT): return list(zip(ty.offs, ty.es))
        return [(i * ty.e.size, ty.e) for i in range(ty.n)]
    def store(self, p, ty, v):
        self.chk(p, ty.size, "write")
        if p.o.readonly: raise MemError("write to constant memory %s" % p.o.name)
        if isinstance(ty, (llir.StructT, llir.ArrT, llir.VecT)):
            for k, (off, e) in enumerate(self.elems(ty)): self.store(Ptr(p.o, p.off + off), e, v[k])
            return
        if isinstance(v, Abs): v = self.num(v)
        if isinstance(v, Cond): v = self.conc(v, 8)
        if isinstance(v, z3.BitVecRef) and v.size() != ty.size * 8: v = z3.ZeroExt(ty.size * 8 - v.size(), v)
        self.rawstore(p.o, p.off, ty.size, v)
    def rawstore(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            # remove overlaps, keeping the remaining bytes
            for k in range(off - 7, off + size):
                c = cells.get(k)
                if c is not None and k + c[0] > off and not (k >= off and k + c[0] <= off + size):
                    bs = [(k + b, self.loadbyte(o, k + b)) for b in range(c[0]) if not (off <= k + b < off + size)]
                    del cells[k]
                    for a, x in bs:
                        if x is not None: cells[a] = (1, x)
            for k in range(off, off + size): cells.pop(k, None)
        cells[off] = (size, v)
    def memcpy(self, d, s, n):
        if n == 0: return
        self.chk(d, n, "write"); self.chk(s, n, "read")
        items = []
        k = s.off
        while k < s.off + n:
            c = s.o.cells.get(k)
            if c is not None and k + c[0] <= s.off + n:
                items.append((k - s.off, c[0], c[1])); k += c[0]
            else:
                b = self.loadbyte(s.o, k)
                items.append((k - s.off, 1, b)); k += 1
        for off, sz, v in items:
            if v is None:
                # uninitialized: drop what was there
                self.rawstore(d.o, d.off + off, sz, 0); d.o.cells.pop(d.off + off, None)
            else: self.rawstore(d.o, d.off + off, sz, v)
    def memset(self, d, b, n):
        if n == 0: return
        self.chk(d, n, "write")
        k = d.off; end = d.off + n
        while k < end:
            sz = 8 if (k % 8 == 0 and k + 8 <= end) else 4 if (k % 4 == 0 and k + 4 <= end) else 1
            self.rawstore(d.o, k, sz, int.from_bytes(bytes([b]) * sz, "little")); k += sz
    def alloc(self, size, kind, name=None):
        self.nobj += 1
        return Ptr(Obj(name or "%s%d" % (kind, self.nobj), size, kind), 0)

    def glob(self, mod, name):
        key = (mod, name)
        o = self.globals.get(key)
        if o is not None: return o
        if name not in mod.globals:
            # function, or something from another module
            f = self.e.funcs.get(name)
            o = Obj(name, 0, "fn"); o.fn = name
            if f is None:
                for m in self.e.mods:
                    if name in m.globals and m.globals[name][1] is not None: o = self.glob(m, name)
            self.globals[key] = o
            return o
        ty, init, const = mod.globals[name]
        if init is None:
            for m in self.e.mods:
                if m is not mod and name in m.globals and m.globals[name][1] is not None:
                    o = self.globals[key] = self.glob(m, name); return o
        o = Obj(name, max(ty.size, 8 if init is None else ty.size), "global"); self.globals[key] = o
        if init is not None: self.ginit(mod, o, 0, ty, init)
        else: o.cells[0] = (8, Ptr(Obj(name + "*", 0, "extern")))
        o.readonly = const
        return o
    def ginit(self, mod, o, off, ty, v):
        k = v[0]
        if k == "zero":
            for b in range(0, ty.size): o.cells[off + b] = (1, 0)
        elif k == "bytes":
            for b, x in enumerate(v[1]): o.cells[off + b] = (1, x)
        elif k == "agg":
            if isinstance(ty, llir.StructT): offs = ty.offs
            else: offs = [i * ty.e.size for i in range(ty.n)]
            for x, (ety, e) in zip(offs, v[1]): self.ginit(mod, o, off + x, ety, e)
        elif k == "undef": pass
        else: o.cells[off] = (ty.size, self.const(mod, ty, v))
    def const(self, mod, ty, v):
        k = v[0]
        if k == "k":
            return v[1] & ((1 << ty.w) - 1) if isinstance(ty, llir.IntT) else v[1]
        if k == "f": return sym.fromdouble(v[1])
        if k == "null": return NULL
        if k == "nulloff": return Ptr(None, v[1])
        if k == "g": return Ptr(self.glob(mod, v[1]), v[2])
        if k == "undef": return UNDEF if not isinstance(ty, (llir.StructT, llir.ArrT, llir.VecT)) else [UNDEF for _ in self.elems(ty)]
        if k == "zero":
            if isinstance(ty, (llir.StructT, llir.ArrT, llir.VecT)): return [self.const(mod, e, v) for _, e in self.elems(ty)]
            return NULL if isinstance(ty, llir.PtrT) else sym.ZERO if isinstance(ty, (llir.DblT, llir.FltT)) else 0
        if k == "agg": return [self.const(mod, ety, e) for ety, e in v[1]]
        raise Unsupported("constant %r" % (v,))

    # -- execution
    def exec(self, f, args, depth=0):
        if depth > 60: raise PathLimit("recursion")
        self.e.executed.add(f.name[1:])
        mod = f.mod
        regs = {}
        for (ty, nm), v in zip(f.params, args): regs[nm] = v
        def val(ty, v):
            k = v[0]
            if k == "r": return regs[v[1]]
            return self.const(mod, ty, v)
        lab = f.entry; prev = None
        while True:
            block = f.blocks[lab]
            i = 0
            # phis in parallel
            if block[0][0] == "phi":
                news = []
                while block[i][0] == "phi":
                    ins = block[i]
                    news.append((ins[1], val(ins[2], ins[3][prev]))); i += 1
                for k, v in news: regs[k] = v
            jump = None
            n = len(block)
            self.steps += n
            if self.steps > 8000000: raise PathLimit("steps")
            while i < n:
                ins = block[i]; i += 1
                op = ins[0]
                if op == "bin":
                    _, dst, o, ty, a, b, nsw = ins
                    regs[dst] = self.binop(o, ty, val(ty, a), val(ty, b), nsw)
                elif op == "load":
                    regs[ins[1]] = self.load(val(llir.PTR, ins[3]), ins[2])
                elif op == "store":
                    self.store(val(llir.PTR, ins[4]), ins[2], val(ins[2], ins[3]))
                elif op == "gep":
                    regs[ins[1]] = self.gep(ins, val)
                elif op == "br":
                    c = val(llir.intt(1), ins[2])
                    if c is UNDEF: raise MemError("branch on an uninitialized value")
                    t = self.decide(c) if isinstance(c, Cond) else (c & 1 if isinstance(c, int) else self.truth(c))
                    jump = ins[3] if t else ins[4]
                elif op == "jmp": jump = ins[2]
                elif op == "icmp":
                    regs[ins[1]] = self.icmp(ins[2], val(ins[3], ins[4]), val(ins[3], ins[5]), getattr(ins[3], "w", 64))
                elif op == "fcmp":
                    regs[ins[1]] = self.fcmp(ins[2], val(ins[3], ins[4]), val(ins[3], ins[5]))
                elif op == "cast":
                    regs[ins[1]] = self.cast(ins[2], ins[3], val(ins[3], ins[4]), ins[5])
                elif op == "select":
                    c = val(llir.intt(1), ins[3])
                    if isinstance(c, Cond):
                        a, b = val(ins[2], ins[4]), val(ins[2], ins[5])
                        if isinstance(ins[2], llir.IntT) and ins[2].w == 1:
                            ca, cb = self.i1(a), self.i1(b)
                            regs[ins[1]] = cor(cand(c, ca), cand(cnot(c), cb)); continue
                        if isinstance(ins[2], llir.IntT) and (isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef))) and c.k == "bv":
                            w = ins[2].w
                            regs[ins[1]] = z3.If(c.a, z3.BitVecVal(a, w) if isinstance(a, int) else a, z3.BitVecVal(b, w) if isinstance(b, int) else b); continue
                        c = self.decide(c)
                    elif c is UNDEF: raise MemError("select on an uninitialized value")
                    elif not isinstance(c, int): c = self.truth(c)
                    regs[ins[1]] = val(ins[2], ins[4] if c & 1 else ins[5])
                elif op == "fneg":
                    regs[ins[1]] = sym.neg(self.num(val(ins[2], ins[3])))
                elif op == "call":
                    r = self.docall(mod, ins, val, depth)
                    if ins[1]: regs[ins[1]] = r
                    if ins[5]: jump = ins[5]
                elif op == "alloca":
                    c = self.conc(val(*ins[3]), 32)
                    regs[ins[1]] = self.alloc(ins[2].size * c, "stack", "stack:" + f.name[1:] + ins[1])
                elif op == "ret":
                    return None if ins[2] is None else val(ins[2], ins[3])
                elif op == "switch":
                    v = val(ins[2], ins[3]); w = ins[2].w
                    if isinstance(v, SI) or isinstance(v, z3.BitVecRef):
                        jump = None
                        for k, l in ins[5].items():
                            if self.truth(self.icmp("eq", v, k & ((1 << w) - 1), w)): jump = l; break
                        if jump is None: jump = ins[4]
                    else:
                        v = self.conc(v, w)
                        jump = ins[4]
                        for k, l in ins[5].items():
                            if k & ((1 << w) - 1) == v: jump = l; break
                elif op == "freeze":
                    v = val(ins[2], ins[3])
                    regs[ins[1]] = 0 if v is UNDEF else v
                elif op == "extractvalue":
                    v = val(ins[2], ins[3])
                    for k in ins[4]: v = v[k]
                    regs[ins[1]] = v
                elif op == "insertvalue":
                    _, dst, ty, a, ety, e, idx = ins
                    def put(agg, idx, x):
                        agg = list(agg)
                        agg[idx[0]] = x if len(idx) == 1 else put(agg[idx[0]], idx[1:], x)
                        return agg
                    regs[dst] = put(val(ty, a), idx, val(ety, e))
                elif op == "extractelement":
                    regs[ins[1]] = val(ins[2], ins[3])[self.conc(val(llir.intt(64), ins[4]), 64)]
                elif op == "insertelement":
                    v = list(val(ins[2], ins[3])); v[self.conc(val(llir.intt(64), ins[5]), 64)] = val(ins[2].e, ins[4]); regs[ins[1]] = v
                elif op == "phi": raise Unsupported("phi after non-phi")
                elif op == "unreachable": raise PathEnd("unreachable")
                else: raise Unsupported("instruction %r" % (ins,))
                if jump is not None: break
            prev = lab; lab = jump

    def i1(self, v):
        if isinstance(v, (int, Cond)): return v if isinstance(v, Cond) else v & 1
        if isinstance(v, z3.BitVecRef): return Cond("bv", v == 1)
        if v is UNDEF: raise MemError("use of an uninitialized bool")
        raise Unsupported("i1 %r" % (v,))

    def gep(self, ins, val):
        _, dst, bty, base, idx = ins
        p = val(llir.PTR, base)
        if p is UNDEF: raise MemError("uninitialized pointer")
        off = p.off
        ty = bty
        for n, (ity, v) in enumerate(idx):
            k = v[1] if v[0] == "k" else s64(self.conc(val(ity, v), ity.w), ity.w)
            if n == 0: off += k * bty.size
            elif isinstance(ty, llir.StructT): off += ty.offs[k]; ty = ty.es[k]
            else: off += k * ty.e.size; ty = ty.e
        return Ptr(p.o, off)

    def binop(self, o, ty, a, b, nsw):
        if o[0] == "f" :
            if isinstance(a, list): return [self.binop(o, ty.e, x, y, nsw) for x, y in zip(a, b)]
            a, b = self.num(a), self.num(b)
            if o == "fadd": return self.simp(sym.add(a, b))
            if o == "fsub": return self.simp(sym.sub(a, b))
            if o == "fmul": return self.simp(sym.mul(a, b))
            if o == "fdiv":
                if b.op == "c" and b.v == 0 and a.op != "c":
                    # sign of the infinity
                    if self.decide(eq(a, 0)): return sym.NAN
                    return sym.INF if self.decide(gt(a, 0)) else sym.NINF
                return self.simp(sym.div(a, b))
            raise Unsupported(o)
        if isinstance(a, list): return [self.binop(o, ty.e, x, y, nsw) for x, y in zip(a, b)]
        w = ty.w; M = (1 << w) - 1
        if w == 1 and (isinstance(a, Cond) or isinstance(b, Cond)):
            a, b = self.i1(a), self.i1(b)
            if o == "and": return cand(a, b)
            if o == "or": return cor(a, b)
            if o == "xor":
                if isinstance(b, int): return cnot(a) if b else a
                if isinstance(a, int): return cnot(b) if a else b
                return cor(cand(a, cnot(b)), cand(cnot(a), b))
            raise Unsupported("i1 " + o)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Cond): a = self.conc(a, w)
        if isinstance(b, Cond): b = self.conc(b, w)
        if isinstance(a, Node): a = self.bits(a)
        if isinstance(b, Node): b = self.bits(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o: return (a.off - b.off) & M
            if isinstance(a, Ptr) and o == "add" and isinstance(b, int): return Ptr(a.o, a.off + s64(b, w))
            if isinstance(a, Ptr) and o == "and" and isinstance(b, int): return a.off & b
            raise Unsupported("pointer arithmetic " + o)
        if isinstance(a, int) and isinstance(b, int):
            if o == "add": return (a + b) & M
            if o == "sub": return (a - b) & M
            if o == "mul": return (a * b) & M
            if o == "and": return a & b
            if o == "or": return a | b
            if o == "xor": return a ^ b
            if o == "shl": return (a << b) & M if b < w else 0
            if o == "lshr": return a >> b if b < w else 0
            if o == "ashr": return (s64(a, w) >> b) & M
            if o in ("udiv", "urem"):
                if b == 0: raise MemError("division by zero")
                return a // b if o == "udiv" else a % b
            if o in ("sdiv", "srem"):
                x, y = s64(a, w), s64(b, w)
                if y == 0: raise MemError("division by zero")
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if o == "sdiv" else x - q * y) & M
        if isinstance(a, SI) or isinstance(b, SI):
            x = a.n if isinstance(a, SI) else sym.const(s64(a, w)) if isinstance(a, int) else None
            y = b.n if isinstance(b, SI) else sym.const(s64(b, w)) if isinstance(b, int) else None
            if x is not None and y is not None:
                if o == "add": return SI(sym.add(x, y), w)
                if o == "sub": return SI(sym.sub(x, y), w)
                if o == "mul": return SI(sym.mul(x, y), w)
                if o == "shl" and isinstance(b, int): return SI(sym.mul(x, sym.const(1 << b)), w)
                if o == "or" and isinstance(b, int) and isinstance(a, SI):
                    pass
            a = self.conc(a, w); b = self.conc(b, w)
            return self.binop(o, ty, a, b, nsw)
        # bit-vectors
        x = z3.BitVecVal(a, w) if isinstance(a, int) else a
        y = z3.BitVecVal(b, w) if isinstance(b, int) else b
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y,
             "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y)}[o]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def icmp(self, p, a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF or b is UNDEF: raise MemError("comparing an uninitialized pointer")
            if isinstance(a, int): a = Ptr(None, a)
            if isinstance(b, int): b = Ptr(None, b)
            if p in ("eq", "ne"):
                e = a.o is b.o and a.off == b.off
                return int(e if p == "eq" else not e)
            if a.o is not b.o: raise Unsupported("ordering unrelated pointers")
            a, b = a.off, b.off
            return int({"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p])
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1 and (isinstance(a, Cond) or isinstance(b, Cond)):
            a, b = self.i1(a), self.i1(b)
            if isinstance(b, int) and p in ("eq", "ne"):
                return a if (b == 1) == (p == "eq") else cnot(a)
            a, b = self.conc(a, 1), self.conc(b, 1)
        if isinstance(a, Cond): a = self.conc(a, w)
        if isinstance(b, Cond): b = self.conc(b, w)
        if isinstance(a, Node): a = self.bits(a)
        if isinstance(b, Node): b = self.bits(b)
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s": a, b = s64(a, w), s64(b, w)
            q = p[-2:] if p not in ("eq", "ne") else p
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q])
        if isinstance(a, SI) or isinstance(b, SI):
            x = a.n if isinstance(a, SI) else sym.const(s64(a, w)); y = b.n if isinstance(b, SI) else sym.const(s64(b, w))
            q = p[-2:] if p not in ("eq", "ne") else p
            if p[0] == "u" and p not in ("eq", "ne"):
                W = sym.const(1 << w)
                if isinstance(a, int): x = sym.const(a & ((1 << w) - 1))
                elif self.decide(lt(x, 0)): x = sym.add(x, W)      # SI: within the range of its type, signed or not
                if isinstance(b, int): y = sym.const(b & ((1 << w) - 1))
                elif self.decide(lt(y, 0)): y = sym.add(y, W)
                return {"lt": lt, "le": le, "gt": gt, "ge": ge}[q](x, y)
            if q in ("eq", "ne") and w < 64:
                k = b if isinstance(b, int) else a if isinstance(a, int) else None
                if k is not None and s64(k, w) < 0:   # the type may be signed or not
                    v = x if isinstance(b, int) else y
                    c = cor(eq(v, sym.const(s64(k, w))), eq(v, sym.const(k & ((1 << w) - 1))))
                    return c if q == "eq" else cnot(c)
            return {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[q](x, y)
        x = z3.BitVecVal(a, w) if isinstance(a, int) else a
        y = z3.BitVecVal(b, w) if isinstance(b, int) else b
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y,
             "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y)}[p]()
        r = z3.simplify(r)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return Cond("bv", r)

    def fcmp(self, p, a, b):
        if p == "true": return 1
        if p == "false": return 0
        inf = (sym.INF, sym.NINF)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Abs):
                n = x.n
                if n is sym.NAN or y is sym.NAN: return int(p[0] == "u" and p != "ord")
                if y is sym.INF and not (n in inf):
                    l = x is a   # |n| ? inf
                    return int({"oeq": False, "ueq": False, "one": True, "une": True, "olt": l, "ult": l, "ole": l, "ule": l, "ogt": not l, "ugt": not l, "oge": not l, "uge": not l, "ord": True, "uno": False}[p])
        a, b = self.num(a), self.num(b)
        if a is sym.NAN or b is sym.NAN: return int(p == "uno" or (p[0] == "u" and p != "uno") )
        if p == "ord": return 1
        if p == "uno": return 0
        q = p[1:]
        if a in inf or b in inf:
            def rank(x): return 1 if x is sym.INF else -1 if x is sym.NINF else 0
            x, y = rank(a), rank(b)
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q])
        return {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[q](a, b)

    def cast(self, o, ty, v, to):
        if isinstance(v, list): return [self.cast(o, ty.e, x, to.e) for x in v]
        if o in ("fpext", "fptrunc"): return v if isinstance(v, Abs) else self.num(v)
        if o in ("sitofp", "uitofp"):
            if isinstance(v, Cond): v = self.conc(v, ty.w)
            if isinstance(v, SI):
                n = v.n
                if self.e.splitint: return sym.const(self.conc_si(v))
                return sym.const(self.subst[n.id]) if n.id in self.subst else n
            if v is UNDEF: return self.num(None)
            if isinstance(v, z3.BitVecRef): v = self.conc(v, ty.w)
            return sym.const(s64(v, ty.w) if o == "sitofp" else v)
        if o in ("fptosi", "fptoui"):
            n = self.num(v)
            if n.op == "c": return int(n.v) & ((1 << to.w) - 1)
            if n in (sym.NAN, sym.INF, sym.NINF): raise MemError("conversion of a non-finite value to an integer")
            n = sym.trunc(n)
            return SI(n, to.w)
        if v is UNDEF: return UNDEF
        if o == "bitcast": return v
        if o == "ptrtoint": return v
        if o == "inttoptr": return v if isinstance(v, Ptr) else NULL if v == 0 else Ptr(None, v)
        if isinstance(v, Cond):
            v = self.conc(v, 1)
        if isinstance(v, SI):
            if o in ("sext",): return SI(v.n, to.w)
            if o == "zext":
                if self.decide(ge(v.n, 0)): return SI(v.n, to.w)
                return SI(sym.add(v.n, sym.const(1 << ty.w)), to.w)
            if o == "trunc": return SI(v.n, to.w)   # assumes that the value fits
        if isinstance(v, z3.BitVecRef):
            r = z3.SignExt(to.w - ty.w, v) if o == "sext" else z3.ZeroExt(to.w - ty.w, v) if o == "zext" else z3.Extract(to.w - 1, 0, v)
            if to.w == 1: return Cond("bv", z3.simplify(r == 1))
            r = z3.simplify(r)
            return r.as_long() if z3.is_bv_value(r) else r
        if isinstance(v, Node): v = self.bits(v)
        if isinstance(v, Ptr):
            if v.o is None: v = v.off
            else: raise Unsupported("cast of a pointer")
        if o == "sext": return s64(v, ty.w) & ((1 << to.w) - 1)
        if o == "zext": return v
        if o == "trunc": return v & ((1 << to.w) - 1)
        raise Unsupported("cast " + o)

    def docall(self, mod, ins, val, depth):
        _, dst, rty, callee, args, nxt = ins
        if callee[0] == "g": name = callee[1]
        else:
            p = val(llir.PTR, callee)
            if not isinstance(p, Ptr) or p.o is None: raise MemError("call through a null pointer")
            name = p.o.fn
            if callable(name): return name(self, [val(t, v) for t, v, a in args])
        n = name[1:]
        if n.startswith("llvm."):
            return self.intrinsic(n, rty, args, val)
        st = self.e.stubs.get(n)
        if st is not None: return st(self, [val(t, v) for t, v, a in args])
        f = mod.funcs.get(name) or self.e.funcs.get(name)
        if f is not None:
            av = []
            for (t, v, a) in args:
                x = val(t, v)
                if "byval" in a:
                    o = self.alloc(a["byval"].size, "stack"); self.memcpy(o, x, a["byval"].size); x = o
                av.append(x)
            return self.exec(f, av, depth + 1)
        b = BUILTINS.get(n)
        if b is None: raise Unsupported("external function " + n)
        return b(self, [val(t, v) for t, v, a in args])

    def intrinsic(self, n, rty, args, val):
        if n.startswith(("llvm.lifetime", "llvm.experimental.noalias", "llvm.dbg", "llvm.assume", "llvm.stackrestore", "llvm.va_", "llvm.prefetch")): return None
        if n.startswith("llvm.stacksave"): return NULL
        a = [val(t, v) for t, v, _ in args]
        if n.startswith("llvm.memset"):
            b = a[1]
            return self.memset(a[0], self.conc(b, 8), self.conc(a[2], 64))
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            k = self.conc(a[2], 64); return self.memcpy(a[0], a[1], k)
        m = re.match(r"llvm\.(\w+)\.", n); k = m.group(1)
        if k == "sqrt":
            x = self.num(a[0])
            for y in self.e.roots:
                key = ("root", x.id, y.id)
                if key not in self.fcache:
                    import poly
                    try: c = poly.Ctx(positive=(), limit=60000); c.deadline = time.time() + 10; self.fcache[key] = c.zero(sym.sub(x, sym.mul(y, y)))
                    except Exception: self.fcache[key] = False
                if self.fcache[key]: return y if not self.decide(lt(y, sym.ZERO)) else sym.neg(y)
            return self.simp(sym.sqrt(x))
        if k in ("sin", "cos") and k in self.e.stubs: return self.e.stubs[k](self, a)
        if k in ("sin", "cos", "exp", "log"): return sym.FN1[k](self.num(a[0]))
        if k == "fabs":
            if isinstance(a[0], Abs): return a[0]
            x = self.num(a[0])
            if x.op == "c": return sym.const(abs(x.v))
            if x in (sym.INF, sym.NINF): return sym.INF
            if x is sym.NAN: return x
            if x.op == "sqrt": return x
            return Abs(x)
        if k in ("fmuladd", "fma"): return sym.add(sym.mul(self.num(a[0]), self.num(a[1])), self.num(a[2]))
        if k in ("smax", "smin", "umax", "umin"):
            w = rty.w
            c = self.icmp({"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[k], a[0], a[1], w)
            if isinstance(c, Cond) and c.k == "bv":
                x, y = [z3.BitVecVal(q, w) if isinstance(q, int) else q for q in a[:2]]
                return z3.If(c.a, x, y)
            return a[0] if (self.decide(c) if isinstance(c, Cond) else c) else a[1]
        if k in ("maxnum", "minnum", "maximum", "minimum"):
            x, y = self.num(a[0]), self.num(a[1])
            g = self.decide(gt(x, y)); return x if g == (k[:3] == "max") else y
        if k == "abs":
            w = rty.w
            if isinstance(a[0], int): return abs(s64(a[0], w)) & ((1 << w) - 1)
            if isinstance(a[0], SI): return SI(sym.neg(a[0].n), w) if self.decide(lt(a[0].n, 0)) else a[0]
        if k in ("round", "lround", "floor", "ceil", "trunc", "rint", "nearbyint"):
            x = self.num(a[0])
            return fround(self, k, x)
        if k == "usub":
            w = rty.w; x, y = self.conc(a[0], w), self.conc(a[1], w); return max(0, x - y)
        if k == "copysign":
            x, y = self.num(a[0]), self.num(a[1])
            nx = self.decide(lt(x, 0)); ny = self.decide(lt(y, 0))
            return x if nx == ny else sym.neg(x)
        if k == "is":  # llvm.is.fpclass
            x = a[0].n if isinstance(a[0], Abs) else self.num(a[0]); mask = self.conc(a[1], 32)
            if x is sym.NAN: return int(bool(mask & 3))
            if x is sym.INF: return int(bool(mask & 0x200))
            if x is sym.NINF: return int(bool(mask & 4))
            fin = mask & 0x1f8
            if fin == 0: return 0
            if fin == 0x1f8: return 1
            raise Unsupported("is.fpclass")
        if k in ("expect",): return a[0]
        if k == "ctpop": return bin(self.conc(a[0], rty.w)).count("1")
        if k in ("fshl",):
            w = rty.w; x, y, z = [self.conc(q, w) for q in a]; z %= w
            return ((x << z) | (y >> (w - z))) & ((1 << w) - 1) if z else x
        if k == "trap": raise PathEnd("trap")
        raise Unsupported("intrinsic " + n)

def fround(run, k, x):
    if x.op == "c":
        f = x.v
        if k in ("round", "lround"): r = math.floor(abs(f) + Fraction(1, 2)); return sym.const(r if f >= 0 else -r)
        return sym.const(dict(floor=math.floor, ceil=math.ceil, trunc=int)[k](f))
    h = sym.const(Fraction(1, 2))
    if k in ("round", "lround"):
        return sym.trunc(sym.add(x, h)) if run.decide(ge(x, 0)) else sym.trunc(sym.sub(x, h))
    t = sym.trunc(x)
    if k == "trunc": return t
    if k == "floor":
        if run.decide(ge(x, 0)): return t
        return t if run.decide(eq(x, t)) else sym.sub(t, sym.ONE)
    if k == "ceil":
        if run.decide(le(x, 0)): return t
        return t if run.decide(eq(x, t)) else sym.add(t, sym.ONE)
    raise Unsupported(k)

def _m1(f): return lambda r, a: r.simp(f(r.num(a[0])))
_special_ops = ("nan", "inf", "ninf")
def _free(r, a):
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None:
        if p.o.freed: raise MemError("double free")
        if p.off or p.o.kind != "heap": raise MemError("free() of a non-heap pointer %r" % p)
        p.o.freed = True
def _strlen(r, p):
    n = 0
    while True:
        r.chk(Ptr(p.o, p.off + n), 1, "read")
        if r.conc(r.rawload(p.o, p.off + n, 1), 8) == 0: return n
        n += 1
def _str(r, p):
    n = _strlen(r, p); return bytes(r.conc(r.rawload(p.o, p.off + k, 1), 8) for k in range(n))
def _abort(what): 
    def f(r, a): raise PathEnd(what)
    return f
def _calloc(r, a):
    n = r.conc(a[0], 64) * r.conc(a[1], 64); p = r.alloc(n, "heap"); 
    if n: r.memset(p, 0, n)
    return p
def _memalign(r, a):
    p = r.alloc(r.conc(a[2], 64), "heap"); r.store(a[0], llir.PTR, p); return 0
BUILTINS = {
    "sin": _m1(sym.sin), "cos": _m1(sym.cos), "tan": _m1(sym.tan), "asin": _m1(sym.asin), "acos": _m1(sym.acos), "atan": _m1(sym.atan),
    "sqrt": _m1(sym.sqrt), "exp": _m1(sym.exp), "log": _m1(sym.log),
    "sinf": _m1(sym.sin), "cosf": _m1(sym.cos), "sqrtf": _m1(sym.sqrt), "tanf": _m1(sym.tan), "atanf": _m1(sym.atan),
    "atan2": lambda r, a: sym.atan2(r.num(a[0]), r.num(a[1])),
    "atan2f": lambda r, a: sym.atan2(r.num(a[0]), r.num(a[1])),
    "fmax": lambda r, a: (lambda x, y: x if r.decide(gt(x, y)) else y)(r.num(a[0]), r.num(a[1])),
    "fmin": lambda r, a: (lambda x, y: x if r.decide(lt(x, y)) else y)(r.num(a[0]), r.num(a[1])),
    "round": lambda r, a: fround(r, "round", r.num(a[0])), "floor": lambda r, a: fround(r, "floor", r.num(a[0])), "ceil": lambda r, a: fround(r, "ceil", r.num(a[0])),
    "lround": lambda r, a: SI(fround(r, "round", r.num(a[0])), 64),
    "malloc": lambda r, a: r.alloc(r.conc(a[0], 64), "heap"),
    "calloc": _calloc, "posix_memalign": _memalign,
    "free": _free,
    "fprintf": lambda r, a: 0, "printf": lambda r, a: 0, "fwrite": lambda r, a: 0, "fputs": lambda r, a: 0, "puts": lambda r, a: 0, "fputc": lambda r, a: 0, "putchar": lambda r, a: 0, "fflush": lambda r, a: 0,
    "__assert_fail": _abort("assertion failed"), "abort": _abort("abort"), "exit": _abort("exit"), "longjmp": _abort("longjmp"),
    "strlen": lambda r, a: _strlen(r, a[0]),
    "strcmp": lambda r, a: (lambda x, y: 0 if x == y else (1 if x > y else 0xffffffff))(_str(r, a[0]), _str(r, a[1])),
}

class Callback:
    """A C function pointer implemented by the harness: fn(list of ints/values) -> int"""
    def __init__(self, fn, ctype=None): self.fn, self.ctype = fn, ctype
    def obj(self, run):
        o = Obj("callback", 0, "fn"); o.fn = lambda r, a: self.fn(r, a); return o

class BufS:
    """A buffer of the symbolic run"""
    def __init__(s, run, o, kind, sz, off=0): s.run, s.o, s.kind, s.sz, s.off = run, o, kind, sz, off
    def at(s, byteoff): return BufS(s.run, s.o, s.kind, s.sz, s.off + byteoff)
    def d(s, i, base=0):
        """i-th double; None if it was never written"""
        if s.off + 8 * i + base + 8 > s.o.size: raise Unsupported("harness reads out of bounds")
        return s.run.out(s.run.rawload(s.o, s.off + base + 8 * i, 8))
    def ds(s, n, base=0): return [s.d(i, base) for i in range(n)]
    def f(s, i):
        v = s.run.rawload(s.o, s.off + 4 * i, 4)
        if isinstance(v, int): return sym.fromdouble(struct.unpack("<f", v.to_bytes(4, "little"))[0])
        return v
    def i(s, i):
        v = s.run.rawload(s.o, s.off + 4 * i, 4)
        if isinstance(v, SI): v = s.run.conc(v, 32)
        if isinstance(v, int): return s64(v, 32)
        return v
    def b(s, i): return s.run.rawload(s.o, s.off + i, 1)
    def raw(s, off, size): return s.run.rawload(s.o, s.off + off, size)
    def cells(s): return s.o.cells

# ---------------------------------------------------------------- the same harness on the real library
SENT = 0xA5
SENTD = struct.unpack("<d", bytes([SENT] * 8))[0]
class BufC:
    def __init__(s, arr, kind, sz, off=0, size=None): s.arr, s.kind, s.sz, s.off = arr, kind, sz, off; s.size = size
    def at(s, byteoff): return BufC(s.arr, s.kind, s.sz, s.off + byteoff, s.size)
    def addr(s):
        if isinstance(s.arr, (FenceArr, NoGuardArr)): return s.arr.start + s.off
        return ctypes.addressof(s.arr) + s.off + GUARD
    def rawb(s, off, n): return bytes(s.arr[GUARD + s.off + off: GUARD + s.off + off + n])
    def d(s, i, base=0):
        b = s.rawb(base + 8 * i, 8)
        if b == bytes([SENT] * 8): return None
        return struct.unpack("<d", b)[0]
    def ds(s, n, base=0): return [s.d(i, base) for i in range(n)]
    def f(s, i):
        b = s.rawb(4 * i, 4)
        return None if b == bytes([SENT] * 4) else struct.unpack("<f", b)[0]
    def i(s, i):
        b = s.rawb(4 * i, 4)
        return None if b == bytes([SENT] * 4) else struct.unpack("<i", b)[0]
    def b(s, i):
        return s.rawb(i, 1)[0]
    def guard_ok(s):
        if isinstance(s.arr, (FenceArr, NoGuardArr)): return True
        a = bytes(s.arr); return a[:GUARD] == bytes([SENT] * GUARD) and a[GUARD + s.size:] == bytes([SENT] * GUARD)
GUARD = 64

class FenceArr:
    """raw memory; indexed as if it had a guard zone in front"""
    def __init__(s, start, size): s.start, s.size = start, size
    def __getitem__(s, sl): return list(ctypes.string_at(s.start + sl.start - GUARD, sl.stop - sl.start))
    def __setitem__(s, sl, b): ctypes.memmove(s.start + sl.start - GUARD, bytes(b), sl.stop - sl.start)
class NoGuardArr(FenceArr):
    def __init__(s, arr, size): s.keep = arr; FenceArr.__init__(s, ctypes.addressof(arr), size)

class Point3(ctypes.Structure):
    _fields_ = [("v", ctypes.c_double * 3)]

class CRun:
    """Runs a harness on the real compiled library, at concrete inputs"""
    symbolic = False
    def __init__(self, lib, env):
        self.lib, self.env = lib, env
        self.keep = []; self.memo = {}
        self.bufs = {}
    def S(self, name): return sym.var(name)
    def ev(self, v):
        if isinstance(v, Node): return float(sym.evaluate(v, self.env, self.memo))
        return float(v)
    def put(self, arr, off, kind, v):
        if v is None and kind != "p": return
        if kind == "d": b = struct.pack("<d", self.ev(v))
        elif kind == "f": b = struct.pack("<f", self.ev(v))
        elif kind == "p": b = struct.pack("<Q", 0 if v is None else v.addr())
        else:
            n = dict(i=4, h=2, b=1, q=8)[kind]
            if isinstance(v, Node): v = round(self.ev(v))
            elif not isinstance(v, (int, bool)): v = self.bvval(v)
            b = (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        arr[GUARD + off:GUARD + off + len(b)] = b
    def bvval(self, v): return bvval(v, self.env).as_long()
    fence = 0; noguard = False
    def raw(self, size):
        if self.fence:
            # the buffer ends (1) or starts (2) at a page which may not be accessed
            import mmap
            P = 4096; n = (size + P - 1) // P + 2
            m = mmap.mmap(-1, (n + 2) * P); self.keep.append(m)
            base = ctypes.addressof(ctypes.c_char.from_buffer(m))
            ctypes.memset(base, SENT, (n + 2) * P)
            libc = ctypes.CDLL(None)
            start = base + (n + 1) * P - size if self.fence == 1 else base + P
            prot = base + (n + 1) * P if self.fence == 1 else base
            if libc.mprotect(ctypes.c_void_p(prot), ctypes.c_size_t(P), 0) != 0: raise OSError("mprotect")
            arr = FenceArr(start, size); return arr
        if self.noguard:
            arr = NoGuardArr((ctypes.c_ubyte * max(size, 1))(*([SENT] * size)), size)
            self.keep.append(arr); return arr
        arr = (ctypes.c_ubyte * (size + 2 * GUARD))(*([SENT] * (size + 2 * GUARD)))
        self.keep.append(arr); return arr
    def buf(self, name, content, kind="d"):
        sz = dict(d=8, i=4, h=2, b=1, q=8, f=4, p=8)[kind]
        n = content if isinstance(content, int) else len(content)
        arr = self.raw(sz * n)
        if not isinstance(content, int):
            for k, v in enumerate(content): self.put(arr, sz * k, kind, v)
        b = BufC(arr, kind, sz, 0, sz * n); self.bufs[name] = b
        return b
    def mem(self, name, size, fields):
        arr = self.raw(size)
        for off, (k, v) in fields.items(): self.put(arr, off, k, v)
        b = BufC(arr, "b", 1, 0, size); self.bufs[name] = b
        return b
    def call(self, fname, *args, ret=None):
        f = getattr(self.lib, fname)
        f.restype = dict(void=None, int=ctypes.c_int, bool=ctypes.c_bool, double=ctypes.c_double, point3=Point3).get(ret)
        av = []
        for a in args:
            if a is None: av.append(ctypes.c_void_p(0))
            elif isinstance(a, BufC): av.append(ctypes.c_void_p(a.addr()))
            elif isinstance(a, bool): av.append(ctypes.c_int(int(a)))
            elif isinstance(a, int): av.append(ctypes.c_longlong(a))
            elif isinstance(a, (Node, float, Fraction)): av.append(ctypes.c_double(self.ev(a)))
            elif isinstance(a, Callback):
                cb = a.ctype(lambda *x: a.fn(self, x)); self.keep.append(cb); av.append(cb)
            elif isinstance(a, z3.BitVecRef): av.append(ctypes.c_longlong(self.bvval(a)))
            else: raise Unsupported("argument %r" % (a,))
        r = f(*av)
        for n, b in self.bufs.items():
            if not b.guard_ok(): raise MemError("write out of bounds of %s" % n)
        if ret == "point3": return list(r.v)
        return r
    def decide(self, c):
        if isinstance(c, int): return bool(c)
        h = Sample(self.env).holds(c)
        if h is None: raise Unsupported("undecided condition in a concrete run")
        return h
    def assume(self, c): pass
