"""Engine B: decides obligations about the real code, symbolically executed from LLVM IR (symexec.py).

A job's harness(run) calls functions of the library and returns a list of obligations:
   eq(name, got, expected)            got == expected, for every input on the path
   near(name, got, expected, tol)     |got-expected| <= tol, for polynomials over boxed variables
   true(name, cond)                   cond (a bool or a Cond) holds
The same harness runs on the compiled library at concrete inputs: replays, and validation of the executor."""
import os, sys, time, json, struct, pickle, ctypes, traceback, random, math, signal, subprocess
from fractions import Fraction
import mpmath, z3
import common, sym, poly, symexec, search
from sym import Node, Unsupported
from symexec import Engine, CRun, Sample, Cond, MemError, PathEnd, PathLimit, Stats, Callback, lt, le, gt, ge, eq as ceq, ne

class Eq:
    def __init__(s, name, got, exp, rtol=None, scale=None, cuts=()): s.name, s.got, s.exp, s.rtol, s.scale, s.cuts = name, got, exp, rtol, scale, cuts
class Near:
    """|got - exp| <= tol given box: {variable name: (lo, hi)}"""
    def __init__(s, name, got, exp, tol, box): s.name, s.got, s.exp, s.tol, s.box = name, got, exp, tol, box
class True_:
    def __init__(s, name, cond, timeout=8000): s.name, s.cond, s.timeout = name, cond, timeout
def eq(name, got, exp, **k): return Eq(name, got, sym.lift(exp), **k)
def near(*a, **k): return Near(*a, **k)
def true(name, cond, **k): return True_(name, cond, **k)

def eqs(prefix, got, exp, **k):
    assert len(got) == len(exp), (prefix, len(got), len(exp))
    return [eq("%s[%d]" % (prefix, i), g, e, **k) for i, (g, e) in enumerate(zip(got, exp))]

class Job:
    def __init__(self, name, mods, harness, gen, pre=(), nsamples=6, positive=(), rtol=1e-6, stubs=None, deadline=120, key=None,
                 nra_ms=400, env_ext=None, expected_end=(), max_paths=3000, poly_limit=400000, per_obl=20, regimes=None, reals=2, novalidate=False, pre_z3=(), hints=None, part=None, roots=(), splitint=False):
        self.__dict__.update(locals()); del self.__dict__["self"]

def fround(env):
    """all the inputs are doubles"""
    return {k: (mpmath.mpf(float(v)) if not isinstance(v, int) else v) for k, v in env.items()}

def samples_of(job, seed):
    rng = random.Random(seed * 7919 + 13)
    out = []
    n = 0
    mpmath.mp.dps = 50
    while len(out) < job.nsamples and n < job.nsamples * 60:
        e = job.gen(rng, n); n += 1
        if e is None: continue
        e = fround(e)
        if job.env_ext: job.env_ext(e)
        s = Sample(e)
        if all(s.holds(c) for c in job.pre): out.append(s)
    return out

def substitution(conds, subst):
    """Variables pinned by equalities on the path"""
    m = {}
    for nid, k in subst.items(): m[nid] = sym.const(k)
    def terms_of_squares(n):
        """sum of squares of variables -> [vars] or None"""
        st, out = [n], []
        while st:
            t = st.pop()
            if t.op == "+": st.extend(t.a)
            elif t.op == "*" and t.a[0] is t.a[1]: out.append(t.a[0])
            elif t.op == "sqrt": st.append(t.a[0])
            else: return None
        return out
    eqz = [c.a for c in conds if isinstance(c, Cond) and c.k == "sign" and c.b == frozenset((0,))]
    # sum of squares <= 0
    eqz += [c.a for c in conds if isinstance(c, Cond) and c.k == "sign" and 1 not in c.b and 0 in c.b and terms_of_squares(c.a)]
    for e in eqz:
        ts = terms_of_squares(e)
        if ts:
            for t in ts:
                if t.op == "v": m[t.id] = sym.ZERO
            continue
        if e.op == "v": m[e.id] = sym.ZERO; continue
        # linear with a variable of constant coefficient: v = ...
        for vn in varsof(e):
            if vn.id in m: continue
            try: d = sym.diff(e, vn)
            except Exception: continue
            if d.op == "c" and d.v != 0:
                rest = sym.substitute(e, {vn.id: sym.ZERO})
                m[vn.id] = sym.neg(sym.div(rest, d)); break
    return m

_vm = {}
def varsof(n):
    r = _vm.get(n.id)
    if r is None:
        r = _vm[n.id] = [v if isinstance(v, Node) else sym.var(v) for v in sym.variables(n)]
    return r
def undefd(n): return any(v.v.startswith(("UNDEF", "UNINIT")) for v in varsof(n))

def dag(n, out=None):
    out = {} if out is None else out
    st = [n]
    while st:
        t = st.pop()
        if t.id in out: continue
        out[t.id] = t; st.extend(t.a)
    return out
_ncut = [0]
def cut_zero(got, exp, sub):
    """got == exp with the sums that both contain replaced by unknowns: sound, and cheap for large expressions; False if undecided"""
    if sub: got, exp = sym.substitute(got, sub), sym.substitute(exp, sub)
    a, b = dag(got), dag(exp)
    if len(a) + len(b) < 80: return False
    common_ = [n for i, n in a.items() if i in b and n.op in ("+", "sqrt", "sin", "cos", "acos", "asin", "atan2")]
    if not common_: return False
    m = {}
    for n in common_: _ncut[0] += 1; m[n.id] = sym.var("cut!%d" % n.id)
    memo = {}
    E = sym.sub(sym.substitute(got, m, memo), sym.substitute(exp, m, memo))
    if E.op == "c": return E.v == 0
    c = poly.Ctx(limit=20000, deadline=time.time() + 4)
    try:
        c.scan_angles([E]); return bool(c.zero(E))
    except Exception: return False

def cut_at(E, cuts):
    """E == 0 whatever the values of the given subterms are"""
    E = sym.substitute(E, {n.id: sym.var("cut!%d" % n.id) for n in cuts if n.op not in ("c", "v")})
    if E.op == "c": return E.v == 0
    if os.environ.get("VF_CUT"): print("cut:", sorted(v.v for v in sym.variables(E)), len(dag(E)), len([n for n in dag(E).values() if n.op == "uf"]))
    c = poly.Ctx(limit=60000, deadline=time.time() + 10)
    try:
        c.scan_angles([E]); return bool(c.zero(E))
    except Exception: return False

class _Trace(list):
    def append(s, o):
        t = time.time(); print("%.2f %s %s %s" % (t - getattr(s, "t", t), o["status"], o["name"], str(o.get("how", o.get("detail")))[:100]), flush=True); s.t = t
        list.append(s, o)
class Result:
    def __init__(self):
        self.obl = _Trace() if os.environ.get('VF_TRACE') else []; self.viol = []; self.errors = []; self.funcs = set(); self.validated = 0; self.paths = 0
        self.queries = 0; self.seconds = 0.; self.samples = []; self.memsafe_paths = 0

def toler(job, o, exp):
    rt = o.rtol or job.rtol
    sc = o.scale if o.scale is not None else 0
    return rt * (abs(exp) + (1e-3 if not sc else sc)) 

def concrete(job, lib, env, fence=False):
    """Runs the harness on the real library. -> list of (name, status, text); status in ok/bad"""
    run = CRun(lib, env)
    run.fence = fence
    try: obs = job.harness(run)
    except MemError as e: return [("memory", "bad", str(e))], {}
    out, vals = [], {}
    smp = Sample(env)
    seen = {}
    for o in obs:
        k = o.name
        if isinstance(o, (Eq, Near)):
            g = o.got
            if isinstance(g, Node): g = float(smp.val(g))
            vals[k] = g
            if g is None: out.append((k, "bad", "output never written")); continue
            try: x = smp.val(o.exp)
            except (ZeroDivisionError, ValueError): out.append((k, "ok", "undefined")); continue
            t = (o.tol + 1e-9 * abs(x) + 1e-12) if isinstance(o, Near) else toler(job, o, x)
            d = abs(mpmath.mpf(g) - x) if math.isfinite(g) else mpmath.inf
            out.append((k, "ok" if d <= t else "bad", "got %.17g, expected %s" % (g, mpmath.nstr(x, 17))))
        else:
            c = o.cond
            h = smp.holds(c) if isinstance(c, (Cond, int, bool)) else bool(c)
            if h is None: out.append((k, "ok", "undefined")); continue
            out.append((k, "ok" if h else "bad", "condition is %s" % h))
    return out, vals

def in_child(fn, timeout=60):
    """fn() in a forked child -> (status, value); status ok / died / timeout"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            # silence the library
            dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            try: v = ("ok", fn())
            except BaseException as e: v = ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            b = pickle.dumps(v)
            with os.fdopen(w, "wb") as f: f.write(b)
        finally: os._exit(0)
    os.close(w)
    buf = b""; t0 = time.time()
    import select
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); return "timeout", None
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            x = os.read(r, 1 << 16)
            if not x: break
            buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf: return "died", "killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exited with %d" % os.WEXITSTATUS(st)
    return pickle.loads(buf)

_lib = {}
EXTRA = ()      # more C sources, linked into the library that replays use
def lib(flags=("-O2",), extra=None):
    if extra is None: extra = EXTRA
    if (flags, extra) not in _lib: _lib[flags, extra] = ctypes.CDLL(common.build_so(flags, extra_sources=extra))
    return _lib[flags, extra]

def envtext(env): return " ".join("%s=%s" % (k, float(v).hex() + "(%.17g)" % float(v) if not isinstance(v, int) else v) for k, v in sorted(env.items()))

def replay(job, env, L):
    """The harness on the real code in a child. -> (bad list, text)"""
    st, v = in_child(lambda: [x for x in concrete(job, L, env)[0]], 60)
    if st in ("died", "timeout"): return [("crash", "bad", "the real code %s: %s" % (st, v))]
    if st == "exc": return [("exc", "exc", v)]
    bad = [x for x in v if x[1] == "bad"]
    if not bad and os.environ.get("VF_NOFENCE") is None:
        for side in (1, 2):
            st, v = in_child(lambda: [x for x in concrete(job, L, env, fence=side)[0]], 60)
            if st == "died": return [("crash", "bad", "the real code touches memory outside of its arguments (%s)" % v)]
    return bad

def replay_asan(job, env):
    """Re-runs one job at one point under AddressSanitizer, in a new process"""
    so = common.build_so(("-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"), extra_sources=tuple(EXTRA), name="libmrcal-asan.so")
    asan = common.run(["gcc", "-print-file-name=libasan.so"]).stdout.strip()
    e = dict(os.environ, LD_PRELOAD=asan, ASAN_OPTIONS="detect_leaks=0:exitcode=43", PYTHONMALLOC="malloc",
             VF_REPLAY=json.dumps(dict(job=job.name, so=so, env={k: (float(v).hex() if not isinstance(v, int) else v) for k, v in env.items()})))
    r = subprocess.run([sys.executable] + sys.argv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    return r.returncode, r.stdout[-3000:]

def run_replay_request(jobs):
    q = os.environ.get("VF_REPLAY")
    if not q: return
    q = json.loads(q)
    job = [j for j in jobs if j.name == q["job"]][0]
    env = {k: (mpmath.mpf(float.fromhex(v)) if isinstance(v, str) else v) for k, v in q["env"].items()}
    if job.env_ext: job.env_ext(env)
    L = ctypes.CDLL(q["so"])
    mpmath.mp.dps = 50
    run = CRun(L, env)
    run.noguard = True
    try: job.harness(run)
    except MemError as e: print("MEMERR", e); os._exit(43)
    os._exit(0)

def run_job(job, lib_flags=("-O2",)):
    """-> Result"""
    R = Result()
    mpmath.mp.dps = 50
    t0 = time.time()
    L = lib(lib_flags)
    E = Engine(job.mods, job.stubs, job.nra_ms); E.max_paths = job.max_paths; E.hints = job.hints; E.roots = job.roots; E.splitint = job.splitint; E.part = job.part
    q0, s0 = Stats.queries, Stats.seconds
    smp = samples_of(job, common.SEED)
    if not smp: R.errors.append(job.name + ": no sample satisfies the preconditions"); return R
    R.samples.append(dict(job=job.name, input={k: float(v) for k, v in list(smp[0].env.items())[:30]}))
    try:
        paths = E.explore(job.harness, smp, job.pre, deadline=t0 + job.deadline)
    except (PathLimit, Unsupported) as e:
        R.obl.append(dict(name=job.name, status="undischarged", detail="%s: %s" % (type(e).__name__, e)))
        paths = []
        # the part which could not be encoded is reported, not guessed
    R.funcs = E.executed; R.paths = len(paths)
    nreached = 0
    violated = set()
    timed = {}; searched = {}
    for ip, p in enumerate(paths):
        pn = "%s/path%d" % (job.name, ip)
        if os.environ.get("VF_DUMP"):
            print(pn, p.status, p.detail, "samples", len(p.samples))
            for c in p.conds: print("    ", c.k, c.b, str(c.a)[:int(os.environ["VF_DUMP"])])
        if p.status == "end" and (p.detail in job.expected_end or any(p.detail.startswith(x) for x in job.expected_end)): continue
        if p.status in ("memerr", "end", "divbyzero"):
            if not p.samples:
                # is the path really feasible?
                s = model_sample(job, p)
                if s is None:
                    R.obl.append(dict(name=pn, status="undischarged", detail="%s: %s (no concrete input found)" % (p.status, p.detail))); continue
                p.samples = [s]
            if p.status == "divbyzero":
                R.obl.append(dict(name=pn, status="undischarged", detail="division by zero: " + p.detail)); continue
            env = p.samples[0].env
            bad = replay(job, env, L)
            bad = [b for b in bad if b[1] == "bad"]
            txt = None
            if bad: txt = repr(bad)
            else:
                try:
                    rc, out = replay_asan(job, env)
                    if rc == 43 or rc < 0: txt = "AddressSanitizer: " + out
                except Exception as e: out = repr(e)
            if txt:
                if (job.name, p.detail[:40]) not in violated:
                    violated.add((job.name, p.detail[:40]))
                    R.viol.append(("%s: %s: %s" % (job.name, p.status, p.detail), txt + "\ninput: " + envtext(env), job.key))
                R.obl.append(dict(name=pn, status="violated", detail=p.detail))
            else:
                R.obl.append(dict(name=pn, status="undischarged", detail="%s: %s: does not reproduce on the real build" % (p.status, p.detail)))
            continue
        R.memsafe_paths += 1
        if p.samples: nreached += 1
        # validation of the executor on the real library
        real = {}
        if not job.novalidate:
            for s in p.samples[:job.reals]:
                st, v = in_child(lambda: concrete(job, L, s.env), 60)
                if st != "ok":
                    if st in ("died",):
                        R.viol.append(("%s: the real code crashed" % job.name, "%s\ninput: %s" % (v, envtext(s.env)), job.key)); violated.add("crash")
                    else: R.errors.append("%s: real run: %s %s" % (job.name, st, v))
                    continue
                real[id(s)] = v
                R.validated += sum(1 for x in v[0] if x[1] == "ok" and isinstance(x[0], str) and x[0] not in v[1])
                for o in p.out:
                    if isinstance(o, Eq) and isinstance(o.got, Node) and o.name in v[1]:
                        try: x = s.val(o.got)
                        except (ZeroDivisionError, ValueError): continue
                        g = v[1][o.name]
                        if undefd(o.got): continue
                        if g is None or not math.isfinite(g) or abs(mpmath.mpf(g) - x) > 10 * toler(job, o, x) + 1e-9:
                            R.errors.append("%s %s: the symbolic execution gives %s, the real code %s at %s" % (pn, o.name, mpmath.nstr(x, 17), g, envtext(s.env)))
                        R.validated += 1
        sub = substitution(p.conds, p.subst)
        ctx = None; zc = {}
        for o in p.out:
            on = "%s:%s" % (pn, o.name)
            vkey = (job.name, o.name.split("[")[0])
            def candidate(s, why):
                """a point at which the obligation fails symbolically"""
                bad = replay(job, s.env, L)
                hit = [b for b in bad if b[1] == "bad"]
                same = [b for b in hit if b[0] == o.name] or hit
                if same:
                    R.obl.append(dict(name=on, status="violated"))
                    if vkey not in violated:
                        violated.add(vkey)
                        R.viol.append(("%s: %s" % (job.name, o.name), "%s: %s (%s)\ninput: %s" % (same[0][0], same[0][2], why, envtext(s.env)), job.key))
                    return True
                if bad and bad[0][1] == "exc": R.errors.append(bad[0][2])
                return False
            if isinstance(o, True_):
                c = o.cond
                if c is True or c == 1 and isinstance(c, int): R.obl.append(dict(name=on, status="proved", how="structural")); continue
                if not isinstance(c, Cond):
                    s = p.samples[0] if p.samples else model_sample(job, p)
                    if s is None: R.obl.append(dict(name=on, status="undischarged", detail="false on a path without a concrete input")); continue
                    if not candidate(s, "false on this path"): R.obl.append(dict(name=on, status="undischarged", detail="does not reproduce"))
                    continue
                f = [s for s in p.samples if s.holds(c) is False]
                if any(candidate(s, "negation satisfied") for s in f[:3]): continue
                # z3
                sc = [simp_cond(x, sub) for x in p.conds]; cc = simp_cond(symexec.cnot(c), sub)
                r = symexec.z3_check(sc + [cc], True, 3000)
                if r != z3.unsat: r, m = symexec.z3_check(sc + [cc], False, o.timeout, want_model=True)
                else: m = None
                if r == z3.unsat: R.obl.append(dict(name=on, status="proved", how="z3 nra")); continue
                if r == z3.sat:
                    s = sample_from_model(job, m, p)
                    if s is not None and candidate(s, "z3 model"): continue
                R.obl.append(dict(name=on, status="undischarged", detail="z3: %s" % r)); continue
            got = o.got
            if got is None or (isinstance(got, Node) and got.op in ("nan", "inf", "ninf")):
                s = p.samples[0] if p.samples else model_sample(job, p)
                if s is None: R.obl.append(dict(name=on, status="undischarged", detail="not written / not finite, on a path without a concrete input")); continue
                if not candidate(s, "never written or not finite on this path"):
                    R.obl.append(dict(name=on, status="undischarged", detail="not written: does not reproduce"))
                continue
            if isinstance(got, symexec.SI): got = got.n
            if isinstance(got, int): got = sym.const(got)
            if undefd(got):
                s = p.samples[0] if p.samples else model_sample(job, p)
                if s is not None:
                    e = dict(s.env)
                    if candidate(s, "depends on uninitialized memory"): continue
                R.obl.append(dict(name=on, status="undischarged", detail="depends on uninitialized memory")); continue
            Ex = sym.sub(got, o.exp)
            if isinstance(o, Near):
                f = []
                for s in p.samples:
                    try:
                        if abs(s.val(Ex)) > o.tol: f.append(s)
                    except (ZeroDivisionError, ValueError): pass
                if any(candidate(s, "beyond the tolerance") for s in f[:3]): continue
                ok, how = prove_near(Ex, o.tol, o.box, sub)
                R.obl.append(dict(name=on, status="proved" if ok else "undischarged", how=how, detail=how)); continue
            if Ex.op == "c" and Ex.v == 0:
                R.obl.append(dict(name=on, status="proved", how="identical terms")); continue
            E2 = sym.substitute(Ex, sub) if sub else Ex
            if E2.op == "c" and E2.v == 0:
                R.obl.append(dict(name=on, status="proved", how="identical terms after the path's equalities")); continue
            # the negation at points of the path
            f = []
            for s in p.samples:
                try:
                    v = s.val(Ex); x = s.val(o.exp)
                    if abs(v) > mpmath.mpf(10) ** -30 * (1 + abs(x)) and abs(v) > toler(job, o, x): f.append(s)
                except (ZeroDivisionError, ValueError): pass
            if f and any(candidate(s, "residual %s" % mpmath.nstr(s.val(Ex), 8)) for s in f[:3]): continue
            if not p.samples:
                s = model_sample(job, p)
                if s is not None:
                    p.samples = [s]
                    try:
                        if abs(s.val(Ex)) > toler(job, o, s.val(o.exp)) and candidate(s, "residual %s" % mpmath.nstr(s.val(Ex), 8)): continue
                    except (ZeroDivisionError, ValueError): pass
            if zc.get(E2.id) or o.cuts and cut_at(E2, o.cuts) or cut_zero(got, o.exp, sub):
                zc[E2.id] = True
                R.obl.append(dict(name=on, status="proved", how="normal form over common subterms")); continue
            try:
                if ctx is None:
                    ctx = poly.Ctx(positive=(), limit=job.poly_limit, deadline=time.time() + job.per_obl)
                    roots = [sym.substitute(sym.sub(q.got, q.exp), sub) if sub else sym.sub(q.got, q.exp) for q in p.out if isinstance(q, Eq) and isinstance(q.got, Node) and q.got.op not in ("nan", "inf", "ninf")]
                    ctx.scan_angles(roots)
                    for n in job.positive: ctx.assume_positive(n)
                    for c in p.conds:
                        if isinstance(c, Cond) and c.k == "sign" and c.b == frozenset((1,)):
                            try: ctx.assume_positive(sym.substitute(c.a, sub) if sub else c.a)
                            except Exception: pass
                        elif isinstance(c, Cond) and c.k == "sign" and c.b == frozenset((-1,)):
                            try: ctx.assume_positive(sym.neg(sym.substitute(c.a, sub) if sub else c.a))
                            except Exception: pass
                ctx.deadline = time.time() + job.per_obl
                if E2.id not in zc: zc[E2.id] = ctx.zero(E2)
                z = zc[E2.id]
            except poly.Blowup as e:
                z = None; ctx = None
                R.obl.append(dict(name=on, status="undischarged", detail="normal form: %s" % e)); continue
            except (Unsupported, sym.DivByZero, RecursionError, OverflowError, AssertionError) as e:
                R.obl.append(dict(name=on, status="undischarged", detail="normal form: %s %s" % (type(e).__name__, e))); ctx = None; continue
            if z:
                R.obl.append(dict(name=on, status="proved", how="normal form"))
            else:
                # last resort: z3 with the path's conditions
                r = symexec.z3_check([simp_cond(x, sub) for x in p.conds] + [ne(E2, 0)], False, 3000)
                if r == z3.unsat: R.obl.append(dict(name=on, status="proved", how="z3 nra"))
                else:
                    # an input at which the residual is beyond the tolerance?
                    if searched.get(vkey, 0) < 2 and vkey not in violated and time.time() - t0 < job.deadline + 60:
                        searched[vkey] = searched.get(vkey, 0) + 1
                        big = sym.const(Fraction(2 * (o.rtol or job.rtol))); off = Fraction(1e-3 if not o.scale else o.scale)
                        tl = sym.mul(big, sym.add(sym.mul(o.exp, o.exp), sym.const(off + off*off)))
                        s = search_point(job, p.conds, [symexec.cor(gt(Ex, tl), lt(Ex, sym.neg(tl)))])
                        if s is not None and candidate(s, "residual %s" % mpmath.nstr(s.val(Ex), 8)): continue
                    R.obl.append(dict(name=on, status="undischarged", detail="normal form is not zero; not refuted either (z3: %s)" % r))
    if paths and not nreached and not R.viol and not job.part:
        R.errors.append(job.name + ": no path was reached by a concrete input: vacuous")
    R.queries, R.seconds = Stats.queries - q0, time.time() - t0
    return R

def simp_cond(c, sub):
    if not sub or not isinstance(c, Cond): return c
    if c.k == "sign":
        n = sym.substitute(c.a, sub)
        if n.op == "c": return 1 if ((n.v > 0) - (n.v < 0)) in c.b else 0
        return Cond("sign", n, c.b)
    if c.k == "not": return symexec.cnot(simp_cond(c.a, sub))
    if c.k in ("and", "or"):
        f = symexec.cand if c.k == "and" else symexec.cor
        return f(simp_cond(c.a, sub), simp_cond(c.b, sub))
    return c

def sample_from_model(job, m, p):
    if m is None: return None
    rng = random.Random(5); base = None
    for k in range(50):
        base = job.gen(rng, k)
        if base is not None: break
    e = fround(base or {})
    for d in m.decls():
        n = d.name()
        if n in e:
            v = m[d]
            try:
                if z3.is_bv_value(v): e[n] = v.as_long(); continue
                if z3.is_int_value(v): e[n] = mpmath.mpf(v.as_long()); continue
                if z3.is_algebraic_value(v): v = v.approx(30)
                e[n] = mpmath.mpf(float(Fraction(v.numerator_as_long(), v.denominator_as_long())))
            except Exception: pass
    if job.env_ext: job.env_ext(e)
    s = Sample(e)
    if all(s.holds(c) is not False for c in job.pre) and all(s.holds(c) is not False for c in p.conds): return s
    return None

_msc = {}
def model_sample(job, p):
    if id(p) not in _msc: _msc[id(p)] = (model_sample_(job, p), p)
    return _msc[id(p)][0]
def model_sample_(job, p):
    r, m = symexec.z3_check(p.conds, False, 4000, want_model=True)
    if r == z3.sat:
        s = sample_from_model(job, m, p)
        if s is not None: return s
    rng = random.Random(common.SEED + 99)
    for k in range(300):
        e = job.gen(rng, k)
        if e is None: continue
        e = fround(e)
        if job.env_ext: job.env_ext(e)
        s = Sample(e)
        if all(s.holds(c) for c in job.pre) and all(s.holds(c) is not False for c in p.conds) and not s.bad: return s
    return search_point(job, p.conds)

def search_point(job, conds, extra=(), budget=8.):
    """A concrete input which satisfies the preconditions, the path and extra, by local search from the generator's points"""
    if any(isinstance(c, Cond) and symexec.hasbv(c) for c in conds): return None
    rng = random.Random(common.SEED + 7); starts = []
    for k in range(40):
        e = job.gen(rng, k)
        if e is not None: starts.append(fround(e))
    got = []
    def accept(e):
        e = fround(e)
        if job.env_ext: job.env_ext(e)
        s = Sample(e)
        if all(s.holds(c) for c in job.pre) and all(s.holds(c) is not False for c in conds) and all(s.holds(c) for c in extra) and not s.bad:
            got.append(s); return True
        return False
    return got[0] if search.find(list(job.pre) + list(conds) + list(extra), starts, accept, budget) else None

def prove_near(E, tol, box, sub):
    """|E| <= tol for a polynomial E over boxed variables: z3, linear in the monomials with the monomials' interval bounds as axioms"""
    ctx = poly.Ctx(limit=200000, deadline=time.time() + 20)
    if sub: E = sym.substitute(E, sub)
    try:
        ctx.scan_angles([E]); A = ctx.conv(E)
    except Exception as e: return False, "normal form: %r" % e
    nums, den = A
    s = z3.Solver(); s.set("timeout", 10000)
    tot = []
    for i, (mono, coef) in enumerate(nums.items()):
        lo, hi = Fraction(1), Fraction(1)
        for a, e in ctx.exps(mono):
            at = ctx.atoms[a]
            if at["kind"] != "v" or e < 0: return False, "not a polynomial (%s)" % at["kind"]
            nm = at["name"] if "name" in at else at["node"].v
            if nm not in box: return False, "unbounded " + nm
            l, h = [Fraction(x) for x in box[nm]]
            ps = [l ** e, h ** e]
            l2, h2 = min(ps), max(ps)
            if e % 2 == 0 and l < 0 < h: l2 = Fraction(0)
            c = [lo * l2, lo * h2, hi * l2, hi * h2]; lo, hi = min(c), max(c)
        v = z3.Real("m%d" % i)
        s.add(v >= z3.RealVal(str(lo)), v <= z3.RealVal(str(hi)))
        tot.append(z3.RealVal(str(Fraction(coef, 1) / den)) * v)
    t = z3.Sum(tot) if tot else z3.RealVal(0)
    tl = z3.RealVal(str(Fraction(tol)))
    s.add(z3.Or(t > tl, t < -tl))
    t0 = time.time(); r = s.check(); Stats.queries += 1; Stats.seconds += time.time() - t0
    return r == z3.unsat, "z3 lra over %d bounded monomials: %s" % (len(tot), r)

# ---------------------------------------------------------------- parallel running
def run_jobs(c, jobs, workers=8, timeout=400, lib_flags=("-O2",), prep=None):
    run_replay_request(jobs)
    flt = os.environ.get("VF_JOBS")
    if flt:
        import re
        jobs = [j for j in jobs if re.search(flt, j.name)]
    lib(lib_flags)     # built once, before forking
    work = list(enumerate(jobs)); running = {}
    results = {}
    import select
    while work or running:
        while work and len(running) < workers:
            i, j = work.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                rc = 0
                try:
                    common._in_child = True
                    try: res = run_job(j, lib_flags)
                    except BaseException as e:
                        res = Result(); res.errors.append("%s: %s: %s\n%s" % (j.name, type(e).__name__, e, traceback.format_exc()[-2500:]))
                    b = pickle.dumps(res)
                    with os.fdopen(w, "wb") as f: f.write(b)
                except BaseException: traceback.print_exc()
                finally: os._exit(0)
            os.close(w)
            running[r] = (i, j, pid, time.time(), [])
        rl, _, _ = select.select(list(running), [], [], 1)
        for r in rl:
            x = os.read(r, 1 << 20)
            if x: running[r][4].append(x); continue
            i, j, pid, t0, buf = running.pop(r); os.close(r); os.waitpid(pid, 0)
            if buf: results[i] = pickle.loads(b"".join(buf))
            else:
                results[i] = Result(); results[i].errors.append(j.name + ": the worker died")
            results[i].wall = time.time() - t0
        for r in list(running):
            i, j, pid, t0, buf = running[r]
            if time.time() - t0 > timeout:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); del running[r]
                results[i] = Result(); results[i].obl.append(dict(name=j.name, status="undischarged", detail="worker timeout %ds" % timeout))
                results[i].wall = timeout
    for i, j in enumerate(jobs):
        R = results[i]
        nb = dict()
        for o in R.obl: c.obl.append(o); nb[o["status"]] = nb.get(o["status"], 0) + 1
        for n, t, k in R.viol: c.violation(n, t, key=k)
        c.errors += R.errors
        c.functions |= R.funcs
        c.queries += R.queries + len(R.obl); c.solver_s += R.seconds
        c.samples += R.samples
        c.extra["traces_validated_against_impl"] = c.extra.get("traces_validated_against_impl", 0) + R.validated
        c.extra["paths"] = c.extra.get("paths", 0) + R.paths
        c.extra.setdefault("jobs", {})[j.name] = dict(paths=R.paths, obligations=nb, wall_s=round(getattr(R, "wall", 0), 1))
        if os.environ.get("VF_VERBOSE"): print(j.name, "paths", R.paths, nb, "validated", R.validated, "%.1fs" % getattr(R, "wall", 0))

EXPL = ("The functions are compiled by clang to LLVM IR from the current sources and executed symbolically (lib/symexec.py): every input is a real variable, "
        "feasibility of every branch is decided with z3 (linear abstraction, then nonlinear arithmetic), and each obligation on each path is decided for all values "
        "by an exact normal form over polynomials, radicals and trigonometric terms (lib/poly.py) or by z3. A nonzero residual is turned into a concrete input that "
        "is replayed on the compiled library before it is reported. Each path's witness inputs are also run on the compiled library and compared with the symbolic result.")
ASSUME = ["floating-point numbers are treated as exact reals (rounding, overflow and cancellation are not modelled)",
          "expressions are compared where they are defined: denominators are nonzero and square-root arguments nonnegative along the path"]
