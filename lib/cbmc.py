"""Bounded model checking of the real C sources with CBMC, with replay of counterexamples on the real build."""
import os, json, re, subprocess, time, struct, threading
from concurrent.futures import ThreadPoolExecutor
import common
from common import src, scratch, run, SUITESPARSE

H = os.path.join(common.VERIF, "harness")
_gb = {}
_lock = threading.RLock()

def goto(path, defs=()):
    key = (path, tuple(defs))
    with _lock:
        if key in _gb: return _gb[key]
        return _goto(path, defs, key)

def _goto(path, defs, key):
    d = src()
    o = os.path.join(scratch(), "gb%d-%s.gb" % (len(_gb), re.sub(r"\W", "_", os.path.basename(path))))
    run(["goto-cc", "-D__CPROVER", "-std=gnu11", "-D_GNU_SOURCE", "-DMRBUILD_VERSION=\"x\"", "-I", d, "-I", H, "-I", os.path.join(H, "stubs"), "-I", SUITESPARSE,
         *["-D" + x for x in defs], "-c", path, "-o", o])
    _gb[key] = o
    return o

def parse_value(v):
    """A CBMC JSON value -> decimal text"""
    b = v.get("binary"); t = v.get("type", ""); n = v.get("name", "")
    if n == "float" or t in ("double", "float"):
        if b and len(b) == 64: return repr(struct.unpack("<d", int(b, 2).to_bytes(8, "little"))[0])
        if b and len(b) == 32: return repr(struct.unpack("<f", int(b, 2).to_bytes(4, "little"))[0])
    if b and n in ("integer", "boolean", "unknown", "") :
        u = int(b, 2)
        if "unsigned" not in t and not t.startswith("uint") and t not in ("bool", "_Bool") and b[0] == "1" and len(b) > 1:
            u -= 1 << len(b)
        return str(u)
    d = v.get("data")
    return str(d)

def inputs_of(trace):
    out = []
    for s in trace:
        if s.get("stepType") == "input":
            for v in s.get("values", []):
                out.append((s["inputID"], parse_value(v)))
    return out

class CBMC:
    def __init__(self, check, sources, harness, extra_defs=(), unwind=10, unwindset=(), flags=(), timeout=600, so_flags=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"),
                 replay_sources=None, object_bits=None, remove_bodies=()):
        self.c, self.sources, self.harness = check, sources, harness
        self.extra_defs, self.unwind, self.unwindset, self.flags, self.timeout = tuple(extra_defs), unwind, unwindset, list(flags), timeout
        self.so_flags = so_flags; self.object_bits = object_bits
        self.remove_bodies = remove_bodies

    def _cmd(self, fn, twin, defs, unwind, unwindset):
        d = src()
        gbs = [goto(os.path.join(H, self.harness), self.extra_defs + tuple(defs) + (("TWIN",) if twin else ()))]
        for s in self.sources:
            gbs.append(goto(s if os.path.isabs(s) else os.path.join(d, s)))
        with _lock:
            self._n = getattr(self, "_n", 0) + 1
            o = os.path.join(scratch(), "%s-%s-%d-%d.gb" % (self.harness.replace(".", "_"), fn, int(twin), self._n))
        run(["goto-cc", "--function", fn, *gbs, "-o", o])
        if self.remove_bodies:
            o2 = o + "2"
            run(["goto-instrument", *sum((["--remove-function-body", f] for f in self.remove_bodies), []), o, o2]); o = o2
        cmd = ["cbmc", o, "--json-ui", "--unwind", str(unwind), "--no-malloc-may-fail", "--drop-unused-functions", "--slice-formula", "--sat-solver", "cadical"]
        for u in unwindset: cmd += ["--unwindset", u]
        if self.object_bits: cmd += ["--object-bits", str(self.object_bits)]
        if twin:
            cmd += ["--no-standard-checks", "--trace"]
        else:
            cmd += ["--unwinding-assertions", "--trace"] + self.flags
        return cmd

    def _run(self, cmd):
        t = time.time()
        try:
            r = subprocess.run(["timeout", str(self.timeout)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except Exception as e:
            return None, str(e), time.time() - t
        dt = time.time() - t
        if r.returncode == 124: return None, "timeout", dt
        try:
            js = json.loads(r.stdout)
        except Exception:
            return None, "unparsable output rc=%d: %s" % (r.returncode, (r.stdout[-500:] + r.stderr[-500:])), dt
        return js, None, dt

    def replay_exe(self, fn, defs):
        so = common.build_so(self.so_flags)
        d = src()
        with _lock:
            self._n = getattr(self, "_n", 0) + 1
            exe = os.path.join(scratch(), "replay-%s-%d" % (fn, self._n))
        run(["gcc", "-w", "-g1", "-std=gnu11", "-D_GNU_SOURCE", *self.so_flags, "-I", d, "-I", H, "-I", os.path.join(H, "stubs"), "-I", SUITESPARSE, "-DVH_FUNCTION=" + fn,
             *["-D" + x for x in self.extra_defs + tuple(defs)], os.path.join(H, self.harness), os.path.join(H, "vh_replay.c"), so,
             "-Wl,-rpath," + os.path.dirname(so), "-lm", "-o", exe])
        return exe

    def replay(self, fn, inputs, defs):
        """-> (verdict, text): 'violated', 'ok', 'assume', 'error'"""
        exe = self.replay_exe(fn, defs)
        f = exe + ".in"
        with open(f, "w") as o:
            for k, v in inputs: o.write("%s %s\n" % (k, v))
        env = dict(os.environ, ASAN_OPTIONS="exitcode=43:detect_leaks=%d" % (1 if "LEAKS" in defs else 0), UBSAN_OPTIONS="print_stacktrace=1:exitcode=44")
        try:
            r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=env)
        except subprocess.TimeoutExpired:
            return "violated", "the real code did not terminate within 60 s"
        txt = r.stdout[-3000:]
        if r.returncode == 77: return "assume", txt
        if r.returncode == 0: return "ok", txt
        return "violated", "exit code %d\n%s" % (r.returncode, txt)

    def one(self, fn, name=None, defs=(), unwind=None, unwindset=None, key=None):
        """Decide one harness. Records obligations."""
        c = self.c; name = name or fn
        unwind = unwind or self.unwind; unwindset = self.unwindset if unwindset is None else unwindset
        with ThreadPoolExecutor(2) as ex:
            ft = ex.submit(lambda: self._run(self._cmd(fn, True, defs, unwind, unwindset)))
            fm = ex.submit(lambda: self._run(self._cmd(fn, False, defs, unwind, unwindset)))
            jt, et, dt = ft.result(); jm, em, dm = fm.result()
        c.queries += 2; c.solver_s += dt + dm
        c.extra.setdefault('query_seconds', {})[name] = [round(dt,1), round(dm,1)]
        # reachability twin
        if jt is None:
            c.add(name + ":reach", "undischarged", detail=et)
        else:
            res = [x for j in jt if "result" in j for x in j["result"]]
            r = [x for x in res if x.get("description") == "REACH"]
            if r and r[0]["status"] == "FAILURE":
                inp = inputs_of(r[0]["trace"])
                v, txt = self.replay(fn, inp, defs)
                c.add(name + ":reach", "reachable", replay_on_real_code=v)
                c.samples.append(dict(harness=name, witness_inputs=inp[:40], real_code=v))
                c.extra["traces_validated_against_impl"] = c.extra.get("traces_validated_against_impl", 0) + 1
                if v == "violated":
                    c.violation(name + ": the real code violates the property on the reachability witness", txt + "\ninputs: " + repr(inp), key=key)
            else:
                c.errors.append("%s: the end of the harness is unreachable (vacuous): %s" % (name, [x.get("description") for x in res][:5]))
        if jm is None:
            c.add(name, "undischarged", detail=em)
            if em != "timeout": c.errors.append(name + ": " + em)
            return
        for j in jm:
            m = j.get("messageText", "") if isinstance(j, dict) else ""
            g = re.match(r"size of program expression: (\d+) steps", m)
            if g: c.extra["states"] = c.extra.get("states", 0) + int(g.group(1))
            g = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if g: c.extra["transitions"] = c.extra.get("transitions", 0) + int(g.group(1))
        res = [x for j in jm if "result" in j for x in j["result"]]
        if not res:
            c.errors.append(name + ": no result: " + json.dumps(jm)[-600:]); return
        nfail = 0
        for x in res:
            if x["status"] == "SUCCESS": continue
            nfail += 1
        groups = {}
        for x in res:
            # one obligation per distinct asserted description
            k = x["description"] if x["property"].startswith(fn + ".assertion") else "standard checks (bounds, pointers, overflow, unwinding)"
            groups.setdefault(k, []).append(x)
        for k, xs in groups.items():
            bad = [x for x in xs if x["status"] == "FAILURE"]
            unk = [x for x in xs if x["status"] not in ("FAILURE", "SUCCESS")]
            if not bad:
                c.add(name + ": " + k, "undischarged" if unk else "proved", checks=len(xs)); continue
            done = False
            for x in bad[:6]:
                desc = "%s: %s [%s]" % (name, x["description"], x.get("sourceLocation", {}).get("function", ""))
                if "unwinding assertion" in x["description"]:
                    # the bound is too small for this code: not decided
                    c.add(desc, "undischarged", detail="unwinding bound"); c.extra.setdefault("unwinding", []).append(desc)
                    continue
                inp = inputs_of(x.get("trace", []))
                v, txt = self.replay(fn, inp, defs)
                if v == "violated":
                    c.add(desc, "violated"); done = True
                    c.violation(desc, txt + "\nsolver's inputs: " + " ".join("%s=%s" % i for i in inp) + "\ndefs: " + repr(defs), key=key)
                    break
                c.add(desc, "undischarged", detail="counterexample did not reproduce on the real code: " + v)
                c.errors.append("counterexample does not reproduce: %s: %s %s inputs=%s" % (desc, v, txt[-300:], inp[:60]))

    def many(self, jobs, workers=4):
        if os.environ.get("VF_JOBS"): jobs = [j for j in jobs if re.search(os.environ["VF_JOBS"], j.get("name") or j["fn"])]
        """jobs: list of (fn, name, defs) or dicts of one()'s arguments; decided in parallel"""
        def f(j):
            self.one(**j)
        with ThreadPoolExecutor(workers) as ex:
            for r in ex.map(f, jobs): pass
