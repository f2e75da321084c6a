"""Shared machinery: source snapshot, builds, evidence, verdict printing."""
import os, sys, re, json, time, shutil, subprocess, tempfile, atexit, glob, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get("MRCAL_REPO", "/repo")
SEED  = int(os.environ.get("VERIF_SEED", "1"))
TIER  = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
T0 = time.time()
SUITESPARSE = "/usr/include/suitesparse"

_scratch = None
def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-", dir="/tmp")
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(lambda d=_scratch: shutil.rmtree(d, ignore_errors=True))
        else:
            print("scratch:", _scratch, file=sys.stderr)
    return _scratch

def run(cmd, **kw):
    kw.setdefault("check", True)
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    r = subprocess.run(cmd, **{**kw, "check": False})
    if kw["check"] and r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(map(str, cmd)), (r.stdout or "")[-4000:]))
    return r

import threading
_srclock = threading.RLock()
_src = None
def src():
    with _srclock: return _src_locked()
def _src_locked():
    """Copies the sources of /repo's working tree, and regenerates the generated ones there."""
    global _src
    if _src: return _src
    d = os.path.join(scratch(), "src"); os.makedirs(d)
    for p in os.listdir(REPO):
        f = os.path.join(REPO, p)
        if os.path.isfile(f) and p.endswith((".c", ".cc", ".h", ".hh", ".re", ".hpp", ".py")) \
           and "GENERATED" not in p and not p.endswith(".docstring.h"):
            shutil.copy2(f, d)
        if os.path.isfile(f) and p == "Makefile": shutil.copy2(f, d)
    shutil.copytree(os.path.join(REPO, "minimath"), os.path.join(d, "minimath"),
                    ignore=shutil.ignore_patterns("*generated*"))
    with open(os.path.join(d, "minimath/minimath_generated.h"), "w") as o:
        subprocess.run(["perl", os.path.join(d, "minimath/minimath_generate.pl")], stdout=o, check=True, cwd=d)
    with open(os.path.join(d, "cameramodel-parser_GENERATED.c"), "w") as o:
        subprocess.run(["re2c", "--no-debug-info", "cameramodel-parser.re"], stdout=o, check=True, cwd=d, stderr=subprocess.DEVNULL)
    # test-only helper: bodies of docstrings are not needed by the C library
    _src = d
    return d

def lib_sources():
    d = src()
    txt = open(os.path.join(d, "Makefile")).read()
    txt = txt.replace("\\\n", " ")
    names = []
    for m in re.finditer(r"^LIB_SOURCES\s*\+?=([^\n]*)", txt, re.M):
        names += [w for w in m.group(1).split() if re.fullmatch(r"[\w./-]+\.(c|cc)", w)]
    names = [n for n in dict.fromkeys(names) if os.path.exists(os.path.join(d, n)) and "libelas" not in n and not n.startswith("python-")]
    assert "mrcal.c" in names
    return names

_so = {}
def build_so(*a, **k):
    with _srclock: return _build_so(*a, **k)
def _build_so(flags=("-O1",), extra_sources=(), name="libmrcal.so", compiler_c="gcc", compiler_cxx="g++"):
    """Builds libmrcal from the snapshot: the real code, used for replays."""
    key = (tuple(flags), tuple(extra_sources), name)
    if key in _so: return _so[key]
    d = src(); o = os.path.join(scratch(), "obj-" + hashlib.md5(repr(key).encode()).hexdigest()[:8]); os.makedirs(o, exist_ok=True)
    def comp(s):
        path = s if os.path.isabs(s) else os.path.join(d, s)
        obj = os.path.join(o, os.path.basename(s) + ".o")
        cxx = s.endswith(".cc")
        run([compiler_cxx if cxx else compiler_c, "-w", "-fPIC", "-g1", "-std=" + ("c++11" if cxx else "gnu11"),
             "-DMRBUILD_VERSION=\"x\"", "-I", d, "-I", SUITESPARSE, *flags, "-c", path, "-o", obj])
        return obj
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, lib_sources() + list(extra_sources)))
    so = os.path.join(o, name)
    run([compiler_cxx, "-shared", "-fPIC", *flags, "-o", so, *objs, "-ldogleg", "-lstb", "-lpng", "-ljpeg", "-llapack"])
    _so[key] = so
    return so

# ---------------------------------------------------------------- verdicts
def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"\s*known:\s*property=(\w+)\s+id=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

class Check:
    """Collects obligations of one property and writes the verdict and the evidence."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.obl = []          # dicts: name, status ('proved','violated','undischarged','vacuous'), detail
        self.violations = []
        self.known = []
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.errors = []
        self.functions = set()
        self.bounds = {}
        self.solver_s = 0.
        self.queries = 0
    def add(self, name, status, **kw):
        self.obl.append(dict(name=name, status=status, **kw))
    def violation(self, name, replay_text, key=None):
        """A counterexample which was replayed on the real code. key: id in known findings."""
        for k, txt in known_findings(self.prop):
            if key is not None and k == key:
                self.known.append((k, txt)); return
        self.violations.append((name, replay_text))
    def finish(self):
        n = dict()
        for o in self.obl: n[o["status"]] = n.get(o["status"], 0) + 1
        cov = dict(explanation=self.extra.pop("explanation", ""), obligations=len(self.obl), discharged=n.get("proved", 0),
                   undischarged=[o["name"] for o in self.obl if o["status"] == "undischarged"][:60],
                   n_undischarged=n.get("undischarged", 0),
                   violated=[o["name"] for o in self.obl if o["status"] == "violated"][:60],
                   inconclusive=[str(e)[:500] for e in self.errors[:20]],
                   reachability_witnesses=n.get("reachable", 0),
                   functions_encoded=sorted(self.functions), bounds=self.bounds,
                   solver_queries=self.queries, solver_seconds=round(self.solver_s, 3),
                   samples=self.samples[:12] or [o for o in self.obl[:5]])
        cov["obligations"] -= n.get("reachable", 0)
        cov.update(self.extra)
        wall = time.time() - T0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k, txt in self.known:
            if k not in seen:
                seen.add(k); print("KNOWN-FINDING: property=%s %s" % (self.prop, txt))
        if self.violations:
            rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
            for i, (name, txt) in enumerate(self.violations[:10]):
                p = os.path.join(rdir, "%s-%d.txt" % (self.prop, i))
                with open(p, "w") as f: f.write(name + "\n\n" + txt + "\n")
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + name)
                print("  " + txt.strip().split("\n")[0][:300])
            sys.stdout.flush(); os._exit(self._exit(1))
        if self.errors:
            # parts which could not be decided. Nothing decided at all is no answer
            for e in self.errors[:20]: print("INCONCLUSIVE:", e)
            if not n.get("proved", 0): sys.stdout.flush(); os._exit(self._exit(3))
        print("OK property=%s tier=%s obligations=%d discharged=%d undischarged=%d wall=%.1fs" %
              (self.prop, TIER, cov["obligations"], cov["discharged"], cov["n_undischarged"], wall))
        und = [o for o in self.obl if o["status"] == "undischarged"]
        for o in und[:12]: print("  undischarged:", o["name"], str(o.get("detail", ""))[:300])
        if len(und) > 12: print("  ... and %d more" % (len(und) - 12))
        sys.stdout.flush(); os._exit(self._exit(0))
    def _exit(self, rc):
        if _scratch and not os.environ.get("VERIF_KEEP"): shutil.rmtree(_scratch, ignore_errors=True)
        return rc

def main(fn, prop, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
    except Exception:
        traceback.print_exc()
        c.errors.append("exception")
    c.finish()
