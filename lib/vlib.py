"""Shared machinery: scratch dirs, building harnesses from /repo, running TLC, evidence, verdicts."""
import atexit, concurrent.futures, hashlib, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "source")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PETSC_INC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include"

CORE = ["preprocessor/ADCIRC_reader/adcirc_format.cpp", "preprocessor/mesh_metadata.cpp",
        "simulation/stepper/explicit_ssp_rk_stepper.cpp", "basis/polynomials/basis_polynomials.cpp",
        "basis/bases_1D/basis_legendre_1D.cpp", "basis/bases_2D/basis_dubiner_2D.cpp",
        "shape/shapes_2D/shape_straighttriangle.cpp",
        "integration/integrations_1D/integration_gausslegendre_1D.cpp",
        "integration/integrations_2D/integration_dunavant_2D.cpp",
        "problem/SWE/problem_input/swe_inputs.cpp"]
BASE = ["-std=c++14", "-w", "-include", "stdexcept", "-DUSE_EIGEN", "-DSWE_SUPPORT",
        "-I" + SRC, "-isystem", "/usr/include/eigen3", "-I" + os.path.join(VERIF, "harness")]
DISC = {"rkdg": ["-DRKDG_SUPPORT"], "ehdg": ["-DRKDG_SUPPORT", "-DEHDG_SUPPORT"],
        "ihdg": ["-DRKDG_SUPPORT", "-DIHDG_SUPPORT"],
        "gn": ["-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DGN_SUPPORT"]}
BIG = 2000000000


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what, self.detail = what, detail


class Stopped(Exception):
    """Another case of the same check has failed already."""


def end_session(p):
    """End a program and everything it started."""
    try:
        p.send_signal(signal.SIGTERM)
        p.wait(2)
    except (subprocess.TimeoutExpired, ProcessLookupError):
        pass
    subprocess.run(["pkill", "-KILL", "-s", str(p.pid)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        p.wait(5)
    except subprocess.TimeoutExpired:
        pass


def q(x, unit):
    """Quantise x to an integer number of `unit`s, clamped so that TLC's 32-bit integers cannot wrap."""
    if isinstance(x, str):
        x = float(x)
    if x != x:
        return BIG - 1
    v = x / unit
    if v >= BIG:
        return BIG
    if v <= -BIG:
        return -BIG
    return int(math.floor(v + 0.5))


def check_ints(o, path=""):
    if isinstance(o, bool) or o is None or isinstance(o, str):
        return
    if isinstance(o, float):
        raise CheckError("float in TLC input at %s" % path)
    if isinstance(o, int):
        if not -2**31 < o < 2**31:
            raise CheckError("integer out of TLC's range at %s: %d" % (path, o))
        return
    if isinstance(o, dict):
        for k, v in o.items():
            check_ints(v, path + "." + k)
        return
    for i, v in enumerate(o):
        check_ints(v, path + "[%d]" % i)


class Check:
    def __init__(self, pid, tier, technique_level="model_checking"):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", pid) or 0))
        self.level = technique_level
        self.t0 = time.time()
        root = os.path.join(VERIF, "_work")
        os.makedirs(root, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="%s-" % pid.lower(), dir=root)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, self.work, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = {}
        self.assumptions = []
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.findings = [f for f in load_findings() if f["property"] == pid]
        self.known_hits = []
        self.ntlc = 0
        self.live, self.stopping = set(), False

    # ---------- logging
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        f = os.path.join(self.work, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        return f

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    # ---------- building
    def _run(self, cmd, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

    def compile(self, src, obj, flags, mpi=False, opt="-O0", cxx=None):
        if not os.path.isabs(src):
            src = os.path.join(SRC, src)
        env = dict(os.environ)
        for k in ("CC", "CXX", "CXXFLAGS", "CFLAGS", "LDFLAGS", "CPATH"):
            env.pop(k, None)
        if mpi:
            cmds = [["mpicxx"]]
            env["OMPI_CXX"] = "g++"
            extra = ["-fopenmp", "-DHAS_PETSC", "-I" + PETSC_INC]
        else:
            cmds = [[cxx]] if cxx else [["clang++"], ["g++"]]
            extra = []
        err = b""
        for c in cmds:
            r = self._run(c + BASE + extra + flags + [opt, "-c", src, "-o", obj], env=env)
            if r.returncode == 0:
                return obj
            err = r.stderr
        raise CheckError("does not compile: %s\n%s" % (src, err.decode(errors="replace")[:3000]))

    def core_objs(self, flags=(), opt="-O1", mpi=False, sub="core"):
        """Futures of the program's own translation units."""
        d = os.path.join(self.work, sub)
        os.makedirs(d, exist_ok=True)
        return [self.pool.submit(self.compile, s, os.path.join(d, s.replace("/", "_") + ".o"),
                                 list(flags), mpi, opt) for s in CORE]

    def link(self, objs, exe, mpi=False, libs=("-lyaml-cpp",), flags=()):
        objs = [o.result() if hasattr(o, "result") else o for o in objs]
        cmd = (["mpicxx"] if mpi else ["clang++"]) + list(flags) + objs + ["-o", exe] + list(libs)
        if mpi:
            cmd += ["-Wl,--wrap=KSPSolve", "-fopenmp", "-L/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib", "-lpetsc_real"]
        r = self._run(cmd)
        if r.returncode != 0 and not mpi:
            cmd[0] = "g++"
            r = self._run(cmd)
        if r.returncode != 0:
            raise CheckError("does not link: %s\n%s" % (exe, r.stderr.decode(errors="replace")[:3000]))
        return exe

    def harness(self, name, flags=(), opt="-O0", core=None, extra=(), mpi=False, out=None, cxx=None, libs=("-lyaml-cpp",)):
        """Build /verif/harness/<name>.cpp + program sources into an executable; returns a future."""
        src = os.path.join(VERIF, "harness", name + ".cpp")
        out = out or name
        obj = self.path("obj", out + ".o")
        own = self.pool.submit(self.compile, src, obj, list(flags), mpi, opt, cxx)
        core = self.core_objs(mpi=mpi) if core is None else core

        def fin():
            return self.link([own] + list(core) + list(extra), self.path("bin", out), mpi, libs)
        # linked outside the pool to avoid starving it
        ex = concurrent.futures.ThreadPoolExecutor(1)
        return ex.submit(fin)

    # ---------- running programs under test
    def run(self, cmd, cwd=None, timeout=300, env=None, stdin=None, ok=(0,), what=None, retry=True):
        """Run a program built from /repo. Abnormal ends that repeat are violations of the property under test."""
        e = dict(os.environ)
        e.update(OMP_NUM_THREADS=e.get("OMP_NUM_THREADS", "1"))
        if env:
            e.update(env)
        for attempt in (0, 1):
            if self.stopping:
                raise Stopped()
            try:
                r = self._supervised(cmd, cwd or self.work, e, stdin, timeout)
            except subprocess.TimeoutExpired:
                if attempt == 0 and retry:
                    continue
                raise Violation("%s did not finish within %ds" % (what or os.path.basename(cmd[0]), timeout))
            if ok is None or r.returncode in ok:
                return r
            if not retry:
                break
        raise Violation("%s ended with status %d" % (what or os.path.basename(cmd[0]), r.returncode),
                        (r.stdout[-1500:] + b"\n" + r.stderr[-3000:]).decode(errors="replace"))

    def _supervised(self, cmd, cwd, env, stdin, timeout):
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL)
        self.live.add(p)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            if self.stopping:
                raise Stopped()
            return subprocess.CompletedProcess(cmd, p.returncode, out, err)
        finally:
            self.live.discard(p)
            if p.poll() is None:
                end_session(p)

    def pmap(self, fn, items, workers):
        """Parallel map; the first failure ends what is still running."""
        ex = concurrent.futures.ThreadPoolExecutor(workers)
        fs = [ex.submit(fn, x) for x in items]
        try:
            done, _ = concurrent.futures.wait(fs, return_when=concurrent.futures.FIRST_EXCEPTION)
            bad = [f.exception() for f in fs if f in done and f.exception()]
            if bad:
                self.stopping = True
                ex.shutdown(wait=False, cancel_futures=True)
                for p in list(self.live):
                    end_session(p)
                concurrent.futures.wait(fs, timeout=30)
                raise ([b for b in bad if isinstance(b, Violation)] + bad)[0]
            return [f.result() for f in fs]
        finally:
            ex.shutdown(wait=False, cancel_futures=True)

    # ---------- TLC
    def tlc(self, module, cfg=None, env=None, consts=None, args=(), workers="auto", timeout=600, expect_ok=True,
            data=None, heap="6g", part=None):
        """Run TLC on spec/<module>.tla. data: {ENVNAME: python object} serialised for the spec to read.
        consts: text of an ad-hoc .cfg. Returns dict(ok, kind, out, states, distinct, prints)."""
        self.ntlc += 1
        d = self.path("tlc%d" % self.ntlc, "x")
        d = os.path.dirname(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        e = dict(os.environ)
        e.update(env or {})
        for k, v in (data or {}).items():
            f = os.path.join(d, k.lower() + ".json")
            check_ints(v, k)
            with open(f, "w") as fh:
                if isinstance(v, list):
                    for x in v:
                        fh.write(json.dumps(x) + "\n")
                else:
                    fh.write(json.dumps(v))
            e[k] = f
        cfgname = cfg or module + ".cfg"
        if consts is not None:
            cfgname = module + "_run.cfg"
            with open(os.path.join(d, cfgname), "w") as fh:
                fh.write(consts)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-metadir",
               os.path.join(d, "states"), "-workers", str(workers), "-noGenerateSpecTE", "-config", cfgname] + \
              list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
        out = r.stdout.decode(errors="replace")
        with open(os.path.join(d, "tlc.out"), "w") as fh:
            fh.write(out)
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        m2 = re.findall(r"(\d+) states checked", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (int(m2[-1]) if m2 else 0,) * 2
        res = dict(rc=r.returncode, out=out, states=dist, transitions=gen, dir=d,
                   prints=[l for l in out.splitlines() if l.startswith('"@') or l.startswith("@")])
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        p = self.parts.setdefault(part or module, {"runs": 0, "states": 0, "transitions": 0})
        p["runs"] += 1
        p["states"] += dist
        p["transitions"] += gen
        res["ok"] = r.returncode == 0
        if r.returncode in (10, 11, 12, 13):
            res["ok"] = False
        elif r.returncode != 0:
            raise CheckError("TLC failed on %s (rc %d)\n%s" % (module, r.returncode, out[-3500:]))
        return res

    def model(self, module, **kw):
        """Exhaustive/simulated check of the specification itself; a failure is a defect of the framework."""
        r = self.tlc(module, **kw)
        if not r["ok"]:
            raise CheckError("the specification %s violates its own property\n%s" % (module, r["out"][-3500:]))
        self.log("model %s: %d distinct states, %d generated" % (kw.get("part") or module, r["states"], r["transitions"]))
        return r

    def conform(self, module, data, n, what=None, **kw):
        """Check recorded/replayed behaviours of the real code (n of them) against the specification."""
        r = self.tlc(module, data=data, **kw)
        if not r["ok"]:
            # a rejection counts only if it repeats
            r2 = self.tlc(module, data=data, **kw)
            if r2["ok"]:
                raise CheckError("TLC verdict on %s not reproducible" % module)
            raise Violation(what or ("trace rejected by %s" % module), offender(r["out"], data) + tlc_error(r["out"]))
        self.cov["traces_validated_against_impl"] += n
        self.log("conformance %s: %d behaviours, %d states" % (kw.get("part") or module, n, r["states"]))
        return r

    def gen(self, module, outname="OUT", **kw):
        """Let TLC enumerate behaviours; the spec writes them as ndjson lines to the file named by env OUT."""
        f = self.path("gen%d.ndjson" % (self.ntlc + 1))
        env = dict(kw.pop("env", {}) or {})
        env[outname] = f
        r = self.tlc(module, env=env, **kw)
        if not r["ok"]:
            raise CheckError("generation with %s failed\n%s" % (module, r["out"][-3500:]))
        with open(f) as fh:
            txt = fh.read()
        res = [json.loads(l) for l in txt.splitlines() if l.strip()]
        self.log("spec %s generated %d behaviours" % (kw.get("part") or module, len(res)))
        return res

    # ---------- verdicts
    def known(self, key, what):
        """True if a listed finding covers `key`; prints the KNOWN-FINDING line once."""
        for f in self.findings:
            if f.get("status") == "known" and f.get("key") == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                return True
        return False

    def finish(self, violation=None):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": 1 if violation else 0}
        ev["coverage"]["parts"] = self.parts
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k in self.known_hits:
            f = [f for f in self.findings if f.get("key") == k][0]
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        if violation:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s-%s.txt" % (self.pid, self.tier))
            with open(rp, "w") as fh:
                fh.write("property %s, seed %d\n%s\n\n%s\n" % (self.pid, self.seed, violation.what, violation.detail))
            print(violation.what)
            print(violation.detail[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.pid, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"],
            time.time() - self.t0))
        return 0


def offender(out, data):
    """The recorded behaviour a counterexample is about (spec variable r indexes the first data set)."""
    m = re.findall(r"/\\ r = (\d+)", out) or re.findall(r"^r = (\d+)", out, re.M)
    if not m:
        return ""
    w = re.findall(r'what = "(\w)', out)
    names = [k for k in data if w and k[-1].lower() == w[-1]] or list(data)
    for v in (data[k] for k in names):
        if isinstance(v, list) and int(m[-1]) <= len(v):
            x = v[int(m[-1]) - 1]
            full = json.dumps(x)
            if len(full) > 2500 and isinstance(x, dict):
                full = json.dumps({k: y for k, y in x.items() if len(json.dumps(y)) < 400})
            return "behaviour %s: %s\n" % (m[-1], full[:2500])
    return ""


def tlc_error(out):
    """The informative part of a TLC counterexample."""
    i = out.find("Error:")
    out = out[i if i >= 0 else 0:]
    return out if len(out) < 8000 else out[:3000] + "\n[...]\n" + out[-5000:]


def load_findings():
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f))["findings"]


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check <property> [quick|thorough]")
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        table[pid](c)
        rc = c.finish()
    except Violation as v:
        rc = c.finish(v)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
