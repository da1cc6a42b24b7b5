"""Helpers for the demonstrations: inputs, the built executables, small programs compiled from the working tree."""
import atexit, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen

REPO = os.getcwd()
BIN = os.path.join(REPO, "_build", "source")
WORK = tempfile.mkdtemp(prefix="demo", dir=os.environ.get("TMPDIR", "/tmp"))
atexit.register(shutil.rmtree, WORK, True)
BASE = ["g++", "-std=c++14", "-w", "-include", "stdexcept", "-DUSE_EIGEN", "-DSWE_SUPPORT", "-DRKDG_SUPPORT",
        "-I" + os.path.join(REPO, "source"), "-isystem", "/usr/include/eigen3"]
CORE = ["preprocessor/ADCIRC_reader/adcirc_format.cpp", "preprocessor/mesh_metadata.cpp",
        "simulation/stepper/explicit_ssp_rk_stepper.cpp", "basis/polynomials/basis_polynomials.cpp",
        "basis/bases_1D/basis_legendre_1D.cpp", "basis/bases_2D/basis_dubiner_2D.cpp",
        "shape/shapes_2D/shape_straighttriangle.cpp",
        "integration/integrations_1D/integration_gausslegendre_1D.cpp",
        "integration/integrations_2D/integration_dunavant_2D.cpp", "problem/SWE/problem_input/swe_inputs.cpp"]


def p(*a):
    f = os.path.join(WORK, *a)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    return f


def fail(msg):
    print("DEMO FAILED:", msg)
    sys.exit(1)


def ok(msg):
    print("demo ok:", msg)
    sys.exit(0)


def compile(srcs, exe, flags=(), core=True, libs=("-lyaml-cpp",)):
    full = list(srcs) + ([os.path.join(REPO, "source", s) for s in CORE] if core else [])
    jobs, objs = [], []
    for i, s in enumerate(full):
        o = p("obj", "%s_%d.o" % (os.path.basename(exe), i))
        objs.append(o)
        jobs.append(subprocess.Popen(BASE + list(flags) + ["-c", s, "-o", o]))
    if any(j.wait() for j in jobs):
        print("does not compile")
        sys.exit(3)
    subprocess.check_call(["g++"] + objs + ["-o", exe] + list(libs))
    return exe


def inputs(m, name, vic=None, **kw):
    d = os.path.dirname(p(name, "x"))
    with open(os.path.join(d, "m.14"), "w") as f:
        f.write(m.fort14(prec=17))
    if m.needs_bcis():
        with open(os.path.join(d, "m.bcis"), "w") as f:
            f.write(m.bcis_text())
    kw.setdefault("out", "path: %s/\nmodal:\n  frequency: %.17g" % (os.path.join(d, "out"), kw.get("dt", 1.0)))
    kw.setdefault("problem", "rkdg_swe")
    y = os.path.join(d, "in.15")
    with open(y, "w") as f:
        f.write(gen.yaml_cfg(os.path.join(d, "m.14"), **kw))
    return d, y


def run(cmd, d, env=None, timeout=120):
    e = dict(os.environ)
    e.setdefault("OMP_NUM_THREADS", "1")
    e.update(env or {})
    return subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)


def serial(m, name, exe=None, **kw):
    d, y = inputs(m, name, **kw)
    r = run([exe or os.path.join(BIN, "dgswemv2-serial"), y], d)
    return r.returncode, d, r.stdout.decode(errors="replace")


def modal(d, sub="out"):
    """{var: [(time, {element: [dofs]})]} of every modal file below d/sub."""
    res = {}
    for root, _, files in os.walk(os.path.join(d, sub)):
        for f in sorted(files):
            if "_modal_" not in f:
                continue
            var = f.rsplit("_", 1)[1][:-4]
            frames = []
            for l in open(os.path.join(root, f)):
                w = l.split()
                if len(w) == 1:
                    frames.append((float(w[0]), {}))
                else:
                    frames[-1][1].setdefault(int(w[0]), []).append(float(w[1]))
            if var not in res:
                res[var] = frames
            else:
                for (t, a), (_, b) in zip(res[var], frames):
                    a.update(b)
    return res


def partitioner():
    src = [os.path.join(REPO, "partitioner", s) for s in
           ("partitioner.cpp", "partition.cpp", "write_distributed_interfaces.cpp", "problem/swe_partitioner_inputs.cpp",
            "problem/default_partitioner_inputs.cpp")]
    return compile(src, p("partitioner"), flags=["-I" + HERE, "-I" + os.path.join(REPO, "partitioner")])


MPIRUN = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader,tcp", "--mca",
          "btl_vader_single_copy_mechanism", "none", "--mca", "plm", "isolated"]


def cut(part, m, name, deal, place, **kw):
    d, y = inputs(m, name, **kw)
    with open(os.path.join(d, "stub"), "w") as f:
        f.write(" ".join(str(deal[i]) for i in sorted(deal)) + "\n" + " ".join(map(str, place)) + "\n")
    r = run([part, y, str(len(place)), str(max(place) + 1), "1"], d, env={"METIS_STUB": os.path.join(d, "stub")})
    if r.returncode:
        fail("partitioner: " + r.stdout.decode()[-500:])
    return d, os.path.join(d, "in_parallelized.15"), max(place) + 1


def ompi(part, m, name, deal, place, exe=None, env=None, timeout=120, threads=1, **kw):
    d, y, n = cut(part, m, name, deal, place, **kw)
    e = dict(env or {})
    e["OMP_NUM_THREADS"] = str(threads)
    e["TMPDIR"] = tempfile.mkdtemp(prefix="dm", dir="/tmp")
    try:
        x = exe if isinstance(exe, list) else [exe or os.path.join(BIN, "dgswemv2-ompi")]
        r = run(MPIRUN + ["-n", str(n)] + x + [y], d, env=e, timeout=timeout)
    finally:
        shutil.rmtree(e["TMPDIR"], True)
    return r.returncode, d, r.stdout.decode(errors="replace")


def differ(a, b, tol):
    """First difference of two modal records beyond tol, or None."""
    for v in ("ze", "qx", "qy"):
        if len(a[v]) != len(b[v]):
            return "%s: %d frames against %d" % (v, len(a[v]), len(b[v]))
        for (t, x), (_, y) in zip(a[v], b[v]):
            if set(x) != set(y):
                return "%s at %g: different elements" % (v, t)
            for i in x:
                for k, (p1, p2) in enumerate(zip(x[i], y[i])):
                    if not abs(p1 - p2) <= tol:
                        return "%s at t=%g element %d mode %d: %.9g against %.9g" % (v, t, i, k, p1, p2)
    return None
