"""Whole-simulation runs of the real program through the recording drivers, and projections of their records."""
import json, os
from vlib import DISC, Violation, CheckError, q, BIG
import gen

PROBLEM = {"rkdg": "SWE::RKDG::Problem", "ehdg": "SWE::EHDG::Problem", "ihdg": "SWE::IHDG::Problem",
           "gn": "GN::EHDG::Problem"}
YNAME = {"rkdg": "rkdg_swe", "ehdg": "ehdg_swe", "ihdg": "ihdg_swe", "gn": "ehdg_gn"}


def build(c, variants, opt="-O0", mpi=False, core=None, flags=(), libs=("-lyaml-cpp",), tag=""):
    """Futures of recording drivers per discretization."""
    core = core if core is not None else c.core_objs(mpi=mpi, sub="core_mpi" if mpi else "core_ser")
    r = {}
    for v in variants:
        name = "drv_ompi" if mpi else "drv"
        extra = []
        r[v] = c.harness(name, flags=DISC[v] + ["-DPROBLEM=" + PROBLEM[v]] + list(flags), opt=opt, libs=libs,
                         core=core + (comm_objs(c) if mpi else []), mpi=mpi, out="%s_%s%s" % (name, v, tag))
        r[v].variant = v
    return r


def comm_objs(c):
    if not hasattr(c, "_comm"):
        c._comm = [c.pool.submit(c.compile, "communication/ompi_communicator.cpp", c.path("core_mpi", "ompi_comm.o"), [],
                                 True, "-O1")]
    return c._comm


def write_inputs(c, m, name, vic=None, bcis=True, prefix="", **kw):
    d = os.path.dirname(c.path(name, "x"))
    mf = os.path.join(d, "m.14")
    with open(mf, "w") as f:
        f.write(m.fort14(prec=17))
    if bcis and m.needs_bcis():
        with open(os.path.join(d, "m.bcis"), "w") as f:
            f.write(m.bcis_text())
    y = os.path.join(d, "in.yml")
    kw.setdefault("problem", "rkdg_swe")
    with open(y, "w") as f:
        f.write(gen.yaml_cfg(mf, **kw))
    env = {}
    if vic:
        icf = os.path.join(d, "ic.txt")
        with open(icf, "w") as f:
            nds = {str(i): ":%d,%d,%d" % tuple(t) for i, t in m.elems}
            f.write("\n".join("%s%s " % (i, nds[str(i).split("@")[0]]) + " ".join("%.17g" % x for x in vs) for i, vs in vic.items()) + "\n")
        env["REC_IC"] = icf
    return d, y, env


def run(c, exe, m, name, variant="rkdg", vic=None, dry=False, env=None, timeout=300, ok=(0,), retry=True, **kw):
    """Run the real serial simulation; returns the recorded lines."""
    kw.setdefault("problem", YNAME[variant])
    d, y, e = write_inputs(c, m, name, vic=vic, **kw)
    if dry:
        e["REC_DRY"] = "1"
    e.update(env or {})
    out = os.path.join(d, "rec.json")
    if os.path.exists(out):
        os.remove(out)
    r = c.run([exe, y, out], cwd=d, env=e, timeout=timeout, ok=ok, what="serial %s run %s" % (variant, name), retry=retry)
    recs = []
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                if l.endswith("\n"):
                    recs.append(json.loads(l))
    if ok is None or len(ok) > 1:
        return r.returncode, recs, r
    return recs


def by_id(rec):
    return {e["id"]: e for e in rec["el"]}


def build_partitioner(c, core):
    """The real partitioner with METIS replaced by a stand-in that returns a listed assignment."""
    from vlib import REPO, VERIF
    inc = ["-I" + os.path.join(VERIF, "harness", "metis"), "-I" + os.path.join(REPO, "partitioner")]
    srcs = ["partitioner.cpp", "partition.cpp", "write_distributed_interfaces.cpp", "problem/swe_partitioner_inputs.cpp",
            "problem/default_partitioner_inputs.cpp"]
    objs = [c.pool.submit(c.compile, os.path.join(REPO, "partitioner", s), c.path("obj", "p_" + s.replace("/", "_") + ".o"), inc)
            for s in srcs]
    return c.link(objs + core, c.path("bin", "partitioner"))


def partition(c, part, m, name, deal, place, rpl=1, variant="rkdg", vic=None, cfgname="in.15", **kw):
    """Write the inputs and cut them: deal[element id] = submesh, place[submesh] = node. Returns (dir, input, env, nranks)."""
    kw.setdefault("problem", YNAME[variant])
    d, y, e = write_inputs(c, m, name, vic=vic, **kw)
    inp = os.path.join(d, cfgname)
    os.replace(y, inp)
    nparts, nodes = len(place), max(place) + 1
    with open(os.path.join(d, "stub"), "w") as f:
        f.write(" ".join(str(deal[i]) for i in sorted(deal)) + "\n" + " ".join(map(str, place)) + "\n")
    c.run([part, inp, str(nparts), str(nodes), str(rpl)], cwd=d, env={"METIS_STUB": os.path.join(d, "stub")}, timeout=60,
          what="partitioner for %s" % name)
    upd = [f for f in os.listdir(d) if f.endswith("_parallelized.15")]
    if len(upd) != 1:
        raise Violation("partitioner wrote no rewritten input for %s" % name)
    return d, os.path.join(d, upd[0]), e, nodes * rpl


MPIRUN = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader,tcp", "--mca",
          "btl_vader_single_copy_mechanism", "none", "--mca", "plm", "isolated", "--mca", "orte_abort_on_non_zero_status", "1"]


def run_ompi(c, exe, part, m, name, deal, place, rpl=1, threads=1, env=None, timeout=75, ok=(0,), retry=True, dry=False,
             variant="rkdg", vic=None, **kw):
    """Run the real distributed simulation on the cut mesh; returns the recorded lines of every rank, in rank order."""
    d, inp, e, nr = partition(c, part, m, name, deal, place, rpl=rpl, variant=variant, vic=vic, **kw)
    e["OMP_NUM_THREADS"] = str(threads)
    e["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
    if dry:
        e["REC_DRY"] = "1"
    e.update(env or {})
    out = os.path.join(d, "rec")
    for r in range(nr):
        if os.path.exists("%s.%d" % (out, r)):
            os.remove("%s.%d" % (out, r))
    # session files of mpirun stay inside the run's own directory (short path: sockets live there)
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="vm", dir="/tmp")
    e["TMPDIR"] = tmp
    try:
        r = c.run(MPIRUN + ["-n", str(nr), exe, inp, out], cwd=d, env=e, timeout=timeout, ok=ok,
                  what="distributed %s run %s" % (variant, name), retry=retry)
    finally:
        shutil.rmtree(tmp, True)
    recs = []
    for k in range(nr):
        f = "%s.%d" % (out, k)
        if os.path.exists(f):
            with open(f) as fh:
                recs += [json.loads(l) for l in fh if l.endswith("\n")]
    if ok is None or len(ok) > 1:
        return r.returncode, recs, r
    return recs
