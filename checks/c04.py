"""C04 partitioning: Partition.tla (any order of cutting), TLC-enumerated assignments replayed through the real partitioner
(METIS replaced by a stand-in that returns the assignment), files read back with the real readers, judged by PartitionTrace.tla."""
import concurrent.futures, json, os, subprocess
from vlib import Violation, CheckError, REPO, VERIF
import gen, scen


def mesh_record(m):
    return {"elts": [{"id": i, "n": list(t)} for i, t in m.elems], "open": m.open,
            "land": [{"t": t, "s": s} for t, s in m.land], "lev": [[[p[0], p[1]] for p in s] for _, s in m.levees],
            "gen": getattr(m, "gen", []), "nodes": [{"id": i, "x": "%.15g %.15g %.15g" % p} for i, p in m.nodes.items()]}


def build(c):
    core = c.core_objs()
    inc = ["-I" + os.path.join(VERIF, "harness", "metis"), "-I" + os.path.join(REPO, "partitioner")]
    srcs = ["partitioner.cpp", "partition.cpp", "write_distributed_interfaces.cpp", "problem/swe_partitioner_inputs.cpp",
            "problem/default_partitioner_inputs.cpp"]
    objs = [c.pool.submit(c.compile, os.path.join(REPO, "partitioner", s), c.path("obj", "p_" + s.replace("/", "_") + ".o"), inc)
            for s in srcs]
    rd = c.harness("partread", core=core)
    exe = c.link(objs + core, c.path("bin", "partitioner"))
    return exe, rd.result()


def renum(m, rng, big=False):
    """Element and node ids that are neither consecutive nor ordered."""
    m = m.clone()
    ids = rng.sample(range(1, 5 * len(m.elems) + 5), len(m.elems))
    if big:
        ids = [i + 1000000 for i in ids]
    em = {e: ids[k] for k, (e, _) in enumerate(m.elems)}
    nn = rng.sample(range(0, 4 * len(m.nodes)), len(m.nodes))
    nm = {n: nn[k] for k, n in enumerate(m.nodes)}
    m.elems = [(em[e], [nm[n] for n in t]) for e, t in m.elems]
    m.nodes = {nm[n]: p for n, p in m.nodes.items()}
    m.open = [[nm[n] for n in s] for s in m.open]
    m.land = [(t, [nm[n] for n in s]) for t, s in m.land]
    m.levees = [(t, [(nm[p[0]], nm[p[1]]) + tuple(p[2:]) for p in s]) for t, s in m.levees]
    return m


def check(c):
    rng = c.rng
    bf = c.pool.submit(lambda: None)
    with concurrent.futures.ThreadPoolExecutor(1) as bx:
        bf = bx.submit(build, c)
        for ring, e in (("Ring", 4), ("Strip", 4)):
            c.model("PartitionMC", consts="SPECIFICATION Spec\nCONSTANTS\nE = %d\nP = 3\nR = 2\nFACES <- %s\n"
                    "INVARIANTS Agree EachOnce BothSides NoSelf\nCHECK_DEADLOCK FALSE\n" % (e, ring), part="PartitionMC." + ring)
        meshes, runs = [], []

        def mesh(m):
            meshes.append(m)
            return len(meshes)

        def add(mi, a, b, parts, nodes, rpl=None, bal=None, p=1, name=None):
            runs.append(dict(mesh=mi, a=a, b=b, parts=parts, nodes=nodes, rpl=rpl, bal=bal, p=p, pname=name or "rkdg_swe"))
        # exhaustive: every deal of four elements to three submeshes on two ranks
        m0 = mesh(gen.walls(gen.grid(2, 1, 7.0, 3.0, bath=scen.rough(rng)), l="tide", r="flow"))
        for v in c.gen("PartitionGen", consts="SPECIFICATION Spec\nCONSTANTS\nN = 4\nK = 3\nR = 2\n"):
            add(m0, v["a"], v["b"], 3, 2)
        # a strip with a levee, every deal of its elements to two submeshes
        lv = gen.levee_grid(2, 1, 1, 2.0, 1.0, gap=0.25, bath=scen.rough(rng))
        m1 = mesh(renum(lv, rng))
        for v in c.gen("PartitionGen", consts="SPECIFICATION Spec\nCONSTANTS\nN = 4\nK = 2\nR = 2\n"):
            add(m1, v["a"], v["b"], 2, 2)
        # larger and stranger meshes, sampled deals, several ranks per node, weighted or not
        ms = []
        for rep in range(6 if c.thorough else 2):
            ms += [renum(m, rng, big=rep > 0) for m in scen.closed_meshes(rng).values()]
            ms.append(renum(gen.levee_grid(4, 2, 2, 800, 400, gap=rep * 10.0, bath=scen.rough(rng), pattern=2), rng))
            g = gen.walls(gen.grid(3, 3, bath=scen.rough(rng), pattern=2), b="tide", l="flow", t="func", r="out")
            ms.append(renum(g, rng))
        for m in ms:
            mi = mesh(m)
            n = len(m.elems)
            for k in range(20 if c.thorough else 7):
                parts = rng.randint(2, min(6, n))
                nodes = rng.randint(1, parts)
                rpl = rng.choice([None, 1, 2, 3])
                bal = rng.choice(["true", "false"]) if rpl else None
                style = rng.random()
                if style < 0.4:        # scattered
                    a = [rng.randrange(parts) for _ in range(n)]
                elif style < 0.8:      # slabs by position
                    srt = sorted(range(n), key=lambda x: sorted(i for i, _ in m.elems)[x])
                    a = [min(parts - 1, x * parts // n) for x in range(n)]
                else:                  # one submesh nearly everything, some empty
                    a = [0] * n
                    for x in rng.sample(range(n), min(n, 2)):
                        a[x] = rng.randrange(parts)
                add(mi, a, [rng.randrange(nodes) for _ in range(parts)], parts, nodes, rpl, bal, p=rng.randint(1, 3),
                    name=rng.choice(["rkdg_swe", "swe", "ehdg_swe"]))
        exe, rd = bf.result()

    def one(k):
        i, R = k
        m = meshes[R["mesh"] - 1]
        d = os.path.dirname(c.path("run%04d" % i, "x"))
        stem = rng_stem[i]
        sd = os.path.join(d, os.path.dirname(stem))
        os.makedirs(sd, exist_ok=True)
        mf = os.path.join(d, stem + ".14")
        with open(mf, "w") as f:
            f.write(m.fort14(prec=15))
        inp = os.path.join(d, "in.15")
        with open(inp, "w") as f:
            f.write(gen.yaml_cfg(mf, p=R["p"], problem=R["pname"]))
        with open(os.path.join(d, "stub"), "w") as f:
            f.write(" ".join(map(str, R["a"])) + "\n" + " ".join(map(str, R["b"])) + "\n")
        cmd = [exe, inp, str(R["parts"]), str(R["nodes"])]
        if R["rpl"]:
            cmd.append(str(R["rpl"]))
            if R["bal"]:
                cmd.append(R["bal"])
        c.run(cmd, cwd=d, env={"METIS_STUB": os.path.join(d, "stub")}, timeout=60, what="partitioner on %s" % R)
        nloc = R["nodes"] * (R["rpl"] or 1)
        jobs, subs = [], []
        for l in range(nloc):
            s = 0
            while os.path.exists(os.path.join(d, "%s_%d_%d.meta" % (stem, l, s))):
                jobs += ["meta %s" % os.path.join(d, "%s_%d_%d.meta" % (stem, l, s)),
                         "dbmd %s %d %d" % (os.path.join(d, "%s_%d_%d.dbmd" % (stem, l, s)), l, s)]
                subs.append((l, s))
                s += 1
        have = [f for f in os.listdir(sd) if f.endswith(".meta")]
        if len(have) != len(subs):
            raise Violation("partitioner wrote files outside the numbering of its submeshes: %s" % have, json.dumps(R))
        upd = [f for f in os.listdir(d) if f.startswith("in") and f not in ("in.15",)]
        if len(upd) != 1:
            raise Violation("partitioner did not write one rewritten input: %s" % upd, json.dumps(R))
        jobs.append("in %s" % os.path.join(d, upd[0]))
        with open(os.path.join(d, "jobs"), "w") as f:
            f.write("\n".join(jobs) + "\n")
        r = c.run([rd, os.path.join(d, "jobs")], cwd=d, timeout=60, what="reading back the partition files")
        ls = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] in "{["]
        bad = [x for x in ls if isinstance(x, dict) and "err" in x]
        if len(ls) != len(jobs) or bad:
            raise Violation("the program cannot read the files the partitioner wrote", json.dumps(R) + "\n" + str(bad))
        rec = []
        for x, (l, s) in enumerate(subs):
            e = ls[2 * x]
            rec.append({"rank": l, "idx": s, "elts": e["elts"], "nodes": e["nodes"], "db": ls[2 * x + 1]})
        for f in os.listdir(sd):
            os.remove(os.path.join(sd, f)) if os.path.isfile(os.path.join(sd, f)) else None
        return {"mesh": R["mesh"], "parts": R["parts"], "nloc": nloc, "subs": rec, "input": ls[-1],
                "stem": os.path.join(d, stem), "p": R["p"], "name": "%04d" % i, "a": R["a"], "b": R["b"]}
    stems = ["m", "sub/mesh", "grid.v2"]
    rng_stem = [stems[i % 3] if i % 3 != 1 else "sub/mesh" for i in range(len(runs))]
    recs = c.pmap(one, enumerate(runs), 8)
    c.conform("PartitionTrace", {"PRUNS": recs, "MESHES": [mesh_record(m) for m in meshes]}, len(recs),
              what="the partition files do not describe the mesh",
              consts="SPECIFICATION TSpec\nINVARIANTS Cover NodesKept TypesKept Lists InputOk\nCHECK_DEADLOCK FALSE\n")
    c.sample({"assignments": len(recs), "meshes": len(meshes), "largest": max(len(m.elems) for m in meshes)})
    c.assumptions += ["METIS is replaced by a stand-in returning chosen assignments; METIS itself is not examined",
                      "no two elements share both an internal face and a levee face"]
