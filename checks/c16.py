"""C16 numbering of face unknowns: Numbering.tla (protocol over submeshes and ranks, any order of messages), and the numbering the
real preprocessors of the implicit and the dispersive discretization arrive at, serial and distributed, judged by NumberingTrace.tla."""
import json, os
from vlib import CheckError
import gen, scen, sim
from c04 import mesh_record, renum
import c01

CFG = ("SPECIFICATION Spec\nCONSTANTS\nSUBS <- Sub%d\nOWN <- Own%d\nCUTS <- Cut%d\nBOTHOWN = %s\nEARLY = %s\nNOSCAN = %s\n"
       "INVARIANTS Shared Cover\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n")


def check(c):
    rng = c.rng
    core = c.core_objs()
    NB = {"ihdg": ["-DHAS_EDGES", "-DHAS_NUMBERS"], "gn": ["-DHAS_EDGES", "-DHAS_NUMBERS", "-DGN_NUMBERS"]}
    F, D = {}, {}
    for v in NB:
        F[v] = c.harness("meshobj", flags=sim.DISC[v] + ["-DPROBLEM=" + sim.PROBLEM[v]] + NB[v], core=core, out="meshobj_" + v)
    mcore = c.core_objs(mpi=True, sub="core_mpi")
    for v in NB:
        D[v] = c.harness("meshobj_ompi", flags=sim.DISC[v] + ["-DPROBLEM=" + sim.PROBLEM[v]] + NB[v], mpi=True,
                         core=mcore + sim.comm_objs(c), out="meshobj_ompi_" + v)
    import concurrent.futures
    px = concurrent.futures.ThreadPoolExecutor(1)
    part = px.submit(sim.build_partitioner, c, core)
    for k in (3, 4):
        c.model("NumberingMC", consts=CFG % (k, k, k, "FALSE", "FALSE", "FALSE"), part="NumberingMC.%d" % k)
        for bad in (("TRUE", "FALSE", "FALSE"), ("FALSE", "TRUE", "FALSE"), ("FALSE", "FALSE", "TRUE")):
            if c.tlc("NumberingMC", consts=CFG % ((k, k, k) + bad))["ok"]:
                raise CheckError("the model accepts a defective numbering %s" % (bad,))

    meshes, runs = [], []

    def mesh(m):
        meshes.append(m)
        return len(meshes)

    def rec(v, mi, p, subs):
        return {"v": v, "mesh": mi, "p": p, "blk": 3 * (p + 1) if v == "ihdg" else 1, "unit": 1 if v == "ihdg" else 2 * (p + 1), "subs": subs}
    pool = []
    for rep in range(4 if c.thorough else 1):
        pool += [renum(m, rng) for m in scen.closed_meshes(rng).values()]
        for n in (3, 6):
            m = c01.fan(n, rng)
            pool.append(renum(c01.assign(m, {e: "isl" for e in m.boundary_loop()}, True, rng), rng))
        m = gen.grid(3, 2, 400, 300, bath=scen.rough(rng), pattern=2)
        pool.append(renum(gen.walls(m, l="func", r="tide", t="flow"), rng))
        m = gen.walls(gen.grid(1, 1, 400, 300, bath=scen.rough(rng)), l="tide", t="func")
        pool.append(renum(m, rng))
        pool.append(c01.rotated(c01.two_levees(rng), rng))
    for m in pool:
        c01.bcis_for(m, rng)
    pool = [(m, mesh(m)) for m in pool]

    def serial(v):
        d = os.path.dirname(c.path("ser_" + v, "x"))
        ys, meta = [], []
        for k, (m, mi) in enumerate(pool):
            for p in ((1, 2, 3) if c.thorough else (1 + (k + (v == "gn")) % 3,)):
                dd, y, _ = sim.write_inputs(c, m, "ser_%s/%d_%d" % (v, k, p), p=p, problem=sim.YNAME[v], ic=(20.0, 0.0, 0.0))
                ys.append(y)
                meta.append((mi, p))
        jf = os.path.join(d, "jobs")
        with open(jf, "w") as fh:
            fh.write("\n".join(ys) + "\n")
        r = c.run([F[v].result(), jf], cwd=d, timeout=600, what="building meshes with " + v)
        ls = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] == "{"]
        if len(ls) != len(meta) or any("err" in x for x in ls):
            raise CheckError("%s did not build its meshes" % v)
        return [rec(v, mi, p, [{"size": o["size"], "elts": o["elts"], "eint": o["eint"], "ebnd": o["ebnd"], "edis": []}])
                for (mi, p), o in zip(meta, ls)]

    jobs = []
    for v in NB:
        for k, (m, mi) in enumerate(pool):
            if m.levees:
                continue
            for x in range(3 if c.thorough else 1):
                n = len(m.elems)
                parts = rng.randint(2, min(5, n))
                nodes = rng.randint(1, min(3, parts))
                place = [rng.randrange(nodes) for _ in range(parts)]
                for q_ in range(nodes):
                    if q_ not in place:
                        place[rng.randrange(parts)] = q_
                if set(place) != set(range(nodes)):
                    place = [i % nodes for i in range(parts)]
                style = rng.random()
                ids = sorted(i for i, _ in m.elems)
                if style < 0.5:
                    deal = {i: rng.randrange(parts) for i in ids}
                else:
                    deal = {i: min(parts - 1, y * parts // n) for y, i in enumerate(ids)}
                for y in range(parts):     # no empty submesh
                    if y not in deal.values():
                        deal[rng.choice([i for i in ids if list(deal.values()).count(deal[i]) > 1])] = y
                jobs.append((v, k, m, mi, deal, place, rng.randint(1, 3), 1 + x % 2, rng.choice([1, 2])))

    def dist(job):
        v, k, m, mi, deal, place, p, rpl, th = job
        name = "dis_%s_%d_%d" % (v, k, jobs.index(job))
        ls = sim.run_ompi(c, D[v].result(), part.result(), m, name, deal, place, rpl=rpl if len(place) >= 2 * (max(place) + 1) else 1,
                          threads=th, variant=v, p=p, ic=(20.0, 0.0, 0.0))
        return rec(v, mi, p, [{x: o[x] for x in ("size", "elts", "eint", "ebnd", "edis")} for o in ls])
    recs = [x for l in c.pmap(serial, list(NB), 2) for x in l]
    ns = len(recs)
    recs += c.pmap(dist, jobs, 4)
    c.conform("NumberingTrace", {"RUNR": recs, "MESHES": [{k: x for k, x in mesh_record(m).items() if k != "nodes"} for m in meshes]},
              len(recs), what="face unknowns are not numbered once each",
              consts="SPECIFICATION TSpec\nINVARIANTS Whole Sized SharedBlocks Disjoint Objects\nCHECK_DEADLOCK FALSE\n")
    c.sample({"serial": ns, "distributed": len(recs) - ns, "meshes": len(meshes)})
    c.assumptions += ["distributed runs without levees", "no submesh is empty"]
