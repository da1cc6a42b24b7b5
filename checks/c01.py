"""C01 connectivity: MeshMC.tla (assembly in any order), meshes enumerated by TLC or drawn at random read with the real reader
and built with the real preprocessors, judged by MeshTrace.tla against what the mesh itself determines (Mesh.tla)."""
import json, math, os
from vlib import CheckError, q
import gen, scen
import sim
from c04 import mesh_record, renum

KINDS = ["none", "open", "l0", "l10", "l20", "isl", "fl2", "fl12", "func", "out", "gen"]
IB = {"l0": 0, "l10": 10, "l20": 20, "isl": 21, "fl2": 2, "fl12": 12, "fl22": 22, "func": 77, "out": 88, "isl1": 1, "isl11": 11}


def assign(m, kinds, join=False, rng=None):
    """Boundary sections for the directed boundary edges `kinds`: {edge: kind}; join: consecutive edges of a kind share one."""
    m.open, m.land, m.gen = [], [], []
    for k in sorted(set(kinds.values())):
        if k == "none":
            continue
        es = [e for e in kinds if kinds[e] == k]
        chains = m.chains(es) if join else [list(e) for e in es]
        if join and k.startswith("isl"):
            # a closed loop is listed without repeating its first node
            nxt = dict(es)
            for s0 in list(nxt):
                ch = [s0]
                while nxt.get(ch[-1]) is not None and nxt[ch[-1]] != s0 and len(ch) <= len(es):
                    ch.append(nxt[ch[-1]])
                if nxt.get(ch[-1]) == s0 and len(ch) == len(es):
                    chains = [ch]
                    break
        for ch in chains:
            if rng and rng.random() < 0.5:
                ch = ch[::-1]
            if k == "open":
                m.open.append(ch)
            elif k == "gen":
                m.gen.append(ch)
            else:
                m.land.append((IB[k], ch))
    return m


def rotated(m, rng):
    m = m.clone()
    m.elems = [(i, t[k:] + t[:k]) for (i, t), k in zip(m.elems, [rng.randrange(3) for _ in m.elems])]
    return m


def flipped(m, rng, share=0.4):
    """Some elements listed clockwise."""
    g = getattr(m, "gen", [])
    m = m.clone()
    m.elems = [(i, t[::-1] if rng.random() < share else t) for i, t in m.elems]
    m.gen = g
    return m


def wide(m, rng):
    """Node ids that agree in their low or high halves."""
    if len(m.nodes) > 64:
        return m
    g = getattr(m, "gen", [])
    m = m.clone()
    nm = dict(zip(m.nodes, rng.sample([65536 * i + j for i in range(8) for j in range(8)], len(m.nodes))))
    m.elems = [(i, [nm[n] for n in t]) for i, t in m.elems]
    m.nodes = {nm[n]: p for n, p in m.nodes.items()}
    m.open = [[nm[n] for n in s] for s in m.open]
    m.gen = [[nm[n] for n in s] for s in g]
    m.land = [(t, [nm[n] for n in s]) for t, s in m.land]
    m.levees = [(t, [(nm[p[0]], nm[p[1]]) + tuple(p[2:]) for p in s]) for t, s in m.levees]
    return m


def fit(m, rng):
    """Random order of the sections and of the lines of the file."""
    m = m.clone()
    n = len(m.land) + len(m.levees)
    m.secperm = rng.sample(range(n), n)
    rng.shuffle(m.elems)
    k = list(m.nodes)
    rng.shuffle(k)
    m.nodes = {i: m.nodes[i] for i in k}
    return m


def fan(n, rng, closed=True):
    """n triangles around one node."""
    m = gen.Mesh()
    m.nodes[0] = (0.1, -0.2, 1.0)
    for i in range(n + (0 if closed else 1)):
        a = 2 * math.pi * i / (n + (0 if closed else 2))
        r = rng.uniform(0.7, 1.4)
        m.nodes[i + 1] = (100 * r * math.cos(a), 100 * r * math.sin(a), rng.uniform(1, 9))
    for i in range(n):
        m.elems.append((i, [0, i + 1, (i + 1) % n + 1 if closed else i + 2]))
    return m


def ring_levee(rng):
    """An inner square inside an outer frame, joined to it by a levee all around (its first pair is its last)."""
    m = gen.grid(4, 4, 400, 400, bath=scen.rough(rng), pattern=2)
    inner = [i for i, t in m.elems if all(99 < sum(m.nodes[n][d] for n in t) / 3 < 301 for d in (0, 1))]
    loop = [m.idx[p] for p in [(1, 1), (2, 1), (3, 1), (3, 2), (3, 3), (2, 3), (1, 3), (1, 2)]]
    new = {}
    for n in loop:
        k = max(m.nodes) + 1
        m.nodes[k] = m.nodes[n]
        new[n] = k
    m.elems = [(i, [new.get(n, n) for n in t] if i in inner else t) for i, t in m.elems]
    m = gen.walls(m, l="func")
    if rng.random() < 0.5:
        loop = loop[::-1]
    m.levees = [(24, [(a, new[a], 3.0, 1.0, 1.0) for a in loop + loop[:1]])]
    return m


def two_levees(rng):
    """Two levees in a row that share their middle node pair, of different section types."""
    m = gen.levee_grid(3, 4, 1, 300, 400, gap=rng.choice([0.0, 20.0]), bath=scen.rough(rng), pattern=2)
    ib, s = m.levees[0]
    m.levees = [(4, s[:3]), (24, [(p[1], p[0]) + p[2:] for p in s[2:]])]
    return m


def broken(m, rng):
    """Levees whose pairs do not fit: the back of one pair is another node, or no boundary edge."""
    m = m.clone()
    ib, s = m.levees[0]
    s = list(s)
    j = rng.randrange(len(s))
    inner = [n for n in m.nodes if n not in {x for p in s for x in p[:2]}]
    s[j] = (s[j][0], rng.choice(inner)) + tuple(s[j][2:])
    m.levees = [(ib, s)] + m.levees[1:]
    return m


def bcis_for(m, rng, skip=None):
    """Forcing data for every open and flow section (skip: leave out that section)."""
    m.bcis = []
    secs = [("tide", s) for s in m.open] + [("flow", s) for t, s in m.land if t not in (77, 88) and t % 10 == 2]
    for k, (ty, s) in enumerate(secs):
        if k != skip:
            m.bcis.append((ty, [(1e-3, 1.0, 0.0, {n: (0.0, 0.0) for n in s}) for _ in range(1)]))
    return len(secs)


def check(c):
    rng = c.rng
    core = c.core_objs()
    F = {}
    rd = c.harness("partread", core=core)
    hdg = ["-DHAS_EDGES"]
    for v, fl in [("rkdg", []), ("gn", hdg), ("ehdg", hdg), ("ihdg", hdg)]:
        if v in ("ehdg", "ihdg") and not c.thorough:
            continue
        F[v] = c.harness("meshobj", flags=sim.DISC[v] + ["-DPROBLEM=" + sim.PROBLEM[v]] + fl, core=core, out="meshobj_" + v, opt="-O0")
    for me in ("Two", "Fan", "Dike", "Hang", "Bare"):
        c.model("MeshMC", consts="SPECIFICATION Spec\nCONSTANTS\nMESH <- %s\nDROP = FALSE\nINVARIANTS EachOnce Right Verdict\n"
                "CHECK_DEADLOCK FALSE\n" % me, part="MeshMC." + me)
    if c.tlc("MeshMC", consts="SPECIFICATION Spec\nCONSTANTS\nMESH <- Hang\nDROP = TRUE\nINVARIANTS EachOnce Right Verdict\n"
             "CHECK_DEADLOCK FALSE\n")["ok"]:
        raise CheckError("the model accepts a builder that drops unmatched halves")

    ms = []                   # (mesh, generic?)
    # every assignment of sections to the edges of one triangle; of a two-element mesh a sample
    g1 = c.gen("MeshGen", consts='SPECIFICATION Spec\nCONSTANTS\nN = 3\nKINDS = {%s}\n' % ", ".join('"%s"' % k for k in KINDS))
    g2 = c.gen("MeshGen", consts='SPECIFICATION Spec\nCONSTANTS\nN = 4\nKINDS = {"none", "open", "l10", "isl", "fl2", "out", "gen"}\n')
    tri = gen.Mesh()
    tri.nodes = {4: (0.0, 0.0, 1.0), 9: (10.0, 1.0, 2.0), 2: (3.0, 8.0, 3.0)}
    tri.elems = [(5, [4, 9, 2])]
    rng.shuffle(g1)
    rng.shuffle(g2)
    for v in g1[:None if c.thorough else 900]:
        m = rotated(tri, rng)
        ms.append(flipped(assign(m, dict(zip([(4, 9), (9, 2), (2, 4)], v["t"])), v["j"], rng), rng))
    for v in g2[:None if c.thorough else 300]:
        m = renum(gen.grid(1, 1, 5.0, 4.0, pattern=rng.randrange(2), bath=scen.rough(rng)), rng)
        m = rotated(m, rng)
        ms.append(flipped(assign(m, dict(zip(m.boundary_loop(), v["t"])), v["j"], rng), rng))
    small = len(ms)

    def big(full):
        """Meshes with everything in them; full: no edge left out."""
        for rep in range(3 if c.thorough else 1):
            for m in list(scen.closed_meshes(rng).values()):
                yield m
            for n in (3, 5, 8):
                m = fan(n, rng)
                yield assign(m, {e: "isl" + rng.choice(["", "1", "11"]) if False else "isl" for e in m.boundary_loop()}, True, rng)
                m = fan(n, rng, closed=False)
                yield assign(m, {e: rng.choice(KINDS[2 if full else 1:9]) for e in m.boundary_loop()}, rng.random() < 0.5, rng)
            for k in range(4):
                m = gen.grid(rng.randint(1, 4), rng.randint(1, 3), 400, 300, bath=scen.rough(rng), pattern=2, jitter=0.3, rng=rng)
                yield assign(m, {e: rng.choice(KINDS[1:]) for e in m.boundary_loop()}, rng.random() < 0.7, rng)
            m = gen.grid(3, 3, 400, 300, bath=scen.rough(rng), pattern=2)
            sides = {}
            for s in "brtl":
                for a, b in zip(m.sides[s], m.sides[s][1:]):
                    sides[a, b] = {"b": "open", "r": "fl22", "t": "gen", "l": "func"}[s]
            yield assign(m, {e: sides.get(e) or sides[e[::-1]] for e in m.boundary_loop()}, True, rng)
            for k in range(3):
                m = gen.levee_grid(rng.randint(2, 4), rng.randint(1, 3), 1, 400, 300, gap=rng.choice([0.0, 15.0]), bath=scen.rough(rng),
                                   pattern=rng.randrange(3))
                m.levees = [(rng.choice([4, 24]), m.levees[0][1])]
                yield scen.vary_levee(m, rng)
            yield ring_levee(rng)
            yield two_levees(rng)
    bigs = []
    for m in big(True):
        m0 = m
        m = rotated(renum(m, rng, big=rng.random() < 0.3), rng) if not getattr(m, "gen", None) else rotated(m, rng)
        if not hasattr(m, "gen"):
            m.gen = getattr(m0, "gen", [])
        if len(bigs) % 2:
            m = flipped(m, rng, rng.choice([0.3, 1.0]))
        bigs.append(fit(wide(m, rng) if rng.random() < 0.4 else m, rng))
    lev = [m for m in bigs if m.levees]
    bad = [broken(rng.choice(lev), rng) for _ in range(12 if c.thorough else 5)]
    # a levee whose back edge lies inside the water
    for _ in range(2):
        m = gen.levee_grid(4, 2, 1, 400, 200, gap=0.0, bath=scen.rough(rng))
        ib, s = m.levees[0]
        m.land.append((0, [p[1] for p in s]))
        m.levees = [(ib, [(p[0], m.idx["R", 3, j]) + tuple(p[2:]) for j, p in enumerate(s)])]
        bad.append(rotated(m, rng))
    odd = []
    for ib in (3, 5, 6, 13, 23, 78):
        m = gen.walls(gen.grid(1, 1, 5.0, 5.0))
        m.land[rng.randrange(4)] = (ib, m.land[0][1])
        odd.append(m)
    allm = ms + bigs + bad + odd
    rde = rd.result()

    # ---- the reader
    def read(part):
        k0, lst = part
        d = os.path.dirname(c.path("read%d" % k0, "x"))
        jobs = []
        for k, m in enumerate(lst):
            f = os.path.join(d, "%d.14" % k)
            g = getattr(m, "gen", [])
            with open(f, "w") as fh:
                fh.write(m.fort14(name="mesh%d and more words" % k, generic=g if g or k % 2 else None))
            jobs.append("adc " + f)
        jf = os.path.join(d, "jobs")
        with open(jf, "w") as fh:
            fh.write("\n".join(jobs) + "\n")
        r = c.run([rde, jf], cwd=d, timeout=120, what="reading meshes")
        ls = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] == "{"]
        if len(ls) != len(lst):
            raise CheckError("reader answered %d of %d meshes" % (len(ls), len(lst)))
        return [{"mesh": mesh_record(m), "obs": o} for m, o in zip(lst, ls)]
    chunks = [(k, allm[k:k + 100]) for k in range(0, len(allm), 100)]
    recs = [x for p in c.pmap(read, chunks, 8) for x in p]
    c.conform("MeshTrace", {"RUNM": recs}, len(recs), what="the connectivity read from a file is not the mesh's own",
              part="MeshTrace.read", consts="SPECIFICATION TSpec\nINVARIANTS ReadRight ReadMutual\nCHECK_DEADLOCK FALSE\n")

    # ---- the objects
    objs = []

    def add(m, data=True):
        objs.append((m, data))
    for m in ms[::45 if not c.thorough else 12] + bigs:
        bcis_for(m, rng)
        add(m)
    for m in bad:
        bcis_for(m, rng)
        add(m)
    for m in [x for x in bigs if x.open or any(t % 10 == 2 for t, _ in x.land)][:6] + [x for x in lev][:3]:
        m = m.clone()
        n = bcis_for(m, rng, skip=None)
        if n:
            bcis_for(m, rng, skip=rng.randrange(n))
            m.nolev = False
        else:
            m.nolev = True
        add(m, False)

    def obj(job):
        v, lst = job
        d = os.path.dirname(c.path("obj_" + v, "x"))
        ys = []
        for k, (m, data) in enumerate(lst):
            dd = os.path.join(d, str(k))
            os.makedirs(dd, exist_ok=True)
            g = getattr(m, "gen", [])
            with open(os.path.join(dd, "m.14"), "w") as fh:
                fh.write(m.fort14(prec=17, generic=g if g or k % 2 else None))
            if m.needs_bcis():
                t = m.bcis_text()
                if not data and getattr(m, "nolev", False):
                    t = drop_line(t)
                with open(os.path.join(dd, "m.bcis"), "w") as fh:
                    fh.write(t)
            y = os.path.join(dd, "in.yml")
            with open(y, "w") as fh:
                fh.write(gen.yaml_cfg(os.path.join(dd, "m.14"), p=1 + k % 3, problem=sim.YNAME[v], ic=(20.0, 0.0, 0.0)))
            ys.append(y)
        jf = os.path.join(d, "jobs")
        with open(jf, "w") as fh:
            fh.write("\n".join(ys) + "\n")
        r = c.run([F[v].result(), jf], cwd=d, timeout=600, what="building meshes with " + v)
        ls = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] == "{"]
        if len(ls) != len(lst):
            raise CheckError("%s built %d of %d meshes" % (v, len(ls), len(lst)))
        return [record(m, data, o, v) for (m, data), o in zip(lst, ls)]
    jobs = [("rkdg", objs)] + [(v, objs[::2] + objs[-9:]) for v in F if v != "rkdg"]
    recs = [x for p in c.pmap(obj, jobs, 4) for x in p]
    c.conform("MeshTrace", {"RUNO": recs}, len(recs), what="the mesh objects a run builds are not those of its mesh", part="MeshTrace.objects",
              consts="SPECIFICATION TSpec\nINVARIANTS Accepts Refuses Complete Kinds Edges Geometry\nCHECK_DEADLOCK FALSE\n")
    c.sample({"meshes read": len(allm), "enumerated": small, "built": len(recs), "refused": sum("err" in x["obs"] for x in recs),
              "problems": sorted(F)})
    c.assumptions += ["meshes are conforming: no edge belongs to more than two elements and no two elements share two edges",
                      "where sections contradict each other about an edge either reading is accepted"]


def drop_line(t):
    """Remove one levee pair from the forcing data."""
    ls = t.rstrip("\n").split("\n")
    k, n = next((i, int(l.split()[1])) for i, l in enumerate(ls) if l.startswith("129 "))
    ls[k] = "129 %d" % (n - 1)
    del ls[k + 1]
    return "\n".join(ls) + "\n"


def record(m, data, o, v):
    xs = [p[0] for p in m.nodes.values()]
    ys = [p[1] for p in m.nodes.values()]
    x0, y0 = min(xs), min(ys)
    L = max(max(xs) - x0, max(ys) - y0)
    C, Fn, H = L / 8192, L * 1e-8, 1.0 / 8192

    def pts(a, u):
        return [[q(x - x0, u) for x in a[0]], [q(y - y0, u) for y in a[1]]]
    ids = list(m.nodes)
    R = {"mesh": {k: w for k, w in mesh_record(m).items() if k != "nodes"}, "data": data, "v": v, "ids": ids,
         "c": [[q(m.nodes[i][0] - x0, C), q(m.nodes[i][1] - y0, C)] for i in ids],
         "f": [[q(m.nodes[i][0] - x0, Fn), q(m.nodes[i][1] - y0, Fn)] for i in ids]}
    if "err" in o:
        R["obs"] = o
        return R
    for f in o["int"]:
        f["ci"], f["fi"], f["ce"], f["fe"] = pts(f["xi"], C), pts(f["xi"], Fn), pts(f["xe"], C), pts(f["xe"], Fn)
        f["ni"], f["ne"] = [[[q(x, H) for x in a] for a in f[k]] for k in ("ni", "ne")]
        del f["xi"], f["xe"]
    for f in o["bnd"]:
        f["ci"], f["fi"] = pts(f["xi"], C), pts(f["xi"], Fn)
        f["ni"] = [[q(x, H) for x in a] for a in f["ni"]]
        del f["xi"]
    R["obs"] = o
    return R
