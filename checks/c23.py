"""C23 momentum sources: Source.tla (friction and bed-slope laws explored by TLC); real steps from states of that lattice, the change of
momentum beyond the recorded face fluxes judged by SourceTrace.tla."""
import json, math
from vlib import Violation, CheckError, q
import gen, scen, sim

U7 = 1e-7
DIRS = [(3, 4, 5), (-4, 3, 5), (5, -12, 13), (-8, -15, 17), (1, 0, 1), (0, -1, 1), (-1, 0, 1), (4, -3, 5), (-12, 5, 13)]


def case(r, law, cf, g):
    a, b, e = r.choice(DIRS)
    return {"a": a, "b": b, "e": e, "s": r.choice([0, 3, 7, 10, 14]) if e > 5 else r.choice([0, 5, 10, 20]), "rt": r.randint(1, 4), "law": law,
            "cf": cf, "n": [r.randint(10, 50) for _ in range(3)] if r.random() < 0.8 else [r.randint(10, 50)] * 3, "g": g}


class Sheet:
    """A mesh of separate walled triangles."""
    def __init__(self, c, size):
        self.c, self.m, self.ic, self.size, self.k, self.nid = c, gen.Mesh(), {}, size, 0, 0
        self.ids = c.rng.sample(range(1, 5000), 1200)
        self.nn = {}
        self.nids = c.rng.sample(range(1, 9000), 3600)

    def add(self, pts, bed, state, rough=None):
        """pts: 3 points (counter-clockwise), bed: 3 depths, state: 3 x (ze, qx, qy), rough: Manning numbers of the nodes."""
        self.k += 1
        cx, cy = 4 * self.size * (self.k % 30), 4 * self.size * (self.k // 30)
        nn = []
        for (x, y), z in zip(pts, bed):
            n = self.nids.pop()
            self.m.nodes[n] = (cx + x, cy + y, z)
            nn.append(n)
        if rough:
            self.nn.update(zip(nn, rough))
        e, k = self.ids.pop(), self.c.rng.randrange(3)
        o = [(i + k) % 3 for i in range(3)]
        self.m.elems.append((e, [nn[i] for i in o]))
        self.ic[e] = [v for i in o for v in state[i]]
        self.m.land.append((0, nn + nn[:1]))
        (x0, y0), (x1, y1), (x2, y2) = pts
        return e, ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2

    def tri(self):
        r = self.c.rng
        while True:
            p = [(self.size * r.random(), self.size * r.random()) for _ in range(3)]
            a = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])
            if abs(a) > 0.2 * self.size ** 2:
                return p if a > 0 else p[::-1]


def friction_section(law, cf, mf):
    if law == "chezy":
        return "bottom_friction:\n  type: Chezy\n  coefficient: %g\n" % (cf * 1e-4)
    return "bottom_friction:\n  type: Manning\n  coefficient: %g\n  input_file: %s\n" % (cf * 1e-4, mf)


def beyond(name, recs, m):
    """Per element the change of its integrals not explained by the face fluxes."""
    I, d, n = {}, {}, {}
    for r in recs:
        for e in r["el"]:
            I.setdefault(r["step"], {})[e["id"]] = e["I"]
    if sorted(I) != [0, 1] or any(len(x) != len(m.elems) for x in I.values()):
        raise Violation("run %s: steps or elements missing" % name)
    for e in I[0]:
        if any(isinstance(x, str) for x in I[1][e]):
            raise Violation("run %s: not a number in element %d" % (name, e))
        d[e] = [I[1][e][v] - I[0][e][v] for v in range(3)]
    for r in recs:
        for f in r.get("fx", []):
            d[f[0]] = [d[f[0]][v] + f[4 + 2 * v] for v in range(3)]
            n[f[0]] = n.get(f[0], 0) + 1
    if any(n.get(e) != 3 for e in d):
        raise CheckError("face fluxes are missing")
    return d


def explicit(c, j, exe, mpe, part):
    v, p, law, cf, g, dist, num = j
    r = c.rng
    name = "%s_p%d_%s_%d_%d%s" % (v, p, law, cf, g, "_d" if dist else "")
    sh = Sheet(c, r.choice([5.0, 40.0, 300.0]))
    todo = []
    for k in range(num):
        x = case(r, law, cf, g)
        h, s = (x["rt"] / 2.0) ** 3, x["s"] / 100.0
        ze = r.uniform(-0.3, 0.5)
        e, A = sh.add(sh.tri(), [h - ze] * 3, [(ze, h * x["a"] * s, h * x["b"] * s)] * 3, [n / 1000.0 for n in x["n"]])
        todo.append(("f", e, A, x))
    for k in range(num // 3):
        x = case(r, law, cf, g)
        x["n"] = [x["n"][0]] * 3
        bed = 6.0
        pick = [(r.choice([0, 5, 10, 14]), r.randint(2, 4)) for _ in range(3)]
        st = []
        for s, rt in pick:
            h = (rt / 2.0) ** 3
            st.append((h - bed, h * x["a"] * s / 100.0, h * x["b"] * s / 100.0))
        e, A = sh.add(sh.tri(), [bed] * 3, st, [n / 1000.0 for n in x["n"]])
        todo.append(("v", e, A, dict(x, s=min(s for s, _ in pick), rt=max(t for _, t in pick)),
                     dict(x, s=max(s for s, _ in pick), rt=min(t for _, t in pick))))
    d = c.path(name, "x")[:-1]
    mf = d + "n.txt"
    with open(mf, "w") as f:
        l = ["%d %.17g" % i for i in sh.nn.items()]
        r.shuffle(l)
        f.write("\n".join(l) + "\n")
    kw = dict(variant=v, vic=sh.ic, p=p, nstages=1, order=1, dt=1.0, nsteps=1, g=g / 10.0, ic=(0.1, 0, 0), env={"REC_FLUX": "1"},
              sections=friction_section(law, cf, mf))
    m = sh.m
    if dist:
        deal = {e: r.randrange(3) for e, _ in m.elems}
        recs = sim.run_ompi(c, mpe[v], part, m, name, deal, [0, 1, 1], threads=2, **kw)
    else:
        recs = sim.run(c, exe[v], m, name, **kw)
    b = beyond(name, recs, m)
    XF, XV = [], []
    for t in todo:
        f = [q(z / t[2], U7) for z in b[t[1]]]
        o = {"run": name, "id": t[1], "f": f[1:], "m": f[0]}
        if t[0] == "f":
            XF.append(dict(o, x=t[3]))
        else:
            XV.append(dict(o, weak=t[3], strong=t[4]))
    return "e", XF, XV


def slopes(c, j, exe):
    v, p, num = j
    r, name, g = c.rng, "slope_%s_p%d" % (v, p), c.rng.choice([98, 100])
    sh, todo = Sheet(c, 21.0), []
    for _ in range(num):
        while True:
            P = [(r.randint(0, 20), r.randint(0, 20)) for _ in range(3)]
            a = (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[2][0] - P[0][0]) * (P[1][1] - P[0][1])
            if a > 20:
                break
        bed, z = [r.randint(100, 500) for _ in range(3)], [r.randint(-50, 100) for _ in range(3)]
        st = [(z[k] / 100.0, r.uniform(-1, 1), r.uniform(-1, 1)) for k in range(3)]
        e, A = sh.add(P, [b / 100.0 for b in bed], st)
        todo.append((e, [[P[k][0], P[k][1], bed[k], z[k]] for k in range(3)]))
    recs = sim.run(c, exe[v], sh.m, name, variant=v, vic=sh.ic, p=p, nstages=1, order=1, dt=1.0, nsteps=1, g=g / 10.0, ic=(0.1, 0, 0),
                   env={"REC_FLUX": "1"})
    b = beyond(name, recs, sh.m)
    return "s", [{"run": name, "id": e, "nd": nd, "g": g, "f": [q(z, 1e-4) for z in b[e][1:]], "m": q(b[e][0], 1e-6)} for e, nd in todo], []


def implicit(c, j, exe, fr, xs):
    """States that an implicit step must turn into the states of the lattice."""
    v, p, law, cf, g, order = j
    r, name = c.rng, "ihdg_p%d_%s_%d_o%d" % (p, law, cf, order)
    sh, todo = Sheet(c, 1e9), []
    for x, f in zip(xs, fr):
        h, s = (x["rt"] / 2.0) ** 3, x["s"] / 100.0
        q1, F = h * x["e"] * s, math.hypot(*f) * U7
        K = F / q1 ** 2 if q1 else 0.0
        if order == 1 or K == 0:
            q0 = q1 + F
        else:
            R = q1 + 0.5 * F
            q0 = (1 - math.sqrt(1 - 2 * K * R)) / K
        ze = r.uniform(-0.3, 0.5)
        a, b = x["a"] / x["e"], x["b"] / x["e"]
        e, A = sh.add(sh.tri(), [h - ze] * 3, [(ze, a * q0, b * q0)] * 3, [n / 1000.0 for n in x["n"]])
        todo.append((e, A, x, [q(a * q1, U7), q(b * q1, U7)]))
    mf = c.path(name, "n.txt")
    with open(mf, "w") as f:
        f.write("\n".join("%d %.17g" % i for i in sh.nn.items()) + "\n")
    recs = sim.run(c, exe["ihdg"], sh.m, name, variant="ihdg", vic=sh.ic, p=p, nstages=1, order=order, dt=1.0, nsteps=1, g=g / 10.0,
                   ic=(0.1, 0, 0), sections=friction_section(law, cf, mf))
    I = {r["step"]: {e["id"]: e["I"] for e in r["el"]} for r in recs}
    if 1 not in I:
        raise Violation("run %s: the step is missing" % name)
    return "i", [{"run": name, "id": e, "x": x, "q": [q(I[1][e][v] / A, U7) for v in (1, 2)], "want": w, "tol": 12 + int(3e-7 * math.hypot(*w)),
                  "z": q((I[1][e][0] - I[0][e][0]) / A, U7)} for e, A, x, w in todo], []


def covered(c, t, exe, mpe, part):
    """Manning numbers for all, more or fewer nodes than there are."""
    v, how, dist = t
    r = c.rng
    m = gen.walls(gen.grid(3, 2, 300.0, 200.0, bath=scen.rough(r, 5.0), pattern=2))
    ids = list(m.nodes)
    r.shuffle(ids)
    left = {"all": ids, "extra": ids, "one": ids[1:], "last": [i for i in ids if i != max(ids)], "most": ids[:1]}[how]
    if how == "extra":
        left = left + [max(ids) + 7, max(ids) + 90]
    name = "cover_%s_%s%d" % (v, how, dist)
    mf = c.path(name, "n.txt")
    with open(mf, "w") as f:
        f.write("\n".join("%d 0.03" % i for i in left) + "\n")
    kw = dict(variant=v, p=1, nstages=1, order=1, dt=1.0, nsteps=1, ic=(0.1, 0.2, 0.1), ok=None, sections=friction_section("manning", 30, mf))
    if dist:
        rc, recs, x = sim.run_ompi(c, mpe[v], part, m, name, {e: r.randrange(2) for e, _ in m.elems}, [0, 1], **kw)
    else:
        rc, recs, x = sim.run(c, exe[v], m, name, **kw)
    if rc < 0 and rc != -6:
        raise Violation("run %s crashed with signal %d" % (name, -rc))
    return {"run": name, "missing": len(set(ids) - set(left)), "extra": len(set(left) - set(ids)), "ran": rc == 0 and any(a["step"] == 1 for a in recs)}


def check(c):
    core = c.core_objs(sub="core_ser")
    drv = sim.build(c, ["rkdg", "ehdg", "ihdg"], core=core)
    mp = sim.build(c, ["rkdg", "ehdg"], mpi=True)
    cfg = ("SPECIFICATION Spec\nCONSTANT Defect = \"%s\"\nINVARIANTS Opposes Parallel Still Grows ShallowMore AtLeast EqualsLimit NodesAlike"
           " Turned SlopeOK\nCHECK_DEADLOCK FALSE\n")
    c.model("SourceMC", part="Source", consts=cfg % "none")
    for d in ("push", "axis", "deep", "nolimit", "sum", "node", "still"):
        if c.tlc("SourceMC", part="Source negative", consts=cfg % d)["ok"]:
            raise CheckError("the property does not reject the defective source '%s'" % d)
    N = 200 if c.thorough else 60
    jobs = []
    for v in ("rkdg", "ehdg"):
        for p, law, cf, g in ((1, "chezy", 25, 98), (2, "manning", 0, 98), (3, "manning", 25, 100), (2, "chezy", 0, 100), (1, "manning", 60, 98)):
            jobs.append((explicit, (v, p, law, cf, g, False, N)))
        jobs.append((explicit, (v, 1, "manning", 30, 98, True, N)))
        for p in (1, 2, 3):
            jobs.append((slopes, (v, p, N)))
    ij = [("ihdg", p, law, cf, g, o) for p, law, cf, g, o in ((1, "chezy", 30, 98, 1), (2, "manning", 0, 98, 1), (1, "manning", 25, 100, 2),
                                                             (1, "chezy", 100, 98, 2), (1, "chezy", 0, 98, 1))]
    sc = [[case(c.rng, j[2], j[3], j[4]) for _ in range(40 if c.thorough else 16)] for j in ij]
    f = c.path("sc.ndjson")
    with open(f, "w") as o:
        for x in (x for l in sc for x in l):
            o.write(json.dumps(x) + "\n")
    out = iter(c.gen("SourceGen", part="SourceGen", env={"SC": f}, consts=""))
    fr = [[next(out)["f"] for _ in l] for l in sc]
    part = sim.build_partitioner(c, core)
    exe, mpe = {v: f.result() for v, f in drv.items()}, {v: f.result() for v, f in mp.items()}
    for j, x, y in zip(ij, sc, fr):
        jobs.append((implicit, (j, x, y)))

    def one(t):
        if t[0] is explicit:
            return explicit(c, t[1], exe, mpe, part)
        if t[0] is slopes:
            return slopes(c, t[1], exe)
        return implicit(c, t[1][0], exe, t[1][2], t[1][1])
    D = {"XR": [], "XF": [], "XI": [], "XS": [], "XV": []}
    for k, a, b in c.pmap(one, jobs, 6):
        D[{"e": "XF", "s": "XS", "i": "XI"}[k]] += a
        D["XV"] += b
    D["XR"] = c.pmap(lambda t: covered(c, t, exe, mpe, part), [(v, how, dist) for v in exe for how in ("all", "extra", "one", "last", "most")
                                                               for dist in ((False, True) if v != "ihdg" else (False,))], 4)
    c.conform("SourceTrace", D, sum(map(len, D.values())), what="a momentum source is not the configured one",
              consts="SPECIFICATION Spec\nINVARIANTS FrictionLaw Implicit SlopeLaw Varying WaterKept Covered\nCHECK_DEADLOCK FALSE\n")
    for k in D:
        c.sample(D[k][0])
        c.sample(D[k][len(D[k]) // 2])
    c.assumptions += ["sources are observed as the change of momentum in one step beyond the recorded face fluxes; implicit ones by the state reached",
                      "Manning numbers are averaged over the nodes of the element, as documented by the code"]
