"""C12 slope limiting: Limiter.tla (every lattice neighbourhood explored by TLC); stars of four elements given to the real program,
so large that a step does nothing but limit, judged by LimiterTrace.tla."""
import math
from vlib import Violation, CheckError, q
import gen, sim

L0 = 1e7
UNIT = 1e-6
GEOS = [([(6, 0), (0, 8), (-6, -8)], [6, 8, 10]),
        ([(18, -24), (10, 24), (-28, 0)], [30, 26, 28]),
        ([(18, 24), (-32, 24), (14, -48)], [30, 40, 50])]


def cross(p, s):
    return p[0] * s[1] - p[1] * s[0]


def shape(c):
    """Geometry of a star: medians, their lengths, offsets of the neighbours' barycentres, walls."""
    r = c.rng
    m, d = r.choice(GEOS)
    for _ in range(r.randrange(4)):
        m = [(-b, a) for a, b in m]
    walls = [r.random() < 0.15 for _ in range(3)]
    n = []
    for b in range(3):
        if walls[b]:
            n.append((2 * m[b][0], 2 * m[b][1]))
            continue
        i, j = r.choice([-1, 0, 0, 1]), r.choice([-1, 0, 0, 1])
        n.append(tuple(2 * m[b][k] + (i * m[(b + 1) % 3][k] + j * m[(b + 2) % 3][k]) // 2 for k in (0, 1)))
    if any(cross(n[b], n[(b + 1) % 3]) == 0 for b in range(3)):
        return shape(c)
    return m, d, n, walls


def scenario(c, geo, mq, nu2, wd):
    """A scenario of Limiter.tla on a given star."""
    r = c.rng
    m, d, n, walls = geo
    U, V = r.randint(-4, 4), r.randint(-4, 4)
    cc = r.choice([1, 2])
    G = cross(m[0], m[1])
    kind = r.choice(["any", "any", "smooth", "part", "linear", "still"])
    R = {"smooth": 0.2 * mq * min(d) ** 2 if mq else 400}.get(kind, 4000)
    amp = [R, 2 * R if kind != "smooth" else R / 2, 2 * R if kind != "smooth" else R / 2]
    f = [[int(r.uniform(-1, 1) * amp[v]) for v in range(3)] for _ in range(2)]
    f.append([-f[0][v] - f[1][v] for v in range(3)])
    if kind == "still":
        f = [[0, 0, 0] for _ in range(3)]
    nb = []
    for b in range(3):
        if walls[b]:
            nb.append([0, 0, 0])
            continue
        ext = [(f[0][v] * cross(n[b], m[1]) + f[1][v] * cross(m[0], n[b])) / G for v in range(3)]
        k = 1.0 if kind == "linear" else r.choice([-1, 0, .3, .5, .8, 1, 1.5, 3])
        lim = 8000
        nb.append([int(max(-lim, min(lim, round(k * e + (0 if kind == "linear" else r.uniform(-.2, .2) * amp[v]))))) for v, e in enumerate(ext)])
    wet, nwet = True, [True] * 3
    if wd and r.random() < 0.4:
        if r.random() < 0.3:
            wet = False
            f = [[0, 0, 0] for _ in range(3)]
            U = V = 0
            nwet = [not w for w in walls] if r.random() < 0.5 else [False] * 3
        else:
            e = r.randrange(3)
            if not walls[e]:
                nwet[e] = False
    return {"c": cc, "U": U, "V": V, "m": [list(a) for a in m], "d": d, "n": [list(a) for a in n], "t": f, "nb": nb,
            "thr": [mq * k * k for k in d], "nu2": nu2, "wet": wet, "nwet": nwet}


class Field:
    """Stars side by side; before every step they are put into the next of their scenarios."""
    def __init__(self, c, p, steps):
        self.m, self.ic, self.p, self.c, self.steps = gen.Mesh(), {}, p, c, steps
        self.k, self.nid = 0, 0
        self.ids = list(range(1, 20000))
        c.rng.shuffle(self.ids)
        self.stars = []

    def node(self, x, y, z):
        self.nid += 1
        self.m.nodes[self.nid] = (x, y, z)
        return self.nid

    def elem(self, nn):
        e = self.ids.pop()
        k = self.c.rng.randrange(3)
        o = [(i + k) % 3 for i in range(3)]
        self.m.elems.append((e, [nn[i] for i in o]))
        return e, o

    def state(self, k, eo, vals, wet, bump):
        """vals: (ze, qx, qy) per node as listed when the element was made."""
        e, o = eo
        self.ic["%d@%d" % (e, k)] = [v for i in o for v in vals[i]] + [1.0 if wet else 0.0] + bump

    def add(self, geo, mq, nu2, wd):
        r = self.c.rng
        self.k += 1
        cx, cy = 600 * L0 * (self.k % 20), 600 * L0 * (self.k // 20)
        m, d, n, walls = geo
        P = lambda p: (cx + L0 * p[0], cy + L0 * p[1])
        vb = [r.uniform(-0.25, 0.25) for _ in range(3)]
        s = sum(vb) / 3
        base = 1.0
        vbed = [base + b - s for b in vb]
        nodes = [self.node(*P((-2 * m[b][0], -2 * m[b][1])), vbed[b]) for b in range(3)]
        mid, side = self.elem(nodes), {}
        for b in range(3):
            if walls[b]:
                continue
            apex = (3 * n[b][0] - 2 * m[b][0], 3 * n[b][1] - 2 * m[b][1])
            bed = base + r.uniform(-0.2, 0.2)
            i, j = (b + 1) % 3, (b + 2) % 3
            side[b] = (self.elem([nodes[j], nodes[i], self.node(*P(apex), bed)]), [vbed[j], vbed[i], bed])
        acts = []
        for k in range(1, self.steps + 1):
            x = scenario(self.c, geo, mq, nu2, wd)
            h = float(x["c"] ** 2)
            mean = (h - base, h * x["U"] / 4.0, h * x["V"] / 4.0)
            t = x["t"]
            if x["wet"]:
                vals = [tuple(mean[v] - 2 * UNIT * t[b][v] for v in range(3)) for b in range(3)]
            else:
                vals = [(0.005 - vbed[b], 0.0, 0.0) for b in range(3)]
            hi = [r.choice([0, 1000, -700]) for _ in range(3)] if self.p > 1 and x["wet"] else [0, 0, 0]
            self.state(k, mid, vals, x["wet"], [b * UNIT for b in hi])
            for b, (eo, bb) in side.items():
                if x["nwet"][b]:
                    w = [[r.uniform(-2000, 2000) * UNIT for _ in range(3)] for _ in range(2)]
                    w.append([-w[0][v] - w[1][v] for v in range(3)])
                    self.state(k, eo, [tuple(mean[v] + UNIT * x["nb"][b][v] + w[a][v] for v in range(3)) for a in range(3)], True, [0.0] * 3)
                else:
                    self.state(k, eo, [(0.005 - z, 0.0, 0.0) for z in bb], False, [0.0] * 3)
            acts.append((x, hi))
        self.stars.append((mid[0], nodes, acts))

    def done(self):
        edges = self.m.boundary_loop()
        for ch in self.m.chains(edges):
            self.m.land.append((0, ch))
        self.c.rng.shuffle(self.m.elems)
        return self.m, self.ic


def one(c, j, exe, mpe, part):
    v, p, mq, nu2, wd, dist, num = j
    steps = 1 if v == "ihdg" else 3
    F = Field(c, p, steps)
    for _ in range(num):
        F.add(shape(c), mq, nu2, wd)
    m, ic = F.done()
    if v == "ihdg":
        ic = {k.split("@")[0]: x for k, x in ic.items()}
    name = "sl_%s_p%d_%d_%d%s%s" % (v, p, mq, nu2, "_wd" if wd else "", "_d" if dist else "")
    kw = dict(variant=v, vic=ic, p=p, nstages=1, order=1, dt=1.0, nsteps=steps, g=1.0, ic=(3.0, 0, 0), env={"REC_RESET": "1"},
              sections="slope_limiting:\n  type: Cockburn-Shu\n  M: %.17g\n  nu: %g\n" % (mq * UNIT / L0 ** 2, nu2 / 2.0)
              + ("wetting_drying:\n  h_o: 0.02\n" if wd else ""))
    if dist:
        deal = {i: c.rng.randrange(4) for i, _ in m.elems}
        recs = sim.run_ompi(c, mpe[v], part, m, name, deal, [0, 1, 0, 1], threads=2, timeout=150, **kw)
    else:
        recs = sim.run(c, exe[v], m, name, **kw)
    A = [{} for _ in range(steps + 1)]
    for rec in recs:
        A[rec["step"]].update({e["id"]: e for e in rec["el"]})
    if any(len(a) != len(m.elems) for a in A):
        raise Violation("run %s: elements missing" % name)
    order, area = dict(m.elems), {}
    for e, nn in m.elems:
        (x0, y0, _), (x1, y1, _), (x2, y2, _) = [m.nodes[k] for k in nn]
        area[e] = ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2
    given = lambda e, k: ic.get("%d@%d" % (e, k)) or ic["%d" % e]
    mean = lambda e, k: [sum(given(e, k)[v:9:3]) / 3 for v in range(3)]
    LS, LM = [], []
    for k in range(1, steps + 1):
        for a in A[k].values():
            if any(isinstance(z, str) for row in a["q"] for z in row):
                raise Violation("run %s: not a number in element %d" % (name, a["id"]))
        for e, nodes, acts in F.stars:
            x, hi = acts[k - 1]
            a = A[k][e]
            if a["wet"] != int(x["wet"]):
                raise Violation("run %s: element %d changed its wet/dry flag" % (name, e))
            mu = mean(e, k)
            got = [[q(a["v"][i][order[e].index(nodes[b])] - (mu[i] if x["wet"] else given(e, k)[3 * order[e].index(nodes[b]) + i]), UNIT)
                    for i in range(3)] for b in range(3)]
            left = [q(a["q"][i][3] if len(a["q"][i]) > 3 else 0.0, UNIT) + sum(abs(q(z, UNIT)) for z in a["q"][i][4:]) for i in range(3)]
            LS.append({"run": name, "id": e, "step": k, "x": x, "v": got, "hi": left, "bump": hi})
        for e in A[k]:
            LM.append({"run": name, "id": e, "step": k, "d": [q(A[k][e]["I"][i] / area[e] - mean(e, k)[i], UNIT) for i in range(3)]})
    return LS, LM


def check(c):
    core = c.core_objs(sub="core_ser")
    drv = sim.build(c, ["rkdg", "ehdg", "ihdg"], core=core)
    mp = sim.build(c, ["rkdg", "ehdg", "ihdg"], mpi=True)
    cfg = ("SPECIFICATION Spec\nCONSTANT Defect = \"%s\"\nINVARIANTS MeansKept LinearKept SmoothKept DryKept Bounded FlatAround Turned\n"
           "CHECK_DEADLOCK FALSE\n")
    c.model("LimiterMC", part="Limiter", consts=cfg % "none")
    for d in ("sign", "tvb", "pair", "over", "balance", "dry"):
        if c.tlc("LimiterMC", part="Limiter negative", consts=cfg % d)["ok"]:
            raise CheckError("the property does not reject the defective limiter '%s'" % d)
    N = 120 if c.thorough else 36
    jobs = []
    for p in (1, 2, 3):
        for mq, nu2 in ((0, 3), (2, 2), (5, 3)):
            jobs.append(("rkdg", p, mq, nu2, p == 2 or mq == 2, False, N))
    jobs += [("rkdg", 1, 0, 4, True, True, N), ("rkdg", 2, 5, 3, True, True, N), ("ehdg", 1, 1, 3, True, False, N), ("ehdg", 2, 0, 3, False, True, N),
             ("ihdg", 1, 0, 3, False, False, N // 2), ("ihdg", 2, 2, 3, False, True, N // 2)]
    part = sim.build_partitioner(c, core)
    exe, mpe = {v: f.result() for v, f in drv.items()}, {v: f.result() for v, f in mp.items()}
    LS, LM = [], []
    for a, b in c.pmap(lambda j: one(c, j, exe, mpe, part), jobs, 4):
        LS += a
        LM += b
    c.conform("LimiterTrace", {"LS": LS, "LM": LM}, len(LS), what="limiting differs from the specification, or changed a mean",
              consts="SPECIFICATION Spec\nCONSTANT Tol = 12\nINVARIANTS AsLimited MeanKept Curved MeansKept\nCHECK_DEADLOCK FALSE\n")
    for x in LS[::max(1, len(LS) // 6)]:
        c.sample(x)
    c.assumptions += ["elements are so large that the flow changes nothing within one step, so what a step does is the limiting",
                      "agreement to 12 units where variations reach thousands; variations within 10 % of the smoothness threshold are not judged"]
