"""C14 boundary forcing: Forcing.tla (values and clock) explored by TLC and used to compute what must be imposed; real runs on
forced edges compared by ForcingTrace.tla with twins held at those values, plus anchors, walls and refusals."""
import math
from vlib import Violation, CheckError, q
import gen, sim, scen

L0 = 1e7
ANY = 1000000001
UNIT = 1e-5
SCH = {"euler": (1, 1), "ssp22": (2, 2), "ssp33": (3, 3), "implicit": (1, 1)}
SAMPLE = {"euler": (0,), "ssp22": (0, 2), "ssp33": (0, 2, 1), "implicit": (2,)}


def scenario(c, scheme, steps):
    """A chain of edges cut into sections; every section has its own type and constituents."""
    r = c.rng
    n = r.randint(1, 4)
    cuts = sorted(r.sample(range(1, n), min(n - 1, r.randint(0, 2)))) if n > 1 else []
    segs = []
    for a, b in zip([0] + cuts, cuts + [n]):
        loose = r.random() < 0.3
        cons = []
        for _ in range(r.randint(1, 3)):
            amp = [r.randint(2, 9) for _ in range(b - a + 1)]
            ph = [r.randrange(90)] * (b - a + 1)
            if loose:
                amp = [amp[0]] * len(amp)
                for k in range(1, len(ph)):
                    ph[k] = (ph[k - 1] + r.choice([-1, 0, 1])) % 90
                    if abs(ph[k] - ph[k - 1]) > 1:          # no jump of the phase itself along an edge
                        ph[k] = ph[k - 1]
            cons.append({"rate": r.choice([0, 1, 2, 5, 7, 13, 15, 22, 30]), "fact": r.choice([1, 1, 2]), "eq": r.randrange(90),
                         "amp": amp, "ph": ph})
        segs.append({"ty": r.choice(["tide", "flow"]), "a": a, "b": b, "cons": cons, "scheme": scheme, "steps": steps,
                     "nodes": b - a + 1})
    g = {"n": n, "segs": segs, "state": (r.uniform(-0.3, 0.3), r.uniform(-0.4, 0.4), r.uniform(-0.4, 0.4)), "bath": r.uniform(3, 6)}
    ang = r.uniform(0, 2 * math.pi)
    pts = [(0.0, 0.0)]
    for _ in range(n):
        l = L0 * r.uniform(0.8, 1.2)
        pts.append((pts[-1][0] + l * math.cos(ang), pts[-1][1] + l * math.sin(ang)))
        ang += r.uniform(-0.2, 0.2)
    ap = []
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        f = r.uniform(0.3, 0.7)
        ap.append((x0 + f * (x1 - x0) - (y1 - y0) * 0.9, y0 + f * (y1 - y0) + (x1 - x0) * 0.9))
    g["pts"], g["ap"] = pts, ap
    return g


class Sheet:
    """A mesh of loose pieces."""
    def __init__(self, c, total):
        self.m, self.ic, self.r, self.at = gen.Mesh(), {}, c.rng, 0
        self.ids = c.rng.sample(range(1, 3 * total + 10), total)
        self.nids = c.rng.sample(range(1, 20 * total + 40), 6 * total + 10)
        self.w = int(total ** 0.5) + 1

    def place(self):
        self.at += 1
        return 20 * L0 * (self.at % self.w), 20 * L0 * (self.at // self.w)

    def node(self, x, y, z):
        k = self.nids.pop()
        self.m.nodes[k] = (x, y, z)
        return k

    def elem(self, nn, state):
        e = self.ids.pop()
        k = self.r.randrange(3)
        self.m.elems.append((e, nn[k:] + nn[:k]))
        self.ic[e] = list(state) * 3
        return e

    def group(self, g, data):
        """data(seg) -> constituents [(freq, fact, eq, [amp], [phase])]"""
        cx, cy = self.place()
        b = [self.node(cx + x, cy + y, g["bath"]) for x, y in g["pts"]]
        a = [self.node(cx + x, cy + y, g["bath"]) for x, y in g["ap"]]
        el = [self.elem([b[i], b[i + 1], a[i]], g["state"]) for i in range(g["n"])]
        wall = [b[-1]]
        for i in reversed(range(g["n"])):
            wall += [a[i], b[i]]
        self.m.land.append((0, wall))
        for s in g["segs"]:
            nn = b[s["a"]:s["b"] + 1]
            cons = []
            for fr, fa, eq, amp, ph in data(s):
                o = list(zip(nn, zip(amp, ph)))
                cons.append((fr, fa, eq, o))
            o = list(range(len(nn)))
            self.r.shuffle(o)
            cons = [(fr, fa, eq, dict(x[k] for k in o)) for fr, fa, eq, x in cons]
            self.m.bcis.append((s["ty"], cons))
            nn = nn[::-1] if self.r.random() < 0.5 else nn
            if s["ty"] == "tide":
                self.m.open.append(nn)
            else:
                self.m.land.append((self.r.choice([2, 12, 22]), nn))
        return el

    def done(self):
        self.r.shuffle(self.m.elems)
        self.r.shuffle(self.m.bcis)
        return self.m, self.ic


def ramp(t, d):
    return math.tanh(2 * (t / 86400.0) / d) if d else 1.0


def changes(name, m, recs, steps):
    by = {}
    for r in recs:
        for e in r["el"]:
            by.setdefault(r["step"], {})[e["id"]] = e["I"]
    if sorted(by) != list(range(steps + 1)) or any(len(by[s]) != len(m.elems) for s in by):
        raise Violation("run %s: steps or elements missing" % name)
    for s in by:
        for e, I in by[s].items():
            if any(isinstance(v, str) for v in I):
                raise Violation("run %s: not a number in element %d" % (name, e))
    return {e: [[by[k][e][j] - by[0][e][j] for j in range(3)] for k in range(1, steps + 1)] for e in by[0]}


def length(g, i):
    (x0, y0), (x1, y1) = g["pts"][i], g["pts"][i + 1]
    return math.hypot(x1 - x0, y1 - y0)


def forced_job(c, k, exe, mpe, part):
    v, p, scheme, rd, groups, tabs, dist = k["v"], k["p"], k["scheme"], k["ramp"], k["groups"], k["tabs"], k["dist"]
    steps = k["steps"]
    s, o = SCH[scheme]
    name = k["name"]
    kw = dict(variant=v, p=p, nstages=s, order=o, dt=1.0, g=1.0, ic=(0.0, 0.0, 0.0))
    deg = 4.0
    n = sum(g["n"] for g in groups)
    sh = Sheet(c, n)
    els = [sh.group(g, lambda sg: [(x["rate"] * 2 * math.radians(deg), float(x["fact"]), x["eq"] * deg, [a / 100.0 for a in x["amp"]],
                                    [t * deg for t in x["ph"]]) for x in sg["cons"]]) for g in groups]
    m, ic = sh.done()
    if c.rng.random() < 0.5:
        m.gaps = c.rng
    env = {"REC_RESET": "1"}
    main = [changes(name, m, sim.run(c, exe[v], m, name, vic=ic, nsteps=steps, ramp=rd, env=env, **kw), steps)]
    if dist:
        ns = 3
        deal = {i: c.rng.randrange(ns) for i, _ in m.elems}
        main.append(changes(name + "_d", m, sim.run_ompi(c, mpe[v], part, m, name + "_d", deal, [0, 1, 1], vic=ic, nsteps=steps, ramp=rd,
                                                        env=env, threads=2, **kw), steps))
    hs = sorted({2 * t + h for t in range(steps) for h in SAMPLE[scheme]})
    tw = Sheet(c, n * len(hs))
    tels = []
    for g, tab in zip(groups, tabs):
        tels.append({h: tw.group(g, lambda sg: [(0.0, 1.0, 0.0, [ramp(h / 2.0, rd) * x * 1e-8 for x in tab[g["segs"].index(sg)][h]],
                                                 [0.0] * sg["nodes"])]) for h in hs})
    mt, ict = tw.done()
    twin = changes(name + "_t", mt, sim.run(c, exe[v], mt, name + "_t", vic=ict, nsteps=1, **dict(kw, nstages=1, order=1)), 1)
    res = []
    for g, tab, el, te in zip(groups, tabs, els, tels):
        for sg in g["segs"]:
            for i in range(sg["a"], sg["b"]):
                l = length(g, i)
                a = i - sg["a"]
                loose = sum(x["fact"] * x["amp"][a] / 100.0 * (math.radians(deg) ** 2 / 8) for x in sg["cons"] if x["ph"][a] != x["ph"][a + 1])
                w = [[0, 0, 0] for _ in range(2 * steps + 2)]
                for h in hs:
                    w[h] = [q(t / l, UNIT) for t in twin[te[h][i]][0]]
                for d in main:
                    res.append({"run": name, "ty": sg["ty"], "scheme": scheme, "d": [[q(t / l, UNIT) for t in x] for x in d[el[i]]], "w": w,
                                "tol": k["tol"] + int(round(6 * loose / UNIT))})
    return res


def anchors(c, v, p, exe):
    """Boundaries held at the element's own level or discharge; walls against mirror images."""
    r = c.rng
    N = 40
    sh = Sheet(c, 4 * N)
    fa, fw = [], []
    for k in range(N):
        g = None
        while g is None or g["n"] != 1:
            g = scenario(c, "euler", 1)
        ty = ["tide", "flow"][k % 2]
        (x0, y0), (x1, y1) = g["pts"]
        l = math.hypot(x1 - x0, y1 - y0)
        nx, ny = (y1 - y0) / l, -(x1 - x0) / l
        ze, qx, qy = g["state"]
        if ty == "flow":        # the element's momentum is normal to the edge, as the boundary's is
            qn = qx
            g["state"] = (ze, qn * nx, qn * ny)
        qn = g["state"][1] * nx + g["state"][2] * ny
        g["segs"] = [dict(g["segs"][0], ty=ty)]
        ph = r.randrange(90)
        val = ze if ty == "tide" else qn
        e = sh.group(g, lambda s: [(0.0, 1.0, ph * 4.0, [val] * 2, [ph * 4.0] * 2)])
        fa.append((e[0], l, [-qn, None, None]))
    for k in range(N):
        ze, qx, qy = r.uniform(-.3, .3), r.uniform(-.5, .5), r.uniform(-.5, .5)
        ang = r.uniform(0, 2 * math.pi)
        nx, ny = math.cos(ang), math.sin(ang)
        qn = qx * nx + qy * ny
        mir = (ze, qx - 2 * qn * nx, qy - 2 * qn * ny)
        ids = []
        for pair in (0, 1):
            cx, cy = sh.place()
            P = [sh.node(cx + ny * L0 / 2 * s, cy - nx * L0 / 2 * s, 2.0) for s in (1, -1)]
            A = sh.node(cx - nx * L0, cy - ny * L0, 2.0)
            ids.append(sh.elem([P[0], P[1], A], (ze, qx, qy)))
            if pair:
                B = sh.node(cx + nx * L0, cy + ny * L0, 2.0)
                sh.elem([P[1], P[0], B], mir)
                sh.m.land += [(0, [P[1], A, P[0]]), (0, [P[0], B, P[1]])]
            else:
                sh.m.land += [(0, [P[0], P[1], A, P[0]])]
        fw.append(ids)
    m, ic = sh.done()
    name = "anchor_%s_p%d" % (v, p)
    ch = changes(name, m, sim.run(c, exe[v], m, name, variant=v, vic=ic, p=p, nstages=1, order=1, dt=1.0, nsteps=1, g=1.0,
                                  ic=(0.0, 0.0, 0.0)), 1)
    T = 20 if v == "ihdg" else 3
    FA = [{"run": name, "d": [q(t / l, UNIT) for t in ch[e][0]], "e": [ANY if t is None else q(t, UNIT) for t in want], "tol": T}
          for e, l, want in fa]
    FW = [{"run": name, "a": [q(t / L0, UNIT) for t in ch[a][0]], "b": [q(t / L0, UNIT) for t in ch[b][0]], "tol": T} for a, b in fw]
    return FA, FW


def refusals(c, exe, mpe, part):
    """Boundary data that do not cover the forced nodes must be refused."""
    out = []
    for v in ("rkdg", "ehdg", "ihdg"):
        for ty in ("tide", "flow"):
            for how in ("node", "kind", "none"):
                out.append((v, ty, how, False))
    out += [("rkdg", "tide", "node", True), ("ehdg", "flow", "node", True)]

    def one(x):
        v, ty, how, dist = x
        m = scen.forced(c.rng, tide=ty == "tide", flow=ty == "flow")
        i = [j for j, b in enumerate(m.bcis) if b[0] == ty][0]
        t, cons = m.bcis[i]
        if how == "node":
            k = c.rng.choice(list(cons[0][3]))
            m.bcis[i] = (t, [(a, b, e, {n: d for n, d in nd.items() if n != k}) for a, b, e, nd in cons])
        elif how == "kind":
            m.bcis[i] = ("flow" if t == "tide" else "tide", cons)
        else:
            m.bcis = []
        name = "refuse_%s_%s_%s%s" % (v, ty, how, "_d" if dist else "")
        kw = dict(variant=v, p=1, nstages=1, order=1, dt=1.0, nsteps=2, ic=(0.1, 0, 0), ok=None)
        if dist:
            deal = {e: c.rng.randrange(2) for e, _ in m.elems}
            rc, recs, r = sim.run_ompi(c, mpe[v], part, m, name, deal, [0, 1], **kw)
        else:
            rc, recs, r = sim.run(c, exe[v], m, name, **kw)
        return name, rc, any(a["step"] > 0 for a in recs)
    for name, rc, ran in c.pmap(one, out, 6):
        if rc == 0 or ran:
            raise Violation("forced boundary without data accepted: %s ended with status %d" % (name, rc))
    return len(out)


def check(c):
    core = c.core_objs(sub="core_ser")
    drv = sim.build(c, ["rkdg", "ehdg", "ihdg"], core=core)
    mp = sim.build(c, ["rkdg", "ehdg", "ihdg"], mpi=True)
    cfg = ("SPECIFICATION Spec\nCONSTANTS\nDefect = \"%s\"\nScheme = \"%s\"\nINVARIANTS Imposed Bounded Periodic Shift\nCHECK_DEADLOCK FALSE\n")
    for s in ("ssp33", "implicit"):
        c.model("ForcingMC", part="Forcing.%s" % s, consts=cfg % ("none", s))
    for d in ("phase", "factor", "node", "clock", "last"):
        if c.tlc("ForcingMC", part="Forcing negative", consts=cfg % (d, "ssp33"))["ok"]:
            raise CheckError("the property does not reject the defective forcing '%s'" % d)
    jobs = []
    R = 4 if c.thorough else 1
    for rep in range(R):
        for v, p, scheme, rd in [("rkdg", 1, "euler", 0), ("rkdg", 2, "ssp22", 5.0), ("rkdg", 3, "ssp33", 0), ("ehdg", 1, "euler", 3.0),
                                 ("ehdg", 2, "ssp33", 5.0), ("ehdg", 1, "ssp22", 0), ("ihdg", 1, "implicit", 0), ("ihdg", 2, "implicit", 4.0)]:
            steps = 5
            k = dict(name="%s_p%d_%s_%d" % (v, p, scheme, rep), v=v, p=p, scheme=scheme, ramp=rd / 86400.0, steps=steps,
                     dist=True, tol=20 if v == "ihdg" else 4,
                     groups=[scenario(c, scheme, steps) for _ in range((8 if v == "ihdg" else 40))])
            jobs.append(k)
    flat = [s for k in jobs for g in k["groups"] for s in g["segs"]]
    scf = c.path("sc.ndjson")
    import json
    with open(scf, "w") as f:
        for s in flat:
            f.write(json.dumps({"cons": s["cons"], "nodes": s["nodes"], "steps": s["steps"]}) + "\n")
    rows = iter(c.gen("ForcingGen", part="ForcingGen", env={"SC": scf}, consts=""))
    for k in jobs:
        k["tabs"] = [[next(rows)["tab"] for _ in g["segs"]] for g in k["groups"]]
    part = sim.build_partitioner(c, core)
    exe, mpe = {v: f.result() for v, f in drv.items()}, {v: f.result() for v, f in mp.items()}
    FT = [x for r in c.pmap(lambda k: forced_job(c, k, exe, mpe, part), jobs, 4) for x in r]
    FA, FW = [], []
    for a, b in c.pmap(lambda t: anchors(c, t[0], t[1], exe), [("rkdg", 1), ("rkdg", 2), ("ehdg", 1), ("ehdg", 3), ("ihdg", 1)], 5):
        FA += a
        FW += b
    n = refusals(c, exe, mpe, part)
    c.conform("ForcingTrace", {"FT": FT, "FA": FA, "FW": FW}, len(FT) + len(FA) + len(FW) + n, what="boundary forcing is not what the data prescribe",
              consts="SPECIFICATION Spec\nINVARIANTS RightValueRightTime Anchored Reflects\nCHECK_DEADLOCK FALSE\n")
    for x in FT[::max(1, len(FT) // 5)]:
        c.sample(x)
    c.sample(FA[0])
    c.sample(FW[0])
    c.assumptions += ["imposed values are observed through the water and momentum they bring into an element, compared with an identical element whose boundary is held at the value",
                      "angles are multiples of 4 degrees; where phases differ along an edge agreement is to the curvature of the cosine"]
