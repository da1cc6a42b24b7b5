"""C19 face fluxes: Flux.tla (all lattice pairs explored by TLC); the same pairs laid out as real meshes, one real step, judged by FluxTrace.tla."""
from vlib import Violation, CheckError, q
import gen, sim

NORMALS = [(3, 4, 5), (-4, 3, 5), (-5, -12, 13), (8, -15, 17), (0, 1, 1), (-1, 0, 1), (20, 21, 29)]
UNIT = 1e-5


def lay(c, vecs):
    """Three isolated pairs per vector; returns mesh, initial states, and per pair (element of s, element of t, length, d)."""
    rng = c.rng
    m, ic, pairs = gen.Mesh(), {}, []
    nid, slots = [0], []
    ne = 6 * len(vecs)
    ids = rng.sample(range(1, 3 * ne), ne)

    def pair(k, x, n, flip, col, row):
        nx, ny, d = n[0] / n[2], n[1] / n[2], n[2]
        tx, ty = -ny, nx
        cx, cy = 300.0 * col, 300.0 * row
        L = 40.0

        def at(a, b):
            return (cx + a * nx + b * tx, cy + a * ny + b * ty)
        sh = [rng.uniform(-15, 15), rng.uniform(-15, 15)]
        pts = [at(0, -L / 2), at(0, L / 2), at(-80 - 20 * rng.random(), sh[0]), at(80 + 20 * rng.random(), sh[1])]
        nn = []
        for i, (px, py) in enumerate(pts):
            nid[0] += 1
            nn.append(nid[0])
            m.nodes[nid[0]] = (px, py, x["bed"](i))
        el = [[nn[0], nn[1], nn[2]], [nn[1], nn[0], nn[3]]]
        r0, r1 = (k % 3, rng.randrange(3))
        el = [el[0][r0:] + el[0][:r0], el[1][r1:] + el[1][:r1]]
        e1, e2 = sorted(ids.pop() for _ in range(2))
        e = (e2, e1) if flip else (e1, e2)
        for j, st in ((0, x["fs"]), (1, x["ft"])):
            vals = []
            for node in el[j]:
                ze, u, v = st(nn.index(node))
                vals += [ze, nx * u - ny * v, ny * u + nx * v]
            ic[e[j]] = vals + [1.0 if x["sw" if j == 0 else "tw"] else 0.0]
        two = [(e[0], el[0]), (e[1], el[1])]
        slots.append(two[::-1] if flip else two)
        m.land.append((0, [nn[0], nn[3], nn[1]]))
        m.land.append((0, [nn[1], nn[2], nn[0]]))
        return (e[0], e[1], L, d)
    w = int((3 * len(vecs)) ** 0.5) + 1
    for k, x in enumerate(vecs):
        ps = []
        for j in range(3):
            i = 3 * k + j
            ps.append(pair(k, x, x["N"] if j == 2 else (1, 0, 1), j == 1, i % w, i // w))
        pairs.append(ps)
    rng.shuffle(slots)
    m.elems = [e for s in slots for e in s]
    return m, ic, pairs


def vector(c, x):
    s, t = x["s"], x["t"]
    N = c.rng.choice(NORMALS)

    def st(a):
        h = (a["c"] / 10.0) ** 2
        val = (h - a["b"] / 100.0, h * a["u"] / 10.0, h * a["v"] / 10.0)
        return lambda i: val
    return dict(lat=1, s=s, t=t, N=N, bed=lambda i: s["b"] / 100.0, fs=st(s), ft=st(t), sw=s["wet"], tw=t["wet"])


def linear(c, sw, tw, cont):
    """Linear bed, levels and momenta; the four nodes are the two of the face and the two apexes."""
    r = c.rng
    bed = [r.uniform(0.5, 2.0) for _ in range(4)]
    a = [[r.uniform(-0.3, 0.6), r.uniform(-2, 2), r.uniform(-2, 2)] for _ in range(4)]
    b = a if cont else [[r.uniform(-0.3, 0.6), r.uniform(-2, 2), r.uniform(-2, 2)] for _ in range(4)]

    def st(q_, wet):
        # a dry element holds a film and no momentum
        return lambda i: tuple(q_[i]) if wet else (-bed[i] + 0.02, 0.0, 0.0)
    return dict(lat=0, s=dict(wet=sw), t=dict(wet=tw), N=c.rng.choice(NORMALS), bed=lambda i: bed[i], fs=st(a, sw), ft=st(b, tw),
                sw=sw, tw=tw)


def judge(name, vecs, pairs, m, recs):
    r0 = {e["id"]: e for r in recs if r["step"] == 0 for e in r["el"]}
    r1 = {e["id"]: e for r in recs if r["step"] == 1 for e in r["el"]}
    if len(r0) != len(m.elems) or len(r1) != len(m.elems):
        raise Violation("run %s: %d and %d of %d elements recorded" % (name, len(r0), len(r1), len(m.elems)))
    inner, walls = {}, {}
    dry = {e["id"] for e in r0.values() if not e["wet"]}
    want = {e for x, ps in zip(vecs, pairs) for a, b, _, _ in ps for e, w in ((a, x["sw"]), (b, x["tw"])) if not w}
    if dry != want:
        raise CheckError("wet/dry flags were not taken over")
    for r in recs:
        for f in r.get("fx", []):
            if f[2] == -1 and f[0] in dry:
                v = [0.0] * 6       # never applied to a dry element (see Booked); may hold anything
                walls.setdefault(f[0], []).append(v[0::2])
                continue
            v = f[4:]
            if any(isinstance(x, str) for x in v):
                raise Violation("run %s: flux is not a number at elements %s" % (name, f[:4]))
            if f[2] == -1:
                walls.setdefault(f[0], []).append(v[0::2])
            else:
                inner.setdefault(f[0], []).append(v[0::2])
                if f[2] != -2:
                    inner.setdefault(f[2], []).append(v[1::2])
    out = []
    for x, ps in zip(vecs, pairs):
        fl = []
        for ea, eb, L, d in ps:
            o = {"w": [], "p": []}
            for key, e in (("i", ea), ("e", eb)):
                if len(inner.get(e, [])) != 1 or len(walls.get(e, [])) != 2:
                    raise Violation("run %s: element %d has %d inner faces and %d walls" % (name, e, len(inner.get(e, [])), len(walls.get(e, []))))
                f = inner[e][0]
                o[key] = [q(4 * d * v / L, UNIT) for v in f]
                o["w"] += [q(v[0] / L, UNIT) for v in walls[e]]
                o["p"].append(q((r1[e]["I"][0] - r0[e]["I"][0] + f[0] + sum(v[0] for v in walls[e])) / L, UNIT))
            fl.append(o)
        out.append({"run": name, "lat": x["lat"], "s": x["s"], "t": x["t"], "N": list(x["N"]), "fl": fl})
    return out


def check(c):
    core = c.core_objs(sub="core_ser")
    drv = sim.build(c, ["rkdg", "ehdg"], core=core)
    mp = sim.build(c, ["rkdg", "ehdg"], mpi=True)
    cfg = "SPECIFICATION Spec\nCONSTANT Defect = \"%s\"\nINVARIANTS Lawful Swaps Turns\nCHECK_DEADLOCK FALSE\n"
    c.model("FluxMC", part="Flux", consts=cfg % "none")
    for d in ("upwind", "cross", "always", "oneside", "axis", "bias"):
        if c.tlc("FluxMC", part="Flux negative", consts=cfg % d)["ok"]:
            raise CheckError("the property does not reject the defective flux '%s'" % d)
    lat = c.gen("FluxGen", part="FluxGen", consts="CONSTANT Big = %s\n" % ("TRUE" if c.thorough else "FALSE"))
    part = sim.build_partitioner(c, core)
    exes, mpe = {v: f.result() for v, f in drv.items()}, {v: f.result() for v, f in mp.items()}
    jobs = []
    for v in ("rkdg", "ehdg"):
        for dist in (False, True):
            for p in (1, 2, 3):
                full = c.thorough or (p == 1)
                vs = [vector(c, x) for x in (lat if full else c.rng.sample(lat, 250))]
                for k in range(400 if c.thorough else 120):
                    vs.append(linear(c, k % 4 != 1, k % 4 != 2, k % 3 == 0))
                jobs.append((v, dist, p, vs))

    def one(j):
        v, dist, p, vs = j
        name = "%s_p%d%s" % (v, p, "_d" if dist else "")
        m, ic, pairs = lay(c, vs)
        kw = dict(variant=v, vic=ic, p=p, nstages=1, order=1, dt=1.0, nsteps=1, g=1.0, ic=(1.0, 0, 0), env={"REC_FLUX": "1"})
        if dist:
            deal = {}
            for ps in pairs:
                for ea, eb, _, _ in ps:
                    a, b = c.rng.sample(range(4), 2)
                    deal[ea], deal[eb] = a, b
            recs = sim.run_ompi(c, mpe[v], part, m, name, deal, [0, 1, 0, 1], threads=2, timeout=120, **kw)
        else:
            recs = sim.run(c, exes[v], m, name, **kw)
        return judge(name, vs, pairs, m, recs)
    res = [x for r in c.pmap(one, [j for j in jobs if not j[1]], 8) + c.pmap(one, [j for j in jobs if j[1]], 3) for x in r]
    c.conform("FluxTrace", {"FR": res}, len(res), what="a face flux is inconsistent, not conservative, depends on orientation, or leaves a dry element",
              consts="SPECIFICATION Spec\nCONSTANT Tol = 2\nINVARIANTS ConsistentOK ConservesOK DryOK SwapOK TurnOK WallsOK Booked\nCHECK_DEADLOCK FALSE\n")
    for x in res[::max(1, len(res) // 6)]:
        c.sample(x)
    c.assumptions += ["fluxes are face integrals recorded after one explicit Euler step of the real program, gravity 1",
                      "the implicit discretization holds no face flux; its exchange of water is judged by C07"]
