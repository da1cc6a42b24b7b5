"""C13 levees: Levee.tla (weir law) explored by TLC; TLC-enumerated heads laid out at levees of real meshes, and whole real runs,
judged point by point and face by face by LeveeTrace.tla."""
import math
from vlib import Violation, CheckError, q
import gen, sim, scen

NORMALS = [(1, 0, 1), (3, 4, 5), (-4, 3, 5), (-5, -12, 13), (8, -15, 17), (0, 1, 1), (-1, 0, 1), (20, 21, 29)]


def lay(c, vecs):
    """Per vector: three levee pairs (numbered, ordered and oriented differently) and the same two elements behind walls."""
    r = c.rng
    m, ic, out = gen.Mesh(), {}, []
    ids = r.sample(range(1, 24 * len(vecs)), 8 * len(vecs))
    slots, nid = [], [0]
    w = int((4 * len(vecs)) ** 0.5) + 1

    def node(x, y, z):
        nid[0] += 1
        m.nodes[nid[0]] = (x, y, z)
        return nid[0]

    def pair(k, x, levee, flip, rev, swap, at):
        nx, ny = x["N"][0] / x["N"][2], x["N"][1] / x["N"][2]
        tx, ty = -ny, nx
        cx, cy = 300.0 * (at % w), 300.0 * (at // w)
        L = 40.0

        def pt(a, b):
            return (cx + a * nx + b * tx, cy + a * ny + b * ty)
        A = [node(*pt(0, -L / 2), x["b1"][0]), node(*pt(0, L / 2), x["b1"][1]), node(*pt(-90, x["s1"]), x["b1"][2])]
        g = x["gap"]
        B = [node(*pt(g, L / 2), x["b2"][1]), node(*pt(g, -L / 2), x["b2"][0]), node(*pt(90 + g, x["s2"]), x["b2"][2])]
        e1, e2 = sorted(ids.pop() for _ in range(2))
        e = (e2, e1) if flip else (e1, e2)
        two = []
        for el, n, st, wet in ((e[0], A, x["q1"], x["w1"]), (e[1], B, x["q2"], x["w2"])):
            z = [n[2], n[0], n[1]] if el == e[0] else [n[2], n[1], n[0]]      # apex, P0, P1
            val = dict(zip(z, st))
            k3 = r.randrange(3)
            nn = n[k3:] + n[:k3]
            v = []
            for i in nn:
                ze, u, t = val[i]
                v += [ze, nx * u - ny * t, ny * u + nx * t]
            ic[el] = v + [1.0 if wet else 0.0]
            two.append((el, nn))
        slots.append(two[::-1] if flip else two)
        if levee:
            s = [(A[0], B[1], x["H"][0], x["cs"][0], x["cp"][0]), (A[1], B[0], x["H"][1], x["cs"][1], x["cp"][1])]
            if rev:
                s = s[::-1]
            if swap:
                s = [(p[1], p[0]) + p[2:] for p in s]
            m.levees.append((24, s))
            m.land.append((0, [A[1], A[2], A[0]]))
            m.land.append((0, [B[1], B[2], B[0]]))
        else:
            m.land.append((0, [A[0], A[1], A[2], A[0]]))
            m.land.append((0, [B[0], B[1], B[2], B[0]]))
        return e, L
    at = 0
    for k, x in enumerate(vecs):
        ps = []
        for j in range(4):
            o = r.randrange(8)
            ps.append(pair(k, x, j < 3, (j + o) & 1, (j + o) >> 1 & 1, o >> 2 & 1, at))
            at += 1
        out.append(ps)
    r.shuffle(slots)
    r.shuffle(m.levees)
    m.elems = [e for s in slots for e in s]
    return m, ic, out


def lattice(c, x):
    r = c.rng
    crest = r.choice([0.0, 0.25, -0.5, 1.0])
    h1, h2 = x["h1"] / 300.0, x["h2"] / 300.0
    b1, b2 = r.uniform(2, 5), r.uniform(2, 5)
    q1 = [(crest + h1, r.uniform(-1, 1), r.uniform(-1, 1))] * 3 if x["w1"] else [(crest + h1, 0.0, 0.0)] * 3
    q2 = [(crest + h2, r.uniform(-1, 1), r.uniform(-1, 1))] * 3 if x["w2"] else [(crest + h2, 0.0, 0.0)] * 3
    return dict(N=r.choice(NORMALS), gap=r.choice([0.0, 8.0]), H=(crest,) * 2, cs=(x["cs"] / 10.0,) * 2, cp=(x["cp"] / 10.0,) * 2,
                b1=[b1] * 3, b2=[b2] * 3, s1=r.uniform(-12, 12), s2=r.uniform(-12, 12), q1=q1, q2=q2, w1=x["w1"], w2=x["w2"],
                hl=(x["h1"], x["h2"]), kl=(x["cs"], x["cp"]), T=3, e=0)


def varied(c):
    """Crest and coefficients change along the face; beds on the face tell where a point lies (5 at P0, 6 at P1)."""
    r = c.rng
    lv = [r.uniform(-0.3, 0.9) for _ in range(2)]
    H = (r.uniform(-0.2, 0.3), r.uniform(-0.2, 0.3))
    cs, cp = [(r.uniform(0.3, 1.0), r.uniform(0.3, 1.0)) for _ in range(2)]
    q1 = [(lv[0] + r.uniform(-.1, .1), r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(3)]
    q2 = [(lv[1] + r.uniform(-.1, .1), r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(3)]
    return dict(N=r.choice(NORMALS), gap=r.choice([0.0, 8.0]), H=H, cs=cs, cp=cp, b1=[5, 6, r.uniform(4, 7)], b2=[5, 6, r.uniform(4, 7)],
                s1=r.uniform(-12, 12), s2=r.uniform(-12, 12), q1=q1, q2=q2, w1=True, w2=True, T=1, e=1)


def halves(recs, step):
    """Sides of inner faces of one step: {(element, face): (other, wet, [(bed, own level, other level, flux)])} keyed by element."""
    o = {}
    for r in recs:
        if r["step"] != step:
            continue
        for g in r.get("gx", []):
            i, fi, j, fj, wi, we, bed, zi, zj, a, b = g
            if any(isinstance(v, str) for l in (bed, zi, zj, a, b) for v in l):
                raise Violation("step %d: not a number at the face of elements %d and %d" % (step, i, j))
            o.setdefault(i, []).append((fi, j if j >= 0 else None, wi, list(zip(bed, zi, a))))
            if j >= 0:
                o.setdefault(j, []).append((fj, i, we, list(zip(bed, zj, b))))
    return o


def integrals(recs):
    inner, walls = {}, {}
    for r in recs:
        for f in r.get("fx", []):
            v = f[4:]
            if f[2] == -1:
                walls.setdefault(f[0], {})[f[1]] = [0.0 if isinstance(t, str) else t for t in v[0::2]]
                continue
            if any(isinstance(t, str) for t in v):
                raise Violation("flux is not a number at elements %s" % f[:4])
            inner.setdefault(f[0], []).append(v[0::2])
            if f[2] >= 0:
                inner.setdefault(f[2], []).append(v[1::2])
    return inner, walls


LAT, VAR = (1 / 10.0) * 300 ** -1.5, (1 / 50.0) * 1e-3


def points(name, x, A, B):
    """LP records of one levee face from the two sides' (bed, level, flux) lists."""
    if len(A) != len(B) or not A:
        raise Violation("run %s: a levee face has %d and %d points" % (name, len(A), len(B)))
    res = []
    if x["e"] == 0:
        for (_, _, f1), (_, _, f2) in zip(A, B):
            res.append([*x["hl"], int(x["w1"]), int(x["w2"]), *x["kl"], 3, 0, q(f1, LAT), q(f2, LAT)])
        return res
    lo, hi = x.get("range", (5.0, 6.0))
    for (b1, z1, f1), (b2, z2, f2) in zip(sorted(A), sorted(B)):
        s = (b1 - lo) / (hi - lo)
        if abs(b1 - b2) > 1e-9:
            raise Violation("run %s: points of the two sides of a levee do not match" % name)
        at = lambda p: p[0] + (p[1] - p[0]) * s
        H = at(x["H"])
        res.append([int(round((z1 - H) * 100)), int(round((z2 - H) * 100)), int(x["w1"]), int(x["w2"]), int(round(at(x["cs"]) * 50)),
                    int(round(at(x["cp"]) * 50)), 1, 1, q(f1, VAR), q(f2, VAR)])
    return res


def judge(name, vecs, pairs, m, sets):
    """sets: recordings (serial, distributed) of the same mesh."""
    LP, LF = [], []
    got = []
    for recs in sets:
        n = sum(len(r["el"]) for r in recs if r["step"] == 1)
        if n != len(m.elems):
            raise Violation("run %s: %d of %d elements recorded" % (name, n, len(m.elems)))
        got.append((halves(recs, 1), *integrals(recs)))
    el = dict(m.elems)
    for x, ps in zip(vecs, pairs):
        v = []
        for hv, inner, walls in got:
            for (ea, eb), L in ps[:3]:
                A, B = hv.get(ea, []), hv.get(eb, [])
                if len(A) != 1 or len(B) != 1 or A[0][1] not in (None, eb) or B[0][1] not in (None, ea):
                    raise Violation("run %s: elements %d and %d are not joined by one levee" % (name, ea, eb))
                if x["w1"] or x["w2"]:
                    LP += points(name, x, A[0][3], B[0][3])
                v.append({"i": [q(t / L, 1e-6) for t in inner[ea][0]], "e": [q(t / L, 1e-6) for t in inner[eb][0]]})
        (ea, eb), L = ps[3]
        hv, inner, walls = got[0]
        # the face opposite to the apex
        fa = [k for k in range(3) if abs(length(m, el[ea], k) - L) < 1e-6]
        fb = [k for k in range(3) if abs(length(m, el[eb], k) - L) < 1e-6]
        if len(fa) != 1 or len(fb) != 1:
            raise CheckError("ambiguous face")
        wall = {"i": [q(t / L, 1e-6) for t in walls[ea][fa[0]]], "e": [q(t / L, 1e-6) for t in walls[eb][fb[0]]]}
        if x["e"] == 0:
            LF.append({"run": name, "h1": x["hl"][0], "h2": x["hl"][1], "w1": x["w1"], "w2": x["w2"], "T": 3, "v": v, "wall": wall})
        else:       # only agreement among numberings: no head applies to the whole face
            LF.append({"run": name, "h1": 100, "h2": 0, "w1": True, "w2": True, "T": 1, "v": v, "wall": wall})
    return LP, LF


def length(m, n, k):
    a, b = m.nodes[n[(k + 1) % 3]], m.nodes[n[(k + 2) % 3]]
    return math.hypot(a[0] - b[0], a[1] - b[1])


def whole(c, k, recs):
    """LP records of every step of a whole run on a levee_grid whose bed is 4 + y / span."""
    m = k["m"]
    span = k["span"]
    e2 = {}
    for i, t in m.elems:
        for a in range(3):
            e2[frozenset((t[(a + 1) % 3], t[(a + 2) % 3]))] = i
    res = []
    lv = m.levees[0][1]
    steps = sorted({r["step"] for r in recs})[1:]
    if len(steps) != k["kw"]["nsteps"]:
        raise Violation("run %s made %d steps" % (k["name"], len(steps)))
    for st in steps:
        hv = halves(recs, st)
        for p, o in zip(lv, lv[1:]):
            ea, eb = e2[frozenset((p[0], o[0]))], e2[frozenset((p[1], o[1]))]
            y0, y1 = m.nodes[p[0]][1], m.nodes[o[0]][1]
            lo, hi = 4 + y0 / span, 4 + y1 / span
            x = {"e": 1, "w1": True, "w2": True, "H": (p[2], o[2]), "cs": (p[3], o[3]), "cp": (p[4], o[4]), "range": (lo, hi)}
            want = sorted([lo, hi])
            face = lambda el, other: [f[3] for f in hv.get(el, []) if f[1] in (None, other) and
                                      all(want[0] < b < want[1] for b, _, _ in f[3]) and f[0] == fid(m, el, el == ea, p, o)]
            A, B = face(ea, eb), face(eb, ea)
            if len(A) != 1 or len(B) != 1:
                raise Violation("run %s: elements %d and %d are not joined by one levee" % (k["name"], ea, eb))
            res += points(k["name"], x, A[0], B[0])
    return res


def fid(m, el, front, p, o):
    t = dict(m.elems)[el]
    s = {p[0], o[0]} if front else {p[1], o[1]}
    return [k for k in range(3) if t[k] not in s][0]


def check(c):
    core = c.core_objs(sub="core_ser")
    drv = sim.build(c, ["rkdg"], core=core)["rkdg"]
    mp = sim.build(c, ["rkdg"], mpi=True)["rkdg"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\nDefect = \"%s\"\nGrid <- Grid0\nINVARIANTS Conserved Mirror\nPROPERTY Lawful\nCHECK_DEADLOCK FALSE\n"
    c.model("LeveeMC", part="Levee", consts=cfg % "none")
    for d in ("leak", "lost", "backward", "dry"):
        if c.tlc("LeveeMC", part="Levee negative", consts=cfg % d)["ok"]:
            raise CheckError("the property does not reject the defective levee '%s'" % d)
    lat = c.gen("LeveeGen", part="LeveeGen", consts="CONSTANT Big = %s\n" % ("TRUE" if c.thorough else "FALSE"))
    part = sim.build_partitioner(c, core)
    exe, mpe = drv.result(), mp.result()
    rng = c.rng
    jobs = []
    for p in (1, 2, 3):
        vs = [lattice(c, x) for x in (lat if c.thorough or p == 1 else rng.sample(lat, 250))]
        vs += [varied(c) for _ in range(600 if c.thorough else 150)]
        jobs.append(("pairs", p, vs))
    env = {"REC_FLUX": "1", "REC_POINTS": "1"}

    def one(j):
        if j[0] == "pairs":
            _, p, vs = j
            m, ic, pairs = lay(c, vs)
            kw = dict(vic=ic, p=p, nstages=1, order=1, dt=1.0, nsteps=1, g=1.0, ic=(1.0, 0, 0), env=env)
            a = sim.run(c, exe, m, "pairs_p%d" % p, **kw)
            deal = {}
            for ps in pairs:
                for n, ((ea, eb), _) in enumerate(ps):
                    s = rng.sample(range(4), 2)
                    deal[ea], deal[eb] = s if n else (s[0], s[0])     # one of the three stays uncut
            b = sim.run_ompi(c, mpe, part, m, "pairs_p%d_d" % p, deal, [0, 1, 1, 0], threads=2, timeout=120, **kw)
            return judge("pairs_p%d" % p, vs, pairs, m, [a, b])
        k = j[1]
        kw = dict(vic=k["ic"], env=env, g=1.0, **k["kw"])
        if k["deal"]:
            return whole(c, k, sim.run_ompi(c, mpe, part, k["m"], k["name"], k["deal"], k["place"], **kw)), []
        return whole(c, k, sim.run(c, exe, k["m"], k["name"], **kw)), []
    for n in range(20 if c.thorough else 6):
        ly = 400
        m = gen.levee_grid(4, 3, 2, 800, ly, gap=rng.choice([0.0, 20.0]), bath=lambda x, y: 4 + y / ly, H=0.2, Csub=0.8, Csup=0.9,
                           jitter=0.0, pattern=rng.randint(0, 2))
        scen.vary_levee(m, rng, 0.9)
        side = rng.random() < 0.5
        ic = {i: [t for _ in e for t in ((0.8 if (sum(m.nodes[a][0] for a in e) / 3 < 400) == side else 0.15) + rng.uniform(-.1, .1),
                                         rng.uniform(-.1, .1), rng.uniform(-.1, .1))] for i, e in m.elems}
        ns = rng.randint(2, 4)
        deal = {i: rng.randrange(ns) if rng.random() < 0.5 else i % ns for i, _ in m.elems} if n % 2 else None
        s, o = rng.choice([(1, 1), (2, 2), (3, 3), (5, 4)])
        jobs.append(("whole", dict(name="whole%02d" % n, m=m, ic=ic, span=ly, deal=deal, place=[i % 2 for i in range(ns)],
                                   kw=dict(p=1 + n % 3, nstages=s, order=o, dt=2.0, nsteps=30 if c.thorough else 10))))
    LP, LF = [], []
    for a, b in c.pmap(one, jobs, 5):
        LP += a
        LF += b
    n0, d = len(LP), {}
    for x in LP:
        kind = "blocked" if abs(x[8]) <= 1 else "sub" if 3 * min(x[0], x[1]) > 2 * max(x[0], x[1]) else "super"
        d[kind] = d.get(kind, 0) + 1
    c.log("points: %s" % d)
    if min(d.get(t, 0) for t in ("blocked", "sub", "super")) < 100:
        raise CheckError("cases missing: %s" % d)
    c.conform("LeveeTrace", {"LP": LP, "LF": LF}, len(LP) + len(LF), what="exchange over a levee does not follow its law",
              consts="SPECIFICATION Spec\nCONSTANT Tol = 2\nINVARIANTS WeirLaw SameHowever Conserved ActsAsWall BothDry\nCHECK_DEADLOCK FALSE\n")
    for x in LF[::max(1, len(LF) // 4)]:
        c.sample(x)
    for x in LP[::max(1, len(LP) // 4)]:
        c.sample(x)
    c.assumptions += ["gravity 1 so that discharges are compared through their integer squares",
                      "levees exist in the explicit discontinuous Galerkin discretization only (the others refuse or leave them empty)"]
