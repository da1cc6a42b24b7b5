"""C17 dispersive splitting: Split.tla (words of operators, clocks, and the correction's own rate); the real step and its two
operators applied one by one are recorded and replayed by SplitTrace.tla."""
import math, os, random
from vlib import Violation, CheckError, q, DISC
import gen, sim, scen

G, AL = 9.81, 1.159


def build(c, core):
    return c.harness("gnstep", flags=DISC["gn"] + ["-DPROBLEM=" + sim.PROBLEM["gn"]], core=core, out="gnstep")


# ---- polynomials {(i,j): coefficient} of the scaled position
def mul(a, b):
    r = {}
    for (i, j), x in a.items():
        for (k, l), y in b.items():
            r[(i + k, j + l)] = r.get((i + k, j + l), 0.0) + x * y
    return r


def add(a, b, f=1.0):
    r = dict(a)
    for k, y in b.items():
        r[k] = r.get(k, 0.0) + f * y
    return r


def sc(a, f):
    return {k: f * v for k, v in a.items()}


def d1(a):
    return {(i - 1, j): v * i for (i, j), v in a.items() if i}


def d2(a):
    return {(i, j - 1): v * j for (i, j), v in a.items() if j}


def int1(a):
    return {(i + 1, j): v / (i + 1) for (i, j), v in a.items()}


def int2(a):
    return {(i, j + 1): v / (j + 1) for (i, j), v in a.items() if i == 0}


def flows(rng, k):
    """A known flow: depth h (linear), trace V, velocity U, all in units of the basin's length, and the level's gradient."""
    def r(a, b):
        return round(rng.uniform(a, b), 2)
    kind = ("slope", "flat", "open", "vel")[k % 4]
    Z = {(0, 0): 0.0}
    V, U = [Z, Z], [Z, Z]
    sides = dict(l="land", r="land", b="land", t="land")
    if kind == "slope":
        h = {(0, 0): r(0.8, 1.2), (1, 0): r(0.1, 0.4) * rng.choice([-1, 1])}
        a = r(0.5, 1.0) * rng.choice([-1, 1])
        V[0] = {(1, 0): a, (2, 0): -a}
        U[0] = {(0, 0): r(-0.5, 0.5), (1, 0): r(0.4, 0.9), (2, 0): r(-0.4, 0.4)}
        hp = d1(h)
        Vp, Up = d1(V[0]), d1(U[0])
        ht = sc(add(sc(mul(mul(h, hp), Vp), 3), mul(mul(h, h), d1(Vp))), -1 / 3)
        qq = add(mul(mul(h, hp), mul(Up, Up)), mul(mul(h, h), mul(Up, d1(Up))), 4 / 3)
        # over h; (h h' U'^2 + 4/3 h^2 U' U'')
        zs = int1(add(add(V[0], ht, AL), qq, -1))
    elif kind == "vel":
        h = {(0, 0): r(0.8, 1.3)}
        U = [{(i, j): r(-0.7, 0.7) for i in range(3) for j in range(3 - i)} for _ in range(2)]
        c1 = add(add(mul(d1(U[1]), d2(U[0])), mul(d1(U[0]), d1(U[0]))), add(mul(d1(U[0]), d2(U[1])), mul(d2(U[1]), d2(U[1]))))
        zs = sc(c1, -2 / 3 * h[(0, 0)] ** 2)
        s = rng.choice(["tide", "flow", "land"])
        sides.update(l=s, r=rng.choice(["land", "flow"]))
    else:
        H = r(0.8, 1.3)
        h = {(0, 0): H}
        if kind == "flat":
            a, b = r(0.4, 0.9), r(-0.9, -0.4)
            phi = {(2, 0): a / 2, (3, 0): -a / 3, (0, 2): b / 2, (0, 3): -b / 3}
        else:  # an open side lets the trace through: no change of the trace along it
            a = r(0.4, 0.9)
            phi = {(1, 0): a, (3, 0): -a / 3}
            sides.update(l=rng.choice(["tide", "flow"]))
        V = [d1(phi), d2(phi)]
        lap = add(d1(d1(phi)), d2(d2(phi)))
        zs = add(phi, lap, -AL * H * H / 3)
    return kind, h, V, U, zs, sides


def poly(p):
    return [{"i": i, "j": j, "c": int(round(v * 10000))} for (i, j), v in sorted(p.items()) if round(v * 10000)]


def ev(p, s, t):
    return sum(v * s ** i * t ** j for (i, j), v in p.items())


def oracle(c, exe, k, rng):
    """One correction in a known flow: recorded rate at the element points."""
    kind, h, V, U, zs, sides = flows(rng, k)
    L = 10.0
    rot = rng.uniform(0, 6.28) if k >= 4 else 0.0
    co, si = math.cos(rot), math.sin(rot)
    m = gen.walls(gen.grid(3, 3, L, L, bath=lambda x, y: L * ev(h, x / L, y / L), pattern=2, jitter=0.2, rng=rng), **sides)
    for s in ("l", "r"):
        if sides[s] in ("tide", "flow"):
            m.bcis.append((sides[s], [(1e-3, 1.0, 0.0, {n: (0.0, 0.0) for n in m.sides[s]})]))
    if sides["l"] == sides["r"] and sides["l"] != "land":
        m.bcis = [(sides["l"], [(1e-3, 1.0, 0.0, {n: (0.0, 0.0) for n in m.sides["l"] + m.sides["r"]})])]
    m = m.map_xyz(lambda x, y, z: (5 + x * co - y * si, -3 + x * si + y * co, z))
    m = scen.shuffled(m, rng)
    eps = 1e-6
    ze = sc(zs, AL / G * eps * L)
    hz = add(sc(h, L), ze)
    us = [sc(u, math.sqrt(eps * L)) for u in U]
    name = "o%d_%s" % (k, kind)
    f = c.path(name, "poly.txt")
    with open(f, "w") as fh:
        fh.write("5 -3 %g %.17g %.17g\n" % (L, co, si))
        for v, p in enumerate((ze, mul(hz, us[0]), mul(hz, us[1]))):
            for (i, j), x in p.items():
                fh.write("%d %d %d %.17g\n" % (v, i, j, x))
    recs = sim.run(c, exe, m, name, variant="gn", p=4 if kind == "vel" else 3, dt=1.0, nsteps=1, nstages=1, order=1, g=G, ic=(0.0, 0, 0),
                   env={"GN_ACTS": "D", "GN_POLY": f, "GN_GP": "1"})
    if [r["act"] for r in recs] != ["I", "D"]:
        raise Violation("run %s: recorded acts %s" % (name, [r["act"] for r in recs]))
    out = []
    for x, y in zip(recs[0]["el"], recs[1]["el"]):
        for a, b in zip(x["gp"], y["gp"]):
            X, Y = a[0] - 5, a[1] + 3
            dx, dy = b[3] - a[3], b[4] - a[4]
            got = [(dx * co + dy * si) / (eps * L), (-dx * si + dy * co) / (eps * L)]
            out.append({"run": name, "s": q((X * co + Y * si) / L, 1e-4), "t": q((-X * si + Y * co) / L, 1e-4), "h0": q(h[(0, 0)], 1e-4),
                        "g": [q(h.get((1, 0), 0), 1e-4), q(h.get((0, 1), 0), 1e-4)], "V": [poly(p) for p in V], "U": [poly(p) for p in U],
                        "got": [q(v, 1e-4) for v in got], "tol": 60})
    rng.shuffle(out)
    return out[:150 if c.thorough else 40]


# ---- states as integers
def unit(recs):
    mx = max((abs(float(v)) for r in recs for e in r["el"] for row in e["q"] for v in row), default=1.0)
    if not mx < 1e6:
        raise Violation("a value is not a number or has grown to %g" % mx)
    return max(mx, 1e-9) / 1e9


def state(rec, u):
    return [{"i": e["id"], "w": e["wet"], "z": [q(v, u) for v in e["q"][0]], "m": [q(v, u) for row in e["q"][1:] for v in row]}
            for e in sorted(rec["el"], key=lambda e: e["id"])]


def halves(t, dt):
    x = t / (dt / 2)
    return int(round(x)) if abs(x - round(x)) < 1e-6 else -12345


def clk(r, dt):
    return [r["fs"], halves(r["ft"], dt), r["ss"], halves(r["st"], dt), r["cs"], halves(r["ct"], dt)]


def scenes(c, rng, k):
    """A dispersive run: (name, mesh, keyword arguments, exempted elements)."""
    kinds = ["jit", "island", "strip", "skew", "forced", "beach", "jit", "beach", "forced", "limited", "skew"]
    kind = kinds[k % len(kinds)]
    L = rng.choice([250.0, 400.0, 800.0])
    p = 1 + k % 3
    nst, od = [(1, 1), (2, 2), (3, 3), (4, 3), (5, 4)][rng.randrange(5)] if k > 2 else (2, 2)
    dt, K = 1.0, 3
    if kind in ("jit", "island", "strip", "skew"):
        m = scen.closed_meshes(rng, bath=scen.rough(rng, 5.0, 0.5), L=L)[kind]
        kw = dict(vic=scen.rand_ic(m, rng, 0.1, 0.5, cont=k % 2 == 0))
    elif kind == "forced":
        m = scen.forced(rng, L=L, amp=0.05, qamp=0.2)
        kw = dict(vic=scen.rand_ic(m, rng, 0.05, 0.2, cont=True))
    elif kind == "limited":
        m = scen.closed_meshes(rng, bath=scen.rough(rng, 5.0, 0.1), L=L)["jit"]
        p = 1
        kw = dict(vic=scen.rand_ic(m, rng, 0.2, 0.3), sections=scen.SL)
    else:
        m = gen.walls(gen.grid(6, 2, L, L / 3, bath=scen.beach(rng, L), pattern=2, jitter=0.1, rng=rng))
        p, K = 1, 6
        kw = dict(vic=scen.rand_ic(m, rng, 0.05, 0.02, base=rng.choice([0.1, -0.1]), cont=True, hmin=0.02),
                  sections=scen.WD % "0.05")
    m2 = scen.shuffled(m, rng)
    off = rng.sample([i for i, _ in m.elems], len(m.elems) // 4) if k % 3 == 1 else []
    kw.update(p=p, dt=dt, nsteps=K, nstages=nst, order=od, ic=(0.0, 0, 0), variant="gn")
    return "%s%d" % (kind, k), m2, kw, off


def dealt(rng, m, n, wets):
    """Assign elements to n submeshes; where there is a shoreline, cut it with the dry side and with the wet side owning the face."""
    faces = {}
    for i, t in m.elems:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            faces.setdefault(frozenset((a, b)), []).append(i)
    best = None
    for _ in range(200):
        deal = {i: rng.randrange(n) for i, _ in m.elems}
        for j, i in enumerate(rng.sample(sorted(deal), n)):
            deal[i] = j
        kinds = set()
        for w in wets:
            for f in faces.values():
                if len(f) == 2 and deal[f[0]] != deal[f[1]] and w[f[0]] != w[f[1]]:
                    lo = min(f, key=lambda i: (deal[i] % 2, deal[i]))
                    kinds.add((w[lo], deal[f[0]] % 2 == deal[f[1]] % 2))
        if best is None or len(kinds) > best[0]:
            best = (len(kinds), deal)
    return best[1]


def buffer_file(c, name, off):
    with open(c.path(name, "buffer_elements"), "w") as f:
        f.write("".join("%d\n" % i for i in off))


def check(c):
    core = c.core_objs(sub="core_ser")
    gn = build(c, core)
    rk = sim.build(c, ["rkdg"], core=core)["rkdg"]
    mp = sim.build(c, ["gn"], mpi=True)["gn"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Defect = \"%s\"\nK = %d\nINVARIANTS Ordered Clocks Meet Sound\nCHECK_DEADLOCK FALSE\n"
    c.model("SplitMC", part="Split", consts=cfg % ("none", 50))
    for d in ("clock", "lie", "late", "early", "halfD", "fullS", "uneven", "dual"):
        if c.tlc("SplitMC", part="Split negative", consts=cfg % (d, 3))["ok"]:
            raise CheckError("the property does not reject the defective splitting '%s'" % d)
    part = sim.build_partitioner(c, core)
    gn, rk, mp = gn.result(), rk.result(), mp.result()
    seeds = random.Random(c.rng.random())
    nr, nd, no = (60, 24, 48) if c.thorough else (11, 5, 12)

    def replay(k):
        rng = random.Random(k * 7919 + c.seed)
        name, m, kw, off = scenes(c, rng, k)
        dt, K = kw["dt"], kw["nsteps"]
        res = {}
        for acts in ("real", "SDS"):
            n = "%s_%s" % (name, acts)
            buffer_file(c, n, off)
            res[acts] = sim.run(c, gn, m, n, env={"GN_ACTS": acts}, **kw)
        R, A = res["real"], res["SDS"]
        if len(R) != K + 1 or len(A) != 3 * K + 1:
            raise Violation("run %s: %d and %d states recorded for %d steps" % (name, len(R), len(A), K))
        u = unit(R + A)
        on = {e["id"]: e["on"] for e in A[0]["el"]}
        if {i for i, v in on.items() if not v} != set(off):
            raise Violation("run %s: exempted elements %s instead of %s" % (name, sorted(i for i, v in on.items() if not v), sorted(off)))
        return {"run": name, "K": K, "acts": [r["act"] for r in A], "clk": [clk(r, dt) for r in A], "st": [state(r, u) for r in A],
                "on": [on[i] for i in sorted(on)], "real": [state(r, u) for r in R], "rclk": [clk(r, dt) for r in R]}

    def pair(run, A, B, ca, cb, tol):
        u = unit(A + B)
        return {"run": run, "a": [state(r, u) for r in A], "b": [state(r, u) for r in B], "ca": ca, "cb": cb, "tol": tol}

    def half(k):
        """The S act alone is the shallow-water program with half the step."""
        rng = random.Random(k * 104729 + c.seed)
        name, m, kw, _ = scenes(c, rng, k)
        A = sim.run(c, gn, m, "h%s" % name, env={"GN_ACTS": "SS"}, **kw)
        kw2 = dict(kw)
        K = kw["nsteps"]
        kw2.update(variant="rkdg", dt=kw["dt"] / 2, nsteps=2 * K, end=int(K * kw["dt"]))
        B = sim.run(c, rk, m, "h%s_r" % name, **kw2)
        if len(A) != 2 * K + 1 or len(B) != 2 * K + 1:
            raise Violation("run %s: %d and %d half steps recorded for %d" % (name, len(A), len(B), 2 * K))
        return pair("half " + name, A, B, [[r["fs"], halves(r["ft"], kw["dt"])] for r in A], [[r["cstep"], halves(r["t"], kw["dt"])] for r in B], 2)

    def dist(k):
        rng = random.Random(k * 15485863 + c.seed)
        name, m, kw, off = scenes(c, rng, (0, 5, 4, 7, 1)[k % 5] + 11 * (k // 5))
        kw["nsteps"] = K = 3
        n = rng.choice([2, 3, 4])
        buffer_file(c, "d%s_s" % name, off)
        buffer_file(c, "d%s" % name, off)
        R = sim.run(c, gn, m, "d%s_s" % name, env={"GN_ACTS": "real"}, **kw)
        deal = dealt(rng, m, n, [{e["id"]: e["wet"] for e in r["el"]} for r in R])
        D = sim.run_ompi(c, mp, part, m, "d%s" % name, deal, [j % 2 for j in range(n)], threads=rng.choice([1, 2]), timeout=100, **kw)
        B, cb = [], []
        for s in range(K + 1):
            rs = [r for r in D if r["step"] == s]
            B.append({"el": [e for r in rs for e in r["el"]]})
            cs = {(r["cstep"], halves(r["t"], kw["dt"])) for r in rs}
            if len(cs) != 1:
                raise Violation("distributed run %s: clocks %s after step %d" % (name, sorted(cs), s))
            cb.append(list(cs.pop()))
        return pair("distributed " + name, R, B, [[r["cs"], halves(r["ct"], kw["dt"])] for r in R], cb, 3)

    def simple(k):
        """A lake at rest over any bed (with dry shore), and a uniform flow over a flat bed: the correction does nothing."""
        rng = random.Random(k * 32452843 + c.seed)
        kw = dict(variant="gn", dt=1.0, nsteps=2, p=1 + k % 3, nstages=2, order=2)
        L = rng.choice([30.0, 300.0])
        if k % 3 == 0:
            m = scen.closed_meshes(rng, bath=scen.rough(rng, 6.0, 2.0), L=L)[("jit", "island", "skew")[(k // 3) % 3]]
            kw.update(ic=(0.3, 0.0, 0.0))
            scale = 1.0
        elif k % 3 == 1:
            m = gen.walls(gen.grid(3, 3, L, L, bath=lambda x, y: 3.0, pattern=k % 2, jitter=0.2, rng=rng))
            kw.update(ic=(0.2, 1.5, -0.8))
            scale = 1.0
        else:
            m = gen.walls(gen.grid(6, 2, L, L / 3, bath=scen.beach(rng, L), pattern=2, jitter=0.1, rng=rng))
            kw.update(ic=(0.0, 0.0, 0.0), p=1, sections=scen.WD % "0.05")
            scale = 1.0
        A = sim.run(c, gn, m, "f%d" % k, env={"GN_ACTS": "D"}, **kw)
        d = [q(float(y) - float(x), 1e-11 * scale) for a, b in zip(A, A[1:]) for e, f in zip(a["el"], b["el"])
             for r1, r2 in zip(e["q"], f["q"]) for x, y in zip(r1, r2)]
        return {"run": "f%d" % k, "d": d, "tol": 100}

    serial = [("r", k) for k in range(nr)] + [("h", k) for k in range(0, nr, 2)] + [("f", k) for k in range(9)] + [("o", k) for k in range(no)]
    fn = {"r": replay, "h": half, "f": simple, "o": lambda k: oracle(c, gn, k, random.Random(k * 49979687 + c.seed)), "d": dist}
    done = c.pmap(lambda j: (j[0], fn[j[0]](j[1])), serial, 8) + c.pmap(lambda k: ("d", dist(k)), list(range(nd)), 4)
    R = [x for j, x in done if j == "r"]
    P = [x for j, x in done if j in ("h", "d")]
    F = [x for j, x in done if j == "f"]
    O = [y for j, x in done if j == "o" for y in x]
    # the replay is able to tell the orders apart: the correction is large against the comparison's tolerance
    if not all(any(abs(a - b) > 1000 for i, t in enumerate(x["acts"]) if t == "D" for e, f in zip(x["st"][i - 1], x["st"][i])
                   for a, b in zip(e["m"], f["m"])) for x in R):
        raise CheckError("a recorded run has no visible correction")
    c.conform("SplitTrace", {"SPR": R, "SPP": P, "SPF": F, "SPO": O}, len(R) + len(P) + len(F) + len(O),
              what="a dispersive step is not half a shallow-water step, one correction of the momentum and another half step",
              consts="SPECIFICATION Spec\nCONSTANT Tol = 3\nINVARIANTS OrderOK ClockOK StepOK MomentumOnly PairOK FlowOK PointOK\nCHECK_DEADLOCK FALSE\n")
    c.sample({"replayed": [x["run"] for x in R], "pairs": [x["run"] for x in P], "points": len(O)})
    for x in O[::max(1, len(O) // 6)]:
        c.sample(x)
    c.assumptions += ["the value of the correction is compared in flows of small amplitude over plane beds, where it is known in closed form",
                      "the two operators are the program's own stage and correction functions, applied one by one"]
