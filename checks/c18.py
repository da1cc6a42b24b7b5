"""C18 symmetry: Symmetry.tla (lock-step pairs explored by TLC); pairs of real runs on transformed inputs compared by SymmetryTrace.tla."""
import concurrent.futures, random
from vlib import Violation, CheckError, q
import gen, sim, scen

D4 = [((1, 0), (0, 1)), ((0, -1), (1, 0)), ((-1, 0), (0, -1)), ((0, 1), (-1, 0)),
      ((-1, 0), (0, 1)), ((1, 0), (0, -1)), ((0, 1), (1, 0)), ((0, -1), (-1, 0))]
PYTH = [((3, -4), (4, 3), 5), ((-5, -12), (12, -5), 13), ((3, 4), (4, -3), 5), ((8, -15), (15, 8), 17)]


def transform(m, ic, rng, number=True, order=True, rotate=True, sections=True, flip=False, M=None, shift=(0.0, 0.0)):
    """Returns (mesh, ic, em by id, nm by id, M, d)."""
    a, b, d = (M[0], M[1], M[2] if len(M) > 2 else 1) if M else ((1, 0), (0, 1), 1)
    t = m.clone()
    t.bcis = [(ty, [(f, fa, eq, dict(nd)) for f, fa, eq, nd in cons]) for ty, cons in m.bcis]

    def mv(x, y):
        return ((a[0] * x + a[1] * y) / d, (b[0] * x + b[1] * y) / d)
    t.nodes = {i: (*(u + s for u, s in zip(mv(x, y), shift)), z) for i, (x, y, z) in m.nodes.items()}
    mirror = a[0] * b[1] - a[1] * b[0] < 0
    el = [(i, list(reversed(n)) if mirror else list(n)) for i, n in m.elems]
    if rotate:
        el = [(i, n[k:] + n[:k]) for (i, n), k in zip(el, [rng.randrange(3) for _ in el])]
    if flip:
        el = [(i, n[::-1] if rng.random() < flip else n) for i, n in el]
    t.elems = el
    if sections:
        def rev(s):
            return list(reversed(s)) if rng.random() < 0.6 else list(s)
        t.open = [rev(s) for s in t.open]
        t.land = [(ib, rev(s)) for ib, s in t.land]
        lv = []
        for ib, s in t.levees:
            s = rev(s)
            if rng.random() < 0.6:
                s = [(p[1], p[0]) + tuple(p[2:]) for p in s]
            lv.append((ib, s))
        t.levees = lv
        rng.shuffle(t.land)
    if order:
        rng.shuffle(t.elems)
        ks = list(t.nodes)
        rng.shuffle(ks)
        t.nodes = {k: t.nodes[k] for k in ks}
    em = {i: i for i, _ in m.elems}
    nm = {i: i for i in m.nodes}
    if number:
        em = dict(zip(em, rng.sample(range(1, 4 * len(em) + 4), len(em))))
        nm = dict(zip(nm, rng.sample(range(1, 4 * len(nm) + 4), len(nm))))
    icT = None
    if ic:
        icT = {}
        old = {i: n for i, n in m.elems}
        for i, n in t.elems:
            v = []
            for k in n:
                j = old[i].index(k)
                ze, qx, qy = ic[i][3 * j:3 * j + 3]
                v += [ze, *mv(qx, qy)]
            icT[em[i]] = v
    t.elems = [(em[i], [nm[k] for k in n]) for i, n in t.elems]
    t.nodes = {nm[k]: p for k, p in t.nodes.items()}
    t.open = [[nm[k] for k in s] for s in t.open]
    t.land = [(ib, [nm[k] for k in s]) for ib, s in t.land]
    t.levees = [(ib, [(nm[p[0]], nm[p[1]]) + tuple(p[2:]) for p in s]) for ib, s in t.levees]
    t.bcis = [(ty, [(f, fa, eq, {nm[k]: v for k, v in nd.items()}) for f, fa, eq, nd in cons]) for ty, cons in t.bcis]
    return t, icT, em, nm, (a, b), d


def project(k, m, t, A, B, em, nm, M, d, loose):
    ids, idt = sorted(i for i, _ in m.elems), sorted(i for i, _ in t.elems)
    na, nb = {i: k2 + 1 for k2, i in enumerate(ids)}, {i: k2 + 1 for k2, i in enumerate(idt)}
    mx = 1e-30
    for recs in (A, B):
        for r in recs:
            for e in r["el"]:
                for row in e["v"]:
                    for x in row:
                        if isinstance(x, str):
                            raise Violation("run %s: not a number" % k["name"])
                        mx = max(mx, abs(x))
    unit = mx / 5e7

    def steps(recs, ids_):
        o = []
        for r in recs:
            by = sim.by_id(r)
            if sorted(by) != ids_:
                raise Violation("run %s holds other elements than its mesh" % k["name"])
            o.append([{"w": by[i]["wet"], "z": [q(x, unit) for x in by[i]["v"][0]], "x": [q(x, unit) for x in by[i]["v"][1]],
                       "y": [q(x, unit) for x in by[i]["v"][2]]} for i in ids_])
        return o
    n1, n2 = {e["id"]: e["nodes"] for e in A[0]["el"]}, {e["id"]: e["nodes"] for e in B[0]["el"]}
    return {"name": k["name"], "n": len(ids), "M": [list(M[0]), list(M[1])], "d": d, "em": [nb[em[i]] for i in ids],
            "vp": [[n2[em[i]].index(nm[n]) + 1 for n in n1[i]] for i in ids], "tol": 2 + loose, "ref": steps(A, ids),
            "tra": steps(B, idt)}


def cases(c):
    rng = c.rng
    out = []

    def add(name, m, v, ic=None, loose=0, rigid=True, **kw):
        out.append(dict(name="%03d_%s_%s" % (len(out), v, name), m=m, v=v, ic=ic, loose=loose, rigid=rigid, kw=kw))
    N = 10 if c.thorough else 5
    for rep in range(6 if c.thorough else 1):
        for v in ("rkdg", "ehdg"):
            ms = scen.closed_meshes(rng)
            for mn, p in (("jit", 1), ("skew", 2), ("island", 3)):
                s, o = [(1, 1), (2, 2), (3, 3)][(p + rep) % 3]
                add("%s_p%d" % (mn, p), ms[mn], v, ic=scen.rand_ic(ms[mn], rng, 0.5, 2.0), p=p, nstages=s, order=o, dt=[4.0, 2.0, 1.0][p - 1], nsteps=N)
            m = scen.forced(rng)
            add("forced", m, v, ic=scen.rand_ic(m, rng, 0.2, 0.5), p=1, nstages=2, order=2, dt=3.0, nsteps=N, ramp=10.0)
            add("friction", m, v, ic=scen.rand_ic(m, rng, 0.2, 5.0), p=2, nstages=2, order=2, dt=2.0, nsteps=N,
                sections="bottom_friction:\n  type: Chezy\n  coefficient: 0.02\n")
            m = scen.forced(rng, nx=4, ny=3)
            add("limited", m, v, ic=scen.rand_ic(m, rng, 0.8, 2.0), p=1, nstages=2, order=2, dt=2.0, nsteps=N, sections=scen.SL)
            b = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.rough(rng, 0.4, 0.5), pattern=2, jitter=0.2, rng=rng))
            add("wetdry", b, v, ic=scen.rand_ic(b, rng, 0.15, 0.1, base=0.1, hmin=0.12), p=1, nstages=2, order=2, dt=1.0, nsteps=N,
                sections=scen.WD % "0.1", loose=100)
            b = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.beach(rng), pattern=2, jitter=0.2, rng=rng))
            add("wdsl", b, v, ic=scen.rand_ic(b, rng, 0.15, 0.1, base=0.1, hmin=0.12), p=1, nstages=1, order=1, dt=1.0, nsteps=N,
                sections=scen.WD % "0.05" + "\n" + scen.SL, loose=100)
        for k in range(2):
            m = gen.levee_grid(4, 3, 2, 800, 400, gap=[0.0, 30.0][k], H=0.2, Csub=0.8, Csup=0.9, bath=scen.rough(rng, 4, 1),
                               Hf=lambda y: 0.1 + y / 1000)
            scen.vary_levee(m, rng, 0.2)
            ic = {i: [x for _ in t for x in ((1.1 if (sum(m.nodes[n][0] for n in t) / 3 < 400) == (k == 0) else 0.35) +
                                             rng.uniform(-0.2, 0.2), rng.uniform(-.3, .3), rng.uniform(-.3, .3))] for i, t in m.elems}
            add("levee%d" % k, m, "rkdg", ic=ic, p=1 + k, nstages=2, order=2, dt=1.0, nsteps=N)
        for o in (1, 2):
            m = scen.forced(rng, jitter=0.15) if o == 1 else scen.closed_meshes(rng)["skew"]
            add("o%d" % o, m, "ihdg", ic=scen.rand_ic(m, rng, 0.2, 0.4), p=o, nstages=1, order=o, dt=5.0, nsteps=3, loose=100)
        ms = scen.closed_meshes(rng)
        add("land", ms["jit"], "gn", ic=scen.rand_ic(ms["jit"], rng, 0.2, 0.4, cont=True), p=1, nstages=2, order=2, dt=2.0, nsteps=3,
            loose=2000)
        add("land2", ms["island"], "gn", ic=scen.rand_ic(ms["island"], rng, 0.2, 0.4, cont=True), p=2, nstages=1, order=1, dt=1.0,
            nsteps=2, loose=2000)
    return out


def check(c):
    exe = sim.build(c, ["rkdg", "ehdg", "ihdg", "gn"])
    cfg = "SPECIFICATION Spec\nCONSTANTS\nN = 4\nDefect = \"%s\"\nINVARIANTS Alike Rigid\nCHECK_DEADLOCK FALSE\n"
    c.model("SymmetryMC", part="Symmetry", consts=cfg % "none")
    for d in ("upwind", "axis", "first"):
        if c.tlc("SymmetryMC", part="Symmetry negative", consts=cfg % d)["ok"]:
            raise CheckError("a step depending on numbering or axes ('%s') is not rejected" % d)
    exes = {v: f.result() for v, f in exe.items()}
    rng = c.rng
    jobs = []
    for k in cases(c):
        kinds = ["number", "move"]
        if c.thorough:
            kinds += ["mirror", "pyth"]
        else:
            kinds += ["pyth"] if k["v"] in ("rkdg", "ehdg") else []
        trs = []
        det = lambda M: M[0][0] * M[1][1] - M[0][1] * M[1][0]
        # a limited run on a reflected mesh is a known finding, looked at separately below
        # (its balancing of rises and falls works per component, so only quarter turns keep it)
        okM = lambda Ms: [M for M in Ms if det(M) > 0] if scen.SL in k["kw"].get("sections", "") else Ms
        for kd in kinds:
            # in half of them some elements, or all, are listed clockwise
            kw = dict(number=True, order=True, rotate=True, sections=True, flip=rng.choice([0, 0, 0.4, 1]))
            if kd == "number":
                kw["flip"] = 0.4
                M, sh = None, (0.0, 0.0)
            elif kd == "move":
                M, sh = rng.choice(okM(D4[1:])), (rng.uniform(-5e3, 5e3), rng.uniform(-5e3, 5e3))
            elif kd == "mirror":
                M, sh = rng.choice(okM(D4[4:]) or D4[1:4]), (0.0, 0.0)
                kw["number"] = False
            else:
                M, sh = rng.choice(PYTH if okM(D4) == D4 else D4[1:4]), (rng.uniform(-5e2, 5e2), 0.0)
            trs.append((kd, transform(k["m"], k["ic"], rng, M=M, shift=sh, **kw)))
        jobs.append((k, trs))

    def one(job):
        k, trs = job
        A = sim.run(c, exes[k["v"]], k["m"], k["name"], variant=k["v"], vic=k["ic"], **k["kw"])
        if len(A) - 1 != k["kw"]["nsteps"]:
            raise Violation("run %s made %d steps" % (k["name"], len(A) - 1))
        if A[0]["el"] == A[-1]["el"]:
            raise CheckError("run %s does not move" % k["name"])
        res = []
        for kd, (t, ic, em, nm, M, d) in trs:
            B = sim.run(c, exes[k["v"]], t, k["name"] + "_" + kd, variant=k["v"], vic=ic, **k["kw"])
            res.append(project(dict(k, name=k["name"] + "_" + kd), k["m"], t, A, B, em, nm, M, d, k["loose"]))
        return res
    runs = [x for rs in c.pmap(one, jobs, 8) for x in rs]
    c.conform("SymmetryTrace", {"SRUNS": runs}, len(runs), what="results depend on numbering, order or orientation of the input",
              consts="SPECIFICATION Spec\nINVARIANTS IsMap Alike\nCHECK_DEADLOCK FALSE\n")
    # the known finding: one fixed input
    r1 = random.Random(7)
    m = gen.walls(gen.grid(3, 3, 3000, 3000, bath=scen.rough(r1), pattern=2, jitter=0.25, rng=r1))
    k = dict(name="mirror_limited", m=m, v="rkdg", ic=scen.rand_ic(m, r1, 0.8, 2.0), loose=0,
             kw=dict(p=1, nstages=1, order=1, dt=2.0, nsteps=1, sections=scen.SL))
    x = one((k, [("mirror", transform(m, k["ic"], r1, number=False, order=False, rotate=False, sections=False, M=D4[4]))]))
    r = c.tlc("SymmetryTrace", part="mirrored limiter", data={"SRUNS": x},
              consts="SPECIFICATION Spec\nINVARIANTS IsMap Alike\nCHECK_DEADLOCK FALSE\n")
    if not r["ok"] and not c.known("limiter-mirror", "mirrored slope limiter"):
        raise Violation("a limited run on a reflected mesh is not the reflected run", r["out"][-2000:])
    for x in runs[:8]:
        c.sample({"name": x["name"], "M": x["M"], "d": x["d"], "em": x["em"][:8]})
    c.assumptions += ["agreement is judged to about 4e-8 of the largest value of a run (implicit and dispersive solvers: 2e-6, 4e-5)"]
