"""C06 distributed = serial: Dist.tla (asynchronous submeshes, exhaustive); real serial and distributed runs of the same
input compared step by step and element by element by DistTrace.tla."""
import concurrent.futures
from vlib import Violation, CheckError, q
import gen, sim, scen


def deals(rng, m, parts, how):
    ids = [i for i, _ in m.elems]
    cen = {i: (sum(m.nodes[k][0] for k in t) / 3, sum(m.nodes[k][1] for k in t) / 3) for i, t in m.elems}
    if how == "scatter":
        d = {i: rng.randrange(parts) for i in ids}
        for p in range(parts):                      # no empty submesh
            if p not in d.values():
                d[rng.choice(ids)] = p
        return d
    ax = 0 if how == "x" else 1
    o = sorted(ids, key=lambda i: (cen[i][ax], cen[i][1 - ax]))
    return {i: k * parts // len(o) for k, i in enumerate(o)}


def cases(c):
    rng = c.rng
    out = []

    def add(name, m, v, parts, ranks, how=None, threads=1, rpl=1, wd=False, loose=1, **kw):
        m = scen.shuffled(m, rng)
        how = how or rng.choice(["scatter", "x", "y", "scatter"])
        place = [p % ranks for p in range(parts)]
        rng.shuffle(place)
        out.append(dict(name="%03d_%s_%s" % (len(out), v, name), m=m, v=v, deal=deals(rng, m, parts, how), place=place, rpl=rpl,
                        threads=threads, wd=wd, loose=loose, kw=kw))
    N = 8 if c.thorough else 4
    for rep in range(4 if c.thorough else 1):
        for v in ("rkdg", "ehdg"):
            ms = scen.closed_meshes(rng)
            add("land1", ms["jit"], v, 4, 2, how="scatter", threads=2, p=1 + rep % 3, nstages=2, order=2, dt=2.0, nsteps=N,
                vic=scen.rand_ic(ms["jit"], rng))
            add("land2", ms["island"], v, 5, 3, p=2, nstages=3, order=3, dt=2.0, nsteps=N, vic=scen.rand_ic(ms["island"], rng))
            add("rpl", ms["skew"], v, 5, 2, rpl=2, p=3, nstages=1, order=1, dt=1.0, nsteps=N, vic=scen.rand_ic(ms["skew"], rng))
            m = scen.forced(rng)
            add("forced1", m, v, 3, 3, p=1, nstages=2, order=2, dt=3.0, nsteps=N, ramp=20.0, ic=(0.1, 0.0, 0.0))
            add("forced2", m, v, 6, 2, how="scatter", threads=3, p=2, nstages=5, order=4, dt=3.0, nsteps=N, ic=(0.1, 0.1, 0.0),
                sections="bottom_friction:\n  type: Chezy\n  coefficient: 0.01")
            m = scen.forced(rng, nx=4, ny=3)
            add("sl", m, v, 5, 2, how="scatter", threads=2, p=1, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.1, 0, 0),
                vic=scen.rand_ic(m, rng, 0.8, 2.0), sections=scen.SL)
            add("slx", m, v, 3, 3, how="x", p=1, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.1, 0, 0),
                vic=scen.rand_ic(m, rng, 0.8, 2.0), sections=scen.SL)
            b = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.rough(rng, 0.4, 0.5), pattern=2, jitter=0.2, rng=rng))
            add("wd", b, v, 4, 2, how="scatter", threads=2, wd=True, p=1, nstages=2, order=2, dt=1.0, nsteps=2 * N, ic=(0.2, 0, 0),
                vic=scen.rand_ic(b, rng, 0.15, 0.1, base=0.1, hmin=0.12), sections=scen.WD % "0.1", loose=100)
            b = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.beach(rng), pattern=2, jitter=0.2, rng=rng))
            add("wdsl", b, v, 3, 3, how="y", wd=True, p=1, nstages=1, order=1, dt=1.0, nsteps=2 * N, ic=(0.2, 0, 0),
                vic=scen.rand_ic(b, rng, 0.15, 0.1, base=0.1, hmin=0.12), sections=scen.WD % "0.05" + "\n" + scen.SL, loose=100)
        for k, (H, gap, wd, how) in enumerate([(0.2, 0.0, False, "x"), (0.3, 20.0, True, "scatter"), (0.1, 5.0, False, "scatter")]):
            m = scen.vary_levee(gen.levee_grid(4, 2, 2, 800, 400, gap=gap, H=H, Csub=0.8, Csup=0.9, bath=scen.rough(rng, 4, 1)), rng, 0.9)
            ic = {i: [x for _ in t for x in ((1.2 if sum(m.nodes[n][0] for n in t) / 3 < 400 else 0.4) + rng.uniform(-0.2, 0.2),
                                             rng.uniform(-.3, .3), rng.uniform(-.3, .3))] for i, t in m.elems}
            add("levee%d" % k, m, "rkdg", 2 + k, 2, how=how, p=1 + k % 2, nstages=2, order=2, dt=1.0, nsteps=N, vic=ic, wd=wd,
                sections=(scen.WD % "0.1") if wd else "")
        for o in (1, 2):
            m = scen.forced(rng, jitter=0.15)
            add("forced_o%d" % o, m, "ihdg", 3 + o, 2, how="scatter", threads=o, p=o, nstages=1, order=o, dt=5.0, nsteps=3,
                ic=(0.2, 0.3, -0.1), loose=100)
        ms = scen.closed_meshes(rng)
        add("cross", ms["island"], "ihdg", 4, 4, p=1, nstages=1, order=1, dt=5.0, nsteps=3, vic=scen.rand_ic(ms["island"], rng), loose=100)
        for k, (mn, how) in enumerate([("jit", "scatter"), ("skew", "x")]):
            add("land_%s" % mn, ms[mn], "gn", 3, 2, how=how, threads=1 + k, p=1 + k, nstages=2, order=2, dt=2.0, nsteps=3,
                vic=scen.rand_ic(ms[mn], rng, 0.2, 0.4, cont=True), loose=2000)
    # extremes: one submesh per element, more threads than submeshes, a rank without work, everything in one submesh
    st = scen.closed_meshes(rng)["strip"]
    n = len(st.elems)
    out.append(dict(name="%03d_rkdg_each" % len(out), m=st, v="rkdg", deal={i: k for k, (i, _) in enumerate(st.elems)},
                    place=[k % 2 for k in range(n)], rpl=1, threads=4, wd=False, loose=1,
                    kw=dict(p=2, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(st, rng))))
    for v in ("rkdg", "ehdg"):
        out.append(dict(name="%03d_%s_idle" % (len(out), v), m=st, v=v, deal={i: k % 2 for k, (i, _) in enumerate(st.elems)},
                        place=[0, 0], rpl=3, threads=2, wd=False, loose=1,
                        kw=dict(p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(st, rng))))
        out.append(dict(name="%03d_%s_one" % (len(out), v), m=st, v=v, deal={i: 0 for i, _ in st.elems}, place=[0], rpl=1,
                        threads=2, wd=False, loose=1,
                        kw=dict(p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(st, rng))))
    return out


def check(c):
    cs = cases(c)
    vs = sorted({k["v"] for k in cs})
    core = c.core_objs()
    ser = sim.build(c, vs, core=core)
    par = sim.build(c, vs, mpi=True)
    part = sim.build_partitioner(c, core)
    for o, n, s, k in (("O1", 6, 3, 3), ("O2", 6, 3, 3), ("O3", 5, 4, 2)):
        c.model("DistMC", consts="SPECIFICATION Spec\nCONSTANTS\nN = %d\nS = %d\nK = %d\nOwner <- %s\nINVARIANTS SameAsSerial Ahead\n"
                "PROPERTY Completes\nCHECK_DEADLOCK TRUE\n" % (n, s, k, o), part="DistMC." + o)
    ser = {v: f.result() for v, f in ser.items()}
    par = {v: f.result() for v, f in par.items()}

    def one(k):
        kw = dict(k["kw"])
        a = sim.run(c, ser[k["v"]], k["m"], k["name"] + "_s", variant=k["v"], **kw)
        b = sim.run_ompi(c, par[k["v"]], part, k["m"], k["name"] + "_d", k["deal"], k["place"], rpl=k["rpl"], threads=k["threads"],
                         variant=k["v"], **kw)
        num = {i: x + 1 for x, i in enumerate(sorted(i for i, _ in k["m"].elems))}
        f = lambda x: float("nan") if isinstance(x, str) else x
        scale = max([1e-3] + [abs(f(x)) for e in a[-1]["el"] for v in e["q"] for x in v if not isinstance(x, str)])
        unit = 1e-12 * scale * k["loose"]
        row = lambda e: {"w": e["wet"], "q": [q(f(x), unit) for v in e["q"] for x in v]}
        steps = int(round(kw["nsteps"])) + 1
        S = []
        for s in a:
            by = {e["id"]: e for e in s["el"]}
            if sorted(by) != sorted(num):
                raise Violation("serial run %s lost elements" % k["name"])
            S.append([row(by[i]) for i in sorted(num)])
        D = [[] for _ in range(steps)]
        for s in sorted(b, key=lambda s: (s["rank"], s["sub"])):
            if s["step"] >= steps or any(e["id"] not in num for e in s["el"]):
                raise Violation("distributed run %s recorded a step or element that does not exist" % k["name"])
            D[s["step"]].append({"rank": s["rank"], "sub": s["sub"], "el": [dict(row(e), n=num[e["id"]]) for e in s["el"]]})
        if len(S) != steps:
            raise Violation("serial run %s took %d steps instead of %d" % (k["name"], len(S) - 1, steps - 1))
        worst = max([0] + [abs(x - y) for t in range(steps) for P in D[t] for e in P["el"] for x, y in zip(e["q"], S[t][e["n"] - 1]["q"])])
        return {"name": k["name"], "n": len(num), "steps": steps - 1, "ser": S, "dist": D, "tol": 1000, "_w": worst,
                "place": k["place"], "threads": k["threads"]}
    runs = c.pmap(one, cs, 4)
    c.log("largest deviations in units (1000 allowed): %s" % {r["name"]: r.pop("_w") for r in runs})
    c.conform("DistTrace", {"DRUNS": runs}, len(runs), what="a distributed run differs from the serial run",
              consts="SPECIFICATION TSpec\nINVARIANTS Cover Stable Agrees\nCHECK_DEADLOCK FALSE\n")
    for r in runs[:8]:
        c.sample({"run": r["name"], "place": r["place"], "threads": r["threads"]})
    c.assumptions += ["agreement within 1e-9 of the largest modal value (looser where an iterative solve or a wet/dry threshold is involved)",
                      "message delivery is whatever Open MPI's shared-memory transport did in the recorded runs; other schedules are covered by the C05 model"]
