"""C08 lake at rest: Rest.tla (discrete balance, exhaustive); whole real runs from still lakes judged by RestTrace.tla."""
import concurrent.futures
from vlib import Violation, CheckError, q
import gen, sim, scen


def cases(c):
    rng = c.rng
    out = []

    def add(name, m, v, lvl=0.0, lvls=None, known=None, **kw):
        m = scen.shuffled(m, rng)
        out.append(dict(name="%03d_%s_%s" % (len(out), v, name), m=m, v=v, lvl=lvl, lvls=lvls, kw=kw, known=known))
    N = 10 if c.thorough else 5
    for rep in range(5 if c.thorough else 1):
        for v in ("rkdg", "ehdg"):
            ms = scen.closed_meshes(rng, bath=scen.rough(rng, rng.choice([6, 12]), 4))
            for k, (mn, m) in enumerate(ms.items()):
                p = 1 + (k + rep) % 3
                so = [(1, 1), (2, 2), (3, 3), (5, 4)][k]
                lvl = [0.0, 0.7, -1.1, 2.3][(k + rep) % 4]
                add("%s_p%d" % (mn, p), m, v, lvl, p=p, nstages=so[0], order=so[1], dt=2.0, nsteps=N, ic=(lvl, 0, 0))
            m = ms["jit"]
            add("sl", m, v, 0.4, p=1, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.4, 0, 0), sections=scen.SL)
            add("wd", m, v, -0.6, p=1, nstages=2, order=2, dt=2.0, nsteps=N, ic=(-0.6, 0, 0), sections=scen.WD % "0.1")
            add("wdsl", ms["skew"], v, 0.25, p=1, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.25, 0, 0),
                sections=scen.WD % "0.1" + "\n" + scen.SL)
            add("gravity", ms["skew"], v, 0.9, p=2, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.9, 0, 0), g=3.7)
            add("density", ms["island"], v, 0.9, p=1, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.9, 0, 0),
                sections="density_water: 1025\ndensity_air: 1.3")
            add("friction", ms["jit"], v, 0.9, p=2, nstages=2, order=2, dt=2.0, nsteps=N, ic=(0.9, 0, 0),
                sections="bottom_friction:\n  type: Chezy\n  coefficient: 0.01")
        # long run: slow drifts
        add("long", ms["jit"], "rkdg", 1.3, p=2, nstages=2, order=2, dt=4.0, nsteps=60 if c.thorough else 30, ic=(1.3, 0, 0))
        for k, mn in enumerate(("jit", "skew", "island", "strip")):
            if k > 1 and not c.thorough:
                continue
            ms = scen.closed_meshes(rng)
            for o in (1, 2):
                lvl = [0.8, -0.5, 0.3, 1.1][k]
                add("%s_o%d" % (mn, o), ms[mn], "ihdg", lvl, p=1 + (k + o) % 2, nstages=1, order=o, dt=5.0, nsteps=3, ic=(lvl, 0, 0))
        ms = scen.closed_meshes(rng)
        add("jit", ms["jit"], "gn", 0.4, p=1, nstages=2, order=2, dt=2.0, nsteps=3, ic=(0.4, 0, 0))
        add("skew", ms["skew"], "gn", 0.0, p=2, nstages=1, order=1, dt=1.0, nsteps=2, ic=(0.0, 0, 0))
        # spherical projection: nodes in degrees
        sph = "spherical_projection:\n  longitude_o: 0.0\n  latitude_o: 30.0\n  R: 6378200.0"
        ms = scen.closed_meshes(rng, bath=scen.rough(rng, 8, 3))
        deg = lambda m: m.map_xyz(lambda x, y, z: (x * 1e-5, y * 1e-5 + 38.0, z))
        for v, lvl in (("rkdg", 0.0), ("ehdg", 0.6)):
            add("sph_%s" % lvl, deg(ms["jit"]), v, lvl, p=2, nstages=2, order=2, dt=2.0, nsteps=N, ic=(lvl, 0, 0), sections=sph,
                coord="spherical")
        add("sph_level", deg(ms["jit"]), "rkdg", 0.6, p=1, nstages=1, order=1, dt=2.0, nsteps=1, ic=(0.6, 0, 0), sections=sph,
            coord="spherical", known="rkdg-spherical")
        # two still lakes behind a levee they do not overtop
        m = gen.levee_grid(4, 2, 2, 800, 400, gap=10.0, H=1.0, Csub=1.0, Csup=1.0, bath=scen.rough(rng, 6, 2))
        lv = {i: (0.8 if sum(m.nodes[n][0] for n in t) / 3 < 400 else -0.7) for i, t in m.elems}
        add("levee", m, "rkdg", lvls=lv, p=1, nstages=2, order=2, dt=1.0, nsteps=N)
        m2 = gen.levee_grid(4, 2, 2, 800, 400, gap=0.0, H=0.2, Csub=1.0, Csup=1.0, bath=scen.rough(rng, 6, 2))
        add("levee_level", m2, "rkdg", lvls={i: 0.9 for i, _ in m2.elems}, p=2, nstages=2, order=2, dt=1.0, nsteps=N)
    return out


def check(c):
    exe = sim.build(c, ["rkdg", "ehdg", "ihdg", "gn"])
    c.model("Rest", consts="SPECIFICATION Spec\nCONSTANTS\nG = %d\nBeds = {0, 1, 3}\nLevels = {2, 5, 9}\n"
            "INVARIANT Balanced\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    cs = cases(c)
    exes = {v: f.result() for v, f in exe.items()}

    def one(k):
        kw = dict(k["kw"])
        vic = None
        if k["lvls"]:
            vic = {i: [k["lvls"][i], 0, 0] * 3 for i, _ in k["m"].elems}
        recs = sim.run(c, exes[k["v"]], k["m"], k["name"], variant=k["v"], vic=vic, **kw)
        rec = []
        for s in recs:
            row = []
            for e in s["el"]:
                L = k["lvls"][e["id"]] if k["lvls"] else k["lvl"]
                num = lambda x: float("nan") if isinstance(x, str) else x
                # surface at the vertices plus every higher mode; all momentum modes
                z = [num(x) - L for x in e["v"][0]] + [num(x) for x in e["q"][0][3:]]
                m_ = [num(x) for k_ in (1, 2) for x in e["v"][k_] + e["q"][k_]]
                big = lambda xs: max((abs(x) if x == x else 1e9) for x in xs)
                row.append({"z": q(big(z), 1e-10), "q": q(big(m_), 1e-9), "w": e["wet"]})
            rec.append(row)
            if k["known"] and any(e["q"] > 40 for e in row) and c.known(k["known"], ""):
                # the recorded defect moves qx alone in the first step; everything else has to be at rest
                for e, o in zip(row, s["el"]):
                    e["q"] = q(max(abs(x) for x in o["v"][2] + o["q"][2]), 1e-9)
        hyb = k["v"] in ("ihdg", "gn")
        return {"name": k["name"], "n": len(k["m"].elems), "steps": int(round(kw["nsteps"])), "rec": rec,
                "tz": 200 if hyb else 20, "tq": 400 if hyb else 40}
    runs = c.pmap(one, cs, 8)
    c.conform("RestTrace", {"RRUNS": runs}, len(runs), what="a still lake starts to move",
              consts="SPECIFICATION TSpec\nINVARIANT Rest\n")
    for k in cs[:6]:
        c.sample(k["name"])
    worst = {}
    for r in runs:
        v = r["name"].split("_")[1]
        w = worst.setdefault(v, [0, 0])
        for s in r["rec"]:
            w[0] = max([w[0]] + [e["z"] for e in s])
            w[1] = max([w[1]] + [e["q"] for e in s])
    c.log("largest deviations (1e-10 m, 1e-9 m2/s): %s" % worst)
    c.assumptions += ["at rest: surface within 2e-9 m and momentum within 4e-8 m2/s (ten times that for the schemes with linear solves)"]
