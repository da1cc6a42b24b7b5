"""C07 conservation: Ledger.tla explored by TLC; volumes and face fluxes recorded from whole real runs judged by it."""
import concurrent.futures, math
from vlib import Violation, CheckError, q
import gen, sim, scen

THR = 2.2e-11


def project(recs, m, dt, wd, name, closed_tol=1e-12):
    """Recorded run -> LRUNS line (volumes relative to the start, in units fit for the run)."""
    base = {e["id"]: e for e in recs[0]["el"]}
    ids = sorted(base)
    if sorted(i for i, _ in m.elems) != ids:
        raise Violation("run %s does not hold the elements of its mesh" % name)
    num = {i: k + 1 for k, i in enumerate(ids)}
    bath = {i: base[i]["area"] * sum(p[2] for p in base[i]["xyz"]) / 3 for i in ids}
    v0 = {i: base[i]["I"][0] for i in ids}
    tot = sum(abs(v0[i] + bath[i]) for i in ids)
    mx = 0.0
    for r in recs:
        for e in r["el"]:
            if isinstance(e["I"][0], str):
                raise Violation("run %s: volume of element %d is not a number" % (name, e["id"]))
            mx = max(mx, abs(e["I"][0] - v0[e["id"]]))
        for f in r.get("fx", []):
            mx = max(mx, abs(f[4] * dt), abs(f[5] * dt))
    unit = max(2e-8 * mx * max(1, len(ids) / 20.0), 1e-13 * tot)
    steps = []
    for r in recs:
        d = {e["id"]: e for e in r["el"]}
        if sorted(d) != ids:
            raise Violation("run %s lost or duplicated elements" % name)
        fx = []
        for f in r.get("fx", []):
            if f[2] == -1:
                fx.append({"a": num[f[0]], "b": 0, "out": q(f[4] * dt, unit), "into": 0})
            else:
                fx.append({"a": num[f[0]], "b": num[f[2]], "out": q(f[4] * dt, unit), "into": q(-f[5] * dt, unit)})
        steps.append({"v": [q(d[i]["I"][0] - v0[i], unit) for i in ids], "fx": fx})
    film = [q(THR * base[i]["area"] - (v0[i] + bath[i]), unit) if wd else -2000000000 for i in ids]
    return {"n": len(ids), "wd": int(wd), "film": film, "steps": steps, "name": name,
            "_unit": unit, "_mx": mx, "_tot": tot}


def cases(c):
    rng = c.rng
    out = []

    def add(name, m, v, wd=False, flux=True, tol=None, **kw):
        out.append(dict(name="%02d_%s_%s" % (len(out), v, name), m=scen.shuffled(m, rng), v=v, wd=wd, flux=flux, tol=tol, kw=kw))
    reps = 4 if c.thorough else 1
    for rep in range(reps):
        ms = scen.closed_meshes(rng)
        N = 12 if c.thorough else 6
        for v in ("rkdg", "ehdg"):
            for mn, m in ms.items():
                p = {"strip": 3, "jit": 1, "skew": 2, "island": 1}[mn] if rep == 0 else rng.randint(1, 3)
                add("%s_p%d" % (mn, p), m, v, p=p, nstages=1, order=1, dt=2.0, nsteps=N,
                    ic_=scen.rand_ic(m, rng, 0.4, 1.5))
            m = ms["jit"]
            for s, o in [(2, 2), (3, 3), (5, 4)] + ([(4, 3), (6, 3), (7, 4), (8, 3), (8, 4)] if c.thorough else []):
                add("rk%d%d" % (s, o), m, v, flux=False, p=rng.randint(1, 2), nstages=s, order=o, dt=4.0, nsteps=N,
                    ic_=scen.rand_ic(m, rng, 0.4, 1.5))
            add("friction", m, v, p=2, nstages=1, order=1, dt=2.0, nsteps=N, ic_=scen.rand_ic(m, rng, 0.4, 3.0),
                sections="bottom_friction:\n  type: Chezy\n  coefficient: 0.02\n")
            add("limited", m, v, p=1, nstages=1, order=1, dt=2.0, nsteps=N, ic_=scen.rand_ic(m, rng, 0.8, 2.0),
                sections=scen.SL)
            # shallow bowl that wets and dries
            bowl = scen.rough(rng, 0.6, 0.7)
            for k, sec in enumerate([scen.WD % "0.1", scen.WD % "0.05" + "\n" + scen.SL]):
                b = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.rough(rng, 0.4, 0.5), pattern=2, jitter=0.2, rng=rng))
                add("wetdry%d" % k, b, v, wd=True, p=1, nstages=1, order=1, dt=1.0, nsteps=2 * N,
                    ic=(0.2, 0.0, 0.0), ic_=scen.rand_ic(b, rng, 0.15, 0.1, base=0.1, hmin=0.12), sections=sec)
            b = gen.walls(gen.grid(3, 3, 300, 300, bath=bowl, pattern=2))
            add("wetdry_rk2", b, v, wd=True, flux=False, p=1, nstages=2, order=2, dt=1.0, nsteps=2 * N, ic=(0.3, 0, 0),
                ic_=scen.rand_ic(b, rng, 0.2, 0.2, base=0.2, hmin=0.12), sections=scen.WD % "0.1")
        # levees: overtopped, partly, blocked
        for k, (H, gap) in enumerate([(0.2, 0.0), (0.5, 50.0), (3.0, 10.0)]):
            m = scen.vary_levee(gen.levee_grid(4, 2, 2, 800, 400, gap=gap, H=H, Csub=0.8, Csup=0.9, bath=scen.rough(rng, 4, 1)), rng)
            ic = {}
            for (i, t) in m.elems:
                left = sum(m.nodes[n][0] for n in t) / 3 < 400
                lvl = 0.7 if left == (k % 2 == 0) else 0.1
                ic[i] = [x for n in t for x in (lvl + rng.uniform(-0.15, 0.15), rng.uniform(-.3, .3), rng.uniform(-.3, .3))]
            add("levee%d" % k, m, "rkdg", p=1 + k % 2, nstages=1, order=1, dt=1.0, nsteps=N, ic_=ic)
            if k < 2:
                add("levee_rk%d" % k, m, "rkdg", flux=False, p=1, nstages=2, order=2, dt=1.0, nsteps=N, ic_=ic)
        m = gen.levee_grid(4, 2, 2, 400, 200, gap=5.0, H=0.3, Csub=0.8, Csup=0.9, bath=scen.rough(rng, 0.3, 0.4))
        add("levee_wd", m, "rkdg", wd=True, p=1, nstages=1, order=1, dt=0.5, nsteps=2 * N, ic=(0.4, 0, 0),
            ic_=scen.rand_ic(m, rng, 0.2, 0.1, base=0.4, hmin=0.12), sections=scen.WD % "0.1")
        for mn in ("jit", "skew") + (("island", "strip") if c.thorough else ()):
            m = ms[mn]
            for o in (1, 2):
                add("%s_o%d" % (mn, o), m, "ihdg", flux=False, tol=1e-7, p=1 + (o == 2), nstages=1, order=o, dt=4.0, nsteps=4,
                    ic_=scen.rand_ic(m, rng, 0.2, 0.5))
        m = ms["skew"]
        add("gn", m, "gn", flux=False, p=1, nstages=2, order=2, dt=2.0, nsteps=4, ic_=scen.rand_ic(m, rng, 0.2, 0.5, cont=True))
    return out


def check(c):
    exe = sim.build(c, ["rkdg", "ehdg", "ihdg", "gn"])
    for wd in ("TRUE", "FALSE"):
        c.model("LedgerMC", part="Ledger", consts="SPECIFICATION Spec\nCONSTANTS\nCells <- MCCells\nJoins <- MCJoins\n"
                "MaxVol = %d\nMaxFlux = %d\nFilm = 1\nWetDry = %s\nINVARIANTS Conserved NothingLost\n%sCHECK_DEADLOCK FALSE\n"
                % (3 if c.thorough else 2, 2 if c.thorough else 1, wd, "INVARIANT FilmKept\n" if wd == "TRUE" else ""))
    cs = cases(c)
    exes = {v: f.result() for v, f in exe.items()}

    def one(k):
        kw = dict(k["kw"])
        ic = kw.pop("ic_", None)
        env = {"REC_FLUX": "1"} if k["flux"] else {}
        recs = sim.run(c, exes[k["v"]], k["m"], k["name"], variant=k["v"], vic=ic, env=env, **kw)
        n = int(round(kw["nsteps"] * kw["dt"]) / kw["dt"])
        if len(recs) < 2 or len(recs) - 1 != n:
            raise Violation("run %s recorded %d steps instead of %d" % (k["name"], len(recs) - 1, n))
        p = project(recs, k["m"], kw["dt"], k["wd"], k["name"])
        p["flux"] = int(k["flux"])
        p["ufe"] = 4
        # rounding of the sum of the quantised volumes, and of the solver where it is iterative
        p["ste"] = p["n"] + 4 + (int(k["tol"] * p["_mx"] / p["_unit"] * 50) if k["tol"] else 0)
        if p["_mx"] < 1e-9 * p["_tot"] and not k["wd"]:
            raise CheckError("run %s does not move" % k["name"])
        for x in ("_unit", "_mx", "_tot"):
            p.pop(x)
        return p
    runs = c.pmap(one, cs, 8)
    c.conform("LedgerTrace", {"LRUNS": runs}, len(runs), what="water appears, disappears or is lost between elements",
              consts="SPECIFICATION TSpec\nCONSTANTS\nCells = {}\nJoins = {}\nMaxVol = 0\nMaxFlux = 0\nFilm = 0\nWetDry = FALSE\n"
                     "INVARIANTS Balance KeepsFilm\n")
    for k in cs[:6]:
        c.sample(k["name"])
    c.assumptions += ["volumes are compared to about 1e-7 of the largest volume change of the run and 1e-13 of the total",
                      "face fluxes are observed for single-stage steps of the explicit discretizations; other schemes by totals"]

