"""C11 wetting and drying: WetDry.tla explored by TLC, replayed into the real kernel, and judging whole real runs."""
import concurrent.futures, json, os
from vlib import Violation, CheckError, q, DISC
import gen, sim, scen

U = 2.0 ** -8
HO = 24


def loose(rng, baths):
    """One free-standing triangle per bed triple (in lattice units), enclosed by land."""
    m = gen.Mesh()
    n = 1
    for e, b in enumerate(baths):
        x, y = 1000.0 * (e % 50), 1000.0 * (e // 50)
        pts = [(x + rng.uniform(0, 80), y + rng.uniform(0, 80)), (x + rng.uniform(200, 600), y + rng.uniform(0, 150)),
               (x + rng.uniform(0, 300), y + rng.uniform(300, 700))]
        for p, z in zip(pts, b):
            m.nodes[n] = (p[0], p[1], z)
            n += 1
        m.elems.append((e + 1, [n - 3, n - 2, n - 1]))
        m.land.append((0, [n - 3, n - 2, n - 1, n - 3]))
    return m


def lat(v, tol=1e-6):
    """Value in lattice units and whether it lies off the lattice."""
    x = v / U
    k = int(round(x))
    return k, int(abs(x - k) * U > tol)


def kernel(c, exe, vecs, p, v, noise, stages):
    rng = c.rng
    beds = sorted({tuple(x["b"]) for x in vecs})
    eid = {b: i + 1 for i, b in enumerate(beds)}
    m = loose(rng, [[z * U for z in b] for b in beds])
    name = "ker_%s_p%d" % (v, p)
    d, y, _ = sim.write_inputs(c, m, name, problem=sim.YNAME[v], p=p, nstages=3, order=3, dt=1.0, nsteps=1, ic=(50.0, 0, 0),
                               sections=scen.WD % ("%.17g" % (HO * U)))
    vf, out = os.path.join(d, "vec"), os.path.join(d, "out")
    lines = []
    for k, x in enumerate(vecs):
        x["mx"] = [6 * rng.randint(-9, 9) for _ in range(3)]
        x["my"] = [6 * rng.randint(-9, 9) for _ in range(3)]
        x["stage"] = rng.choice(stages)
        lines.append("%d %d %d " % (x["stage"], eid[tuple(x["b"])], x["wet"]) + " ".join(
            "%.17g" % (a * U) for a in [h - b for h, b in zip(x["h"], x["b"])] + x["mx"] + x["my"]) + " %.17g" % noise)
    with open(vf, "w") as f:
        f.write("\n".join(lines) + "\n")
    c.run([exe, y, vf, out], cwd=d, what="wetting-drying kernel, %s p=%d" % (v, p))
    res = []
    with open(out) as f:
        for l in f:
            o = json.loads(l.replace("nan", '"nan"').replace('-"nan"', '"nan"'))
            x = vecs[o["k"]]
            if any(isinstance(a, str) for a in o["v"] + o["m"]):
                raise Violation("wetting-drying produces a non-number from %r" % x)
            fr = 0
            t = []
            for a in range(3):
                col = []
                for i in range(3):
                    k, f1 = lat(o["v"][3 * a + i] + (x["b"][i] * U if a == 0 else 0.0), 3e-6 if a == 0 else 1e-9)
                    fr |= f1
                    col.append(k)
                t.append(col)
            mb = sum(x["b"]) / 3.0 * U
            h0, h1 = o["m"][0] + mb, o["m"][1] + mb
            water = abs(h1 - h0) < 1e-9 if sum(x["h"]) > 0 else -1e-12 < h1 < 3e-6
            res.append({"b": x["b"], "h": x["h"], "mx": x["mx"], "my": x["my"], "wet": bool(x["wet"]),
                        "t": {"h": t[0], "mx": t[1], "my": t[2], "wet": bool(o["wet"])}, "same": o["same"], "alien": o["alien"],
                        "hi": int(o["hi"] > 1e-9), "frac": fr, "water": int(water), "p": p, "stage": x["stage"]})
    if len(res) != len(vecs):
        raise CheckError("replayed %d of %d vectors" % (len(res), len(vecs)))
    return res


def initial(rec, m, ze):
    res = []
    for e in rec:
        t = dict(m.elems)[e["id"]]
        b = [m.nodes[n][2] for n in t]
        cols = []
        for a in range(3):
            cols.append([lat(e["v"][a][i] + (b[i] if a == 0 else 0.0))[0] for i in range(3)])
        h = [int(round((ze + z) / U)) for z in b]
        res.append({"id": e["id"], "h": h, "mx": [96] * 3, "my": [-48] * 3,
                    "t": {"h": cols[0], "mx": cols[1], "my": cols[2], "wet": bool(e["wet"])}})
    return res


def runs(c):
    rng = c.rng
    out = []
    N = 60 if c.thorough else 20
    for rep in range(4 if c.thorough else 1):
        for v in ("rkdg", "ehdg"):
            for s, o, p in [(1, 1, 1), (2, 2, 2), (3, 3, 1)] + ([(5, 4, 1), (4, 3, 3)] if c.thorough else []):
                bowl = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.rough(rng, 0.35, 0.45), pattern=2, jitter=0.2, rng=rng))
                out.append(dict(name="%02d_%s_bowl_%d%d_p%d" % (len(out), v, s, o, p), v=v, m=bowl, ho=0.1, ic_=scen.rand_ic(
                    bowl, rng, 0.15, 0.1, base=0.1, hmin=0.12), kw=dict(p=p, nstages=s, order=o, dt=1.0, nsteps=N, ic=(0.2, 0, 0))))
                b = gen.walls(gen.grid(5, 2, 400, 160, bath=scen.beach(rng), pattern=rng.randint(0, 2)))
                out.append(dict(name="%02d_%s_beach_%d%d_p%d" % (len(out), v, s, o, p), v=v, m=b, ho=0.05, ic_=scen.rand_ic(
                    b, rng, 0.2, 0.2, base=0.1, hmin=0.08), kw=dict(p=p, nstages=s, order=o, dt=1.0, nsteps=N, ic=(0.15, 0.02, 0))))
    return out


def check(c):
    core = c.core_objs(sub="core_ser")
    hs = {v: c.harness("wetdry", flags=DISC[v] + ["-DPROBLEM=" + sim.PROBLEM[v]], core=core, out="wetdry_" + v)
          for v in (["rkdg", "ehdg"] if c.thorough else ["rkdg"])}
    drv = sim.build(c, ["rkdg", "ehdg"] + (["gn"]), core=core)
    mp = sim.build(c, ["rkdg", "ehdg"], mpi=True)
    part = c.pool.submit(lambda: None)
    cfg = ("SPECIFICATION Spec\nCONSTANTS\nHo = %d\nDepths <- Depths%s\nBeds <- Beds%s\nMoves <- MovesMC\nDefect = \"%s\"\n"
           "INVARIANTS Lawful InitLawful Settled\nCHECK_DEADLOCK FALSE\n")
    k = "Big" if c.thorough else "MC"
    c.model("WetDryMC", part="WetDry", consts=cfg % (HO, k, k, "none"), timeout=900)
    for d in ("mean", "flag", "push", "drop"):
        if c.tlc("WetDryMC", part="WetDry negative", consts=cfg % (HO, "MC", "MC", d))["ok"]:
            raise CheckError("the property does not reject the defective step '%s'" % d)
    vecs = c.gen("WetDryGen", part="WetDryGen", consts="CONSTANTS\nHo = %d\nDepths <- Depths%s\nBeds <- Beds%s\n" % (
        HO, *(("T", "T") if c.thorough else ("Q", "Q"))))
    kv = []
    for v, h in hs.items():
        exe = h.result()
        for p in (1, 2, 3):
            n = len(vecs) if p == 1 and v == "rkdg" else (20000 if c.thorough else 3000)
            sel = [dict(x) for x in (vecs if n >= len(vecs) else c.rng.sample(vecs, n))]
            kv += kernel(c, exe, sel, p, v, 0.0 if p == 1 else 0.01, [0, 1, 2])
    # initial classification of the real preprocessor
    exes = {v: f.result() for v, f in drv.items()}
    hs3 = [(a, b, d) for a in (-24, 0, 12, 24, 36, 60, 108) for b in (-24, 0, 12, 24, 36, 60, 108) for d in (0, 24, 36, 60)]
    iv = []
    sec = scen.WD % ("%.17g" % (HO * U))
    for v in ("rkdg", "ehdg", "gn"):
        for p in ((1, 2, 3) if c.thorough else ((1, 2) if v == "rkdg" else (1,))):
            ze = 0.5 * c.rng.randint(-6, 6)
            m = loose(c.rng, [[h * U - ze for h in t] for t in hs3])
            rec = sim.run(c, exes[v], m, "init_%s%d" % (v, p), variant=v, p=p, nstages=1, order=1, dt=0.001, nsteps=1, end=0,
                          ic=(ze, 96 * U, -48 * U), sections=sec)
            iv += initial(rec[0]["el"], m, ze)
    partexe = sim.build_partitioner(c, core)
    mpe = {v: f.result() for v, f in mp.items()}
    for v, exe in mpe.items():
        ze = 0.5 * c.rng.randint(-6, 6)
        m = loose(c.rng, [[h * U - ze for h in t] for t in hs3[::3]])
        deal = {i: c.rng.randrange(3) for i, _ in m.elems}
        rec = sim.run_ompi(c, exe, partexe, m, "initd_%s" % v, deal, [0, 1, 1], variant=v, p=1, nstages=1, order=1, dt=1.0,
                           nsteps=1, ic=(ze, 96 * U, -48 * U), sections=sec)
        got = [e for r in rec if r["step"] == 0 for e in r["el"]]
        if len(got) != len(m.elems):
            raise Violation("distributed start classifies %d of %d elements" % (len(got), len(m.elems)))
        iv += initial(got, m, ze)
    # whole runs
    unit = 1e-7

    def one(k):
        sec = scen.WD % ("%.17g" % k["ho"])
        if "deal" in k:
            parts = sim.run_ompi(c, mpe[k["v"]], partexe, k["m"], k["name"], k["deal"], k["place"], threads=k["threads"],
                                 variant=k["v"], vic=k["ic_"], env={"REC_STAGES": "1"}, sections=sec, **k["kw"])
            recs = [{"step": s, "el": [e for r in parts if r["step"] == s for e in r["el"]]}
                    for s in sorted({r["step"] for r in parts})]
        else:
            recs = sim.run(c, exes[k["v"]], k["m"], k["name"], variant=k["v"], vic=k["ic_"], env={"REC_STAGES": "1"},
                           sections=sec, **k["kw"])
        if len(recs) - 1 != k["kw"]["nsteps"]:
            raise Violation("run %s made %d steps" % (k["name"], len(recs) - 1))
        el = dict(k["m"].elems)
        steps = []
        for j, r in enumerate(recs):
            row = []
            for e in r["el"]:
                b = [k["m"].nodes[n][2] for n in el[e["id"]]]
                # intermediate stage results of elements: nodal depth never negative either
                hs = [z + b[i % 3] for i, z in enumerate(e["v"][0])]
                st = [z + b[i % 3] for i, z in enumerate(e["sz"])] if j else []
                if any(isinstance(x, str) for x in e["v"][0] + e["v"][1] + e["v"][2]):
                    raise Violation("run %s: not a number" % k["name"])
                mom = max(abs(x) for x in e["v"][1] + e["v"][2])
                hi = max([0.0] + [abs(x) for x in e["q"][1] + e["q"][2]])
                row.append([e["wet"], q(min(hs), unit), int(max(mom, hi) > 1e-13)])
                if st:
                    row.append([2, q(min(st), unit), 0])
            steps.append(row)
        flags = {(x[0]) for s in steps for x in s}
        return {"name": k["name"], "ho": q(k["ho"], unit), "steps": steps, "both": int({0, 1} <= flags)}
    allruns = runs(c)
    dist = []
    for k in allruns[0 if c.thorough else 2::6]:
        ns = c.rng.randint(2, 4)
        dist.append(dict(k, name=k["name"] + "_d", deal={i: c.rng.randrange(ns) if c.rng.random() < 0.3 else i % ns for i, _ in
                    k["m"].elems}, place=[j % 2 for j in range(ns)], threads=c.rng.choice([1, 2])))
    wr = c.pmap(one, allruns, 8)
    wr += c.pmap(one, dist, 4)
    if not all(x["both"] for x in wr if "beach" in x["name"]):
        raise CheckError("no drying in %s" % [x["name"] for x in wr if not x["both"]])
    c.conform("WetDryTrace", {"KV": kv, "IV": iv, "WR": wr}, len(kv) + len(iv) + len(wr),
              what="wetting-drying leaves a state the rules forbid", timeout=900,
              consts="SPECIFICATION Spec\nCONSTANTS\nHo = %d\nTol = 1\nINVARIANTS KernelLawful KernelIsStep Classifies RunLawful\n"
                     "CHECK_DEADLOCK FALSE\n" % HO)
    for x in kv[4000:4004]:
        c.sample(x)
    c.sample(iv[5])
    c.sample(wr[0]["name"])
    c.assumptions += ["element states are replayed on a lattice of depths around the limit with exactly representable values",
                      "where level and limit tie exactly either flag is accepted"]
