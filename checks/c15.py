"""C15 meteorological forcing: Meteo.tla (forcing between snapshots), MeteoMC (the reader beside plain and split steppers), runs from
MeteoGen replayed on the real programs, the forcing held by the elements at every source evaluation judged by MeteoTrace."""
import json, os
from vlib import CheckError, Violation, VERIF
import gen, scen, sim
from c04 import renum

MC = "SPECIFICATION Spec\nCONSTANTS\nSPLIT = %s\nF = %d\nN = %d\nBUG = %d\nINVARIANTS Right Small Once Only AsFar Through\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
TR = "SPECIFICATION Spec\nCONSTANTS\nU = 10000\nV = 100\nTol = 3\nINVARIANTS Forced Mine Nodes Ended Stages Halves Within\nCHECK_DEADLOCK FALSE\n"


def snapshots(rng, m, ks):
    """values of every node, and of nodes that are not there, at the given steps"""
    ghosts = [max(m.nodes) + 3, max(m.nodes) + 10]
    return {k: {n: [rng.randint(-100, 100) for _ in range(3)] for n in list(m.nodes) + ghosts} for k in ks}


def write(d, rng, snap, have, lone):
    for k in have:
        L = []
        for n, v in snap[k].items():
            if lone and k == lone[0] and n == lone[1]:
                continue
            L.append("%d %s%s" % (n, " ".join(rng.choice(["%d", "%d.0", "%.3f", "%.2e"]) % x if abs(x) < 100 else "%d" % x for x in v),
                                  rng.choice(["", "  extra 5"])))
        rng.shuffle(L)
        with open("%s/met.eo_%d.txt" % (d, k), "w") as f:
            f.write("\n".join(L) + "\n")


def check(c):
    rng = c.rng
    fl = ["-DREC_METEO", "-iquote", os.path.join(VERIF, "harness", "meteo")]
    core_s, core_m = c.core_objs(sub="core_ser"), c.core_objs(mpi=True, sub="core_mpi")
    drv = sim.build(c, ["rkdg", "ehdg", "ihdg", "gn"], core=core_s, flags=fl)
    om = sim.build(c, ["rkdg", "ehdg", "ihdg", "gn"], core=core_m, flags=fl, mpi=True)
    part = sim.build_partitioner(c, core_s)
    for split in ("FALSE", "TRUE"):
        for f in (1, 2, 3, 4) if c.thorough else (2, 3):
            c.model("MeteoMC", consts=MC % (split, f, 7 if c.thorough else 5, 0), part="MeteoMC.%s.%d" % (split, f))
    for bug in (1, 2, 3, 4, 6, 7):
        if c.tlc("MeteoMC", consts=MC % ("TRUE" if bug == 4 else "FALSE", 2, 5, bug))["ok"]:
            raise CheckError("the model accepts a broken reader (%d)" % bug)
    if not c.tlc("MeteoMC", consts=MC % ("TRUE", 2, 5, 5))["ok"]:
        raise CheckError("the model rejects a harmless reader")
    cases = c.gen("MeteoGen", consts="SPECIFICATION Spec\nCONSTANTS\nFMax = %d\nNMax = %d\nCHECK_DEADLOCK FALSE\n" % ((5, 9) if c.thorough else (4, 6)))
    rng.shuffle(cases)
    RK = [(1, 1), (2, 2), (3, 3), (4, 3), (5, 4), (4, 3)]
    ser = ["rkdg", "ehdg", "ihdg", "gn"]
    full = [x for x in cases if set(range(0, x["n"] + x["f"], x["f"])) <= set(x["have"]) and x["n"] > x["f"]]
    jobs = []
    for i, x in enumerate(cases[:400 if c.thorough else 90]):
        jobs.append((x, ser[i % 4], False, None))
    for i, x in enumerate(rng.sample(full, min(len(full), 60 if c.thorough else 16))):
        jobs.append((x, ser[i % 4], False, None))
        jobs.append((x, ser[i % 4], True, None))
    for i in range(12 if c.thorough else 4):
        jobs.append((cases[i], ser[i], True, None) if i < 4 else (rng.choice(cases), rng.choice(ser), True, None))
    for i, x in enumerate(rng.sample(full, 8)):
        jobs.append((x, ser[i % 4], False, "first" if i % 2 else "second"))

    def one(job):
        k, (x, v, dist, lone) = job
        m = renum(gen.walls(gen.grid(rng.choice([2, 3]), rng.choice([1, 2]), 3000.0, 2000.0, bath=scen.rough(rng), pattern=rng.randrange(3),
                                     jitter=0.1, rng=rng)), rng, big=rng.random() < 0.2)
        dt = rng.choice([1.0, 2.0, 3.0])
        s, o = rng.choice(RK)
        if v == "ihdg":
            s = o = rng.choice([1, 2])
            s = 1
        name = "%03d_%s_%s" % (k, v, "d" if dist else "s")
        d = os.path.dirname(c.path(name, "x"))
        ks = sorted(set(x["have"]) | set(range(0, x["n"] + 2 * x["f"], x["f"])))
        snap = snapshots(rng, m, ks)
        ln = (0 if lone == "first" else x["f"], rng.choice(list(m.nodes))) if lone else None
        write(d, rng, snap, x["have"], ln)
        freq = dt * (x["f"] - rng.choice([0, 0, 0.2, 0.4, 0.7, 0.95]))
        kw = dict(p=rng.choice([1, 1, 2]), dt=dt, nsteps=x["n"], nstages=s, order=o, ic=(0.5, 0.0, 0.0),
                  sections="function_source: Enable\nmeteo_forcing:\n  type: Test\n  raw_input_file: none\n  input_file: %s/met.eo.txt\n  frequency: %.17g\n" % (d, freq))
        parts = {}
        if dist:
            ids = sorted(i for i, _ in m.elems)
            np_ = rng.choice([2, 3])
            deal = {i: rng.randrange(np_) for i in ids}
            for j, i in enumerate(rng.sample(ids, np_)):
                deal[i] = j
            rc, recs, r = sim.run_ompi(c, om[v].result(), part, m, name, deal, list(range(np_)), variant=v, ok=None, retry=True, **kw)
            for j in range(np_):
                parts[j] = [(i, t) for i, t in m.elems if deal[i] == j]
        else:
            rc, recs, r = sim.run(c, drv[v].result(), m, name, variant=v, ok=None, **kw)
            parts[0] = list(m.elems)
        err = (r.stdout + r.stderr).decode(errors="replace")
        told = "Fatal Error" in err and "meteo" in err
        out = []
        for j, el in parts.items():
            f = os.path.join(d, "rec.%d.met" % j if dist else "rec.json.met")
            rows = []
            if os.path.exists(f):
                for l in open(f):
                    if not l.endswith("\n"):
                        continue
                    y = json.loads(l.replace("nan", "1e9").replace("inf", "1e9"))
                    rows.append({"t": int(round(y["t"] / dt * 10000)),
                                 "el": [{"id": e["id"], "v": [[str(w[0])] + [max(-10**9, min(10**9, int(round(z * 100)))) for z in w[1:]] for w in e["v"]]} for e in y["el"]]})
            out.append({"name": name, "f": x["f"], "n": x["n"], "have": x["have"], "split": v == "gn",
                        "rc": 0 if rc == 0 else 1 if told else 2, "rows": rows, "lone": "" if not lone else str(ln[1]),
                        "snap": {str(a): {str(n): w for n, w in snap[a].items()} for a in x["have"]},
                        "part": [{"id": i, "n": [str(n) for n in t]} for i, t in el]})
        return out
    runs = [y for z in c.pmap(one, list(enumerate(jobs)), 6) for y in z]
    c.sample({"run": runs[0]["name"], "f": runs[0]["f"], "have": runs[0]["have"], "rows": runs[0]["rows"][:2]})
    c.conform("MeteoTrace", {"TABM": runs}, len(runs), consts=TR, what="the forcing of a stage is not that of its snapshots")
