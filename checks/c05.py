"""C05 exchange protocol: Exchange.tla explored exhaustively over an adversarial message layer; call logs of real
distributed runs (MPI profiling interface, receive buffers poisoned until completion) replayed by ExchangeTrace.tla."""
import concurrent.futures, json, os
from vlib import Violation, CheckError, q
import gen, sim, scen
import c06

CFG = "SPECIFICATION Spec\nCONSTANTS\nNS = 4\nRank <- %s\nThread <- %s\nEdges <- %s\nLimit = %s\nK = %d\nBadTag = %s\nEarlyWait = %s\n"


def models(c):
    t = c.thorough
    todo = [("R22", "T22a", "All4", "TRUE", 2), ("R22", "T22b", "Ring4", "FALSE", 2), ("R22", "T22c", "Ring4", "FALSE", 1),
            ("R3", "T3", "Row4", "TRUE", 2), ("R22", "T22a", "Fork4", "TRUE", 2)]
    if t:
        todo += [("R22", "T22c", "Ring4", "TRUE", 1), ("R22", "T22b", "All4", "FALSE", 2), ("R3", "T3", "All4", "FALSE", 2),
                 ("R22", "T22c", "All4", "FALSE", 1)]
    for a in todo:
        c.model("ExchangeMC", consts=(CFG % (a + ("FALSE", "FALSE"))) + "INVARIANTS Right DistinctTags\nCHECK_DEADLOCK TRUE\n",
                part="Exchange." + "-".join(map(str, a)), timeout=1500)
    # the specification can tell: symmetric tags and unawaited sends are rejected
    for bt, ew in (("TRUE", "FALSE"), ("FALSE", "TRUE")):
        r = c.tlc("ExchangeMC", consts=(CFG % ("R22", "T22a", "All4", "FALSE", 2, bt, ew)) + "INVARIANT Right\nCHECK_DEADLOCK TRUE\n",
                  part="Exchange.negative")
        if r["ok"]:
            raise CheckError("the exchange specification accepts a known defect")


def cases(c):
    rng = c.rng
    out = []

    def add(name, m, v, parts, ranks, threads, rpl=1, how="scatter", place=None, **kw):
        m = scen.shuffled(m, rng)
        pl = place or [p % ranks for p in range(parts)]
        out.append(dict(name="%03d_%s_%s" % (len(out), v, name), m=m, v=v, deal=c06.deals(rng, m, parts, how), place=pl,
                        rpl=rpl, threads=threads, kw=kw))
    for rep in range(6 if c.thorough else 1):
        for v in ("rkdg", "ehdg"):
            ms = scen.closed_meshes(rng)
            add("t1", ms["jit"], v, 4, 2, 1, p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(ms["jit"], rng))
            add("t2", ms["jit"], v, 6, 2, 2, p=2, nstages=3, order=3, dt=1.0, nsteps=2, vic=scen.rand_ic(ms["jit"], rng))
            add("t4", ms["island"], v, 8, 2, 4, p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(ms["island"], rng))
            add("one", ms["jit"], v, 5, 1, 2, p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(ms["jit"], rng))
            add("r4", ms["island"], v, 7, 4, 2, p=1, nstages=1, order=1, dt=1.0, nsteps=4, vic=scen.rand_ic(ms["island"], rng))
            add("sl", ms["jit"], v, 6, 3, 2, p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(ms["jit"], rng), sections=scen.SL)
            add("idle", ms["strip"], v, 3, 2, 4, p=1, nstages=1, order=1, dt=1.0, nsteps=3, place=[0, 2, 0], vic=scen.rand_ic(ms["strip"], rng))
            m = gen.walls(gen.grid(4, 3, 400, 300, bath=scen.beach(rng), pattern=2, jitter=0.2, rng=rng))
            add("wdsl", m, v, 5, 2, 3, p=1, nstages=2, order=2, dt=0.5, nsteps=4, ic=(0.2, 0, 0),
                vic=scen.rand_ic(m, rng, 0.1, 0.1, base=0.1, hmin=0.12), sections=scen.WD % "0.1" + "\n" + scen.SL)
        m = gen.levee_grid(4, 2, 2, 800, 400, gap=5.0, H=0.2, Csub=0.8, Csup=0.9, bath=scen.rough(rng, 4, 1))
        add("levee", m, "rkdg", 5, 2, 2, p=1, nstages=2, order=2, dt=1.0, nsteps=3, vic=scen.rand_ic(m, rng, 0.6, 0.5))
        ms = scen.closed_meshes(rng)
        add("a", ms["jit"], "ihdg", 5, 2, 2, p=1, nstages=1, order=1, dt=5.0, nsteps=2, ic=(0.1, 0.2, 0.1))
        add("a", ms["jit"], "gn", 5, 2, 2, p=1, nstages=2, order=2, dt=1.0, nsteps=2, vic=scen.rand_ic(ms["jit"], rng, 0.2, 0.3, cont=True))
    return out


def project(c, k, d, nr):
    """Message logs of the ranks of one run -> XRUNS record."""
    chans, threads, own = {}, {}, {}
    for rk in range(nr):
        f = os.path.join(d, "rec.%d.mpi" % rk)
        if not os.path.exists(f):
            raise Violation("rank %d of run %s left no message log" % (rk, k["name"]))
        for line in open(f):
            e = json.loads(line)
            if e["op"] == "own":
                own.setdefault(rk, {}).setdefault(e["th"], []).append((e["b"], e["e"], e["n"]))
                continue
            key = (rk, e["peer"], e["tag"]) if e["op"][0] == "s" else (e["peer"], rk, e["tag"])
            ch = chans.setdefault(key, len(chans) + 1)
            threads.setdefault(rk, []).append({"op": e["op"], "ch": ch, "kind": e["kind"], "n": e["n"], "h": e["h"]})
    # neighbouring submeshes per ordered pair of ranks, from the records of the run itself
    rank = k["rank_of"]
    sub_of = k["sub_of"]
    m = k["m"]
    pairs = set()
    for e, own_ in m.edges().items():
        if len(own_) == 2:
            a, b = sub_of[own_[0][0]], sub_of[own_[1][0]]
            if a != b:
                pairs |= {(a, b), (b, a)}
    for _, s in m.levees:
        by = m.edges()
        for x in range(len(s) - 1):
            A = by.get(tuple(sorted((s[x][0], s[x + 1][0]))))
            B = by.get(tuple(sorted((s[x][1], s[x + 1][1]))))
            if A and B:
                a, b = sub_of[A[0][0]], sub_of[B[0][0]]
                if a != b:
                    pairs |= {(a, b), (b, a)}
    pr = []
    for a in range(nr):
        for b in range(nr):
            pr.append({"from": a, "to": b, "have": len([1 for x in chans if x[0] == a and x[1] == b]),
                       "want": len([1 for x, y in pairs if x[0] == a and y[0] == b])})
    ow = []
    for rk, t in own.items():
        steps = max(len(v) for v in t.values())
        for s in range(steps):
            ow.append({"rank": rk, "step": s, "n": max(v[0][2] for v in t.values()),
                       "rng": [[v[s][0], v[s][1]] if s < len(v) else [0, 0] for v in t.values()]})
    return {"name": k["name"], "nch": len(chans), "th": [{"rank": rk, "ev": v} for rk, v in sorted(threads.items())],
            "pairs": pr, "own": ow}


def check(c):
    cs = cases(c)
    vs = sorted({k["v"] for k in cs})
    core = c.core_objs()
    ser = sim.build(c, vs, core=core)
    par = sim.build(c, vs, mpi=True)
    part = sim.build_partitioner(c, core)
    models(c)
    ser = {v: f.result() for v, f in ser.items()}
    par = {v: f.result() for v, f in par.items()}
    reps = 3 if c.thorough else 1

    def one(k):
        kw = dict(k["kw"])
        a = sim.run(c, ser[k["v"]], k["m"], k["name"] + "_s", variant=k["v"], **kw)
        res = []
        for rep in range(reps):
            nm = "%s_d%d" % (k["name"], rep)
            b = sim.run_ompi(c, par[k["v"]], part, k["m"], nm, k["deal"], k["place"], rpl=k["rpl"],
                             threads=k["threads"], variant=k["v"], env={"REC_MPI": str(c.seed * 100 + rep + 1)}, timeout=60, **kw)
            nr = (max(k["place"]) + 1) * k["rpl"]
            kk = dict(k, rank_of=None, sub_of={e["id"]: (s["rank"], s["sub"]) for s in b if s["step"] == 0 for e in s["el"]})
            x = project(c, kk, os.path.dirname(c.path(nm, "x")), nr)
            # poisoned receive buffers: a premature read shows as a difference to the serial run
            bad = 0
            S = {(s["step"], e["id"]): e["q"] for s in a for e in s["el"]}
            sc = max([1e-3] + [abs(y) for qq in S.values() for v_ in qq for y in v_ if not isinstance(y, str)])
            tol = 1e-7 if k["v"] in ("gn", "ihdg") else 1e-9
            for s in b:
                for e in s["el"]:
                    o = S.get((s["step"], e["id"]))
                    if o is None or any(isinstance(y, str) or not abs(y - z) <= tol * sc for v1, v2 in zip(e["q"], o) for y, z in zip(v1, v2)):
                        bad += 1
            x["wrong"] = bad
            res.append(x)
        return res
    runs = [x for l in c.pmap(one, cs, 4) for x in l]
    c.log("events: %s" % {r["name"]: sum(len(t["ev"]) for t in r["th"]) for r in runs})
    c.conform("ExchangeTrace", {"XRUNS": runs}, len(runs), what="the message log of a distributed run breaks the protocol",
              consts="SPECIFICATION TSpec\nINVARIANTS Right Complete Channels Owned Unspoilt\nCHECK_DEADLOCK TRUE\n")
    for r in runs[:8]:
        c.sample({"run": r["name"], "channels": r["nch"], "ranks": len(r["th"])})
    c.assumptions += ["schedules of real runs are those Open MPI's shared-memory transport produced with random delays; all schedules are "
                      "covered in the model, for up to four submeshes",
                      "PETSc's own messages (implicit and dispersive solves) are not part of the model"]
