"""C20 non-numbers stop a run: Fault.tla (every place and moment of a strike, exhaustive); non-numbers injected into real
serial and distributed runs at every enumerated place, endings judged by FaultTrace.tla."""
import concurrent.futures, os
from vlib import Violation, CheckError, DISC
import gen, sim, scen
import c06

FLAGS = ["-DWRAP_COS", "-DNDEBUG"]
LIBS = ("-lyaml-cpp", "-Wl,--wrap=cos")
ALL = ["rkdg", "ehdg", "ihdg", "gn"]
SUB = {"rkdg": 1, "ehdg": 1, "ihdg": 1, "gn": 1}


def models(c):
    t = "SPECIFICATION Spec\nCONSTANTS\nNS = %d\nSteps = %d\nStages = %d\nSkipSub = %d\nSkipStage = %d\n%s"
    inv = "INVARIANTS StopsInStep NeverSuccess NoFalseAlarm\nPROPERTY Ends\n"
    for a in [(1, 3, 2), (3, 2, 2), (4, 2, 1)] + ([(4, 3, 3), (5, 3, 2)] if c.thorough else []):
        c.model("Fault", consts=t % (a + (0, 0, inv)), part="Fault.%d-%d-%d" % a)
    for a in ((3, 2, 2, 2, 0), (3, 2, 2, 0, 2)):
        if c.tlc("Fault", consts=t % (a + (inv,)), part="Fault.negative")["ok"]:
            raise CheckError("Fault.tla accepts an incomplete examination")


def cases(c):
    """(name, variant, mesh, kw, injections); an injection is ("none",), ("poison", step, elt, var, dof), ("cos", step, frac)
    or ("natural",) for inputs that turn into non-numbers by themselves."""
    rng = c.rng
    out = []

    def add(name, v, m, inj, dist=None, threads=1, **kw):
        out.append(dict(name="%03d_%s_%s" % (len(out), v, name), v=v, m=scen.shuffled(m, rng), inj=inj, dist=dist, threads=threads,
                        kw=kw))
    for v in ALL:
        heavy = v in ("ihdg", "gn")
        m = scen.forced(rng, nx=2, ny=2, flow=False)
        ids = [i for i, _ in m.elems]
        N = 3
        sch = dict(nstages=1, order=1) if v == "ihdg" else dict(nstages=2, order=2)
        base = dict(p=1, dt=1.0, nsteps=N, ic=(0.1, 0.1, 0.0), **sch)
        add("fine", v, m, ("none",), **base)
        reps = 3 if c.thorough else 1
        el = ids if c.thorough else rng.sample(ids, 4)
        for k, e in enumerate(el):
            for var in range(3):
                if heavy and not c.thorough and (k + var) % 3:
                    continue
                add("poison", v, m, ("poison", (k + var) % N, e, var, rng.randrange(3)), **base)
        for step in range(1, N + 1):
            for fr in [0.0, 0.3, 0.6, 0.95][:: 2 if heavy and not c.thorough else 1]:
                add("cos", v, m, ("cos", step, fr), **base)
        if v != "ihdg":
            for (ns, o) in ((1, 1), (3, 3), (5, 4)):
                b2 = dict(base, nstages=ns, order=o)
                for fr in (0.05, 0.5, 0.99):
                    add("cos%d" % ns, v, m, ("cos", N, fr), **b2)
        # the same in distributed runs
        for rep in range(reps):
            for (parts, ranks, th) in ((4, 2, 2), (3, 3, 1), (2, 1, 2), (4, 2, 1))[: 2 if heavy and not c.thorough else 4]:
                d = (parts, ranks, c06.deals(rng, m, parts, "scatter"))
                add("dfine", v, m, ("none",), dist=d, threads=th, **base)
                sub = {}
                for e, s in d[2].items():
                    sub.setdefault(s, []).append(e)
                for s in sorted(sub):
                    e = rng.choice(sub[s])
                    add("dpoison", v, m, ("poison", rng.randrange(N), e, rng.randrange(3), rng.randrange(3)), dist=d, threads=th, **base)
                if th == 1:
                    for fr in (0.2, 0.9):
                        add("dcos", v, m, ("cos", rng.randrange(1, N + 1), fr), dist=d, threads=1, **base)
    # inputs that go wrong by themselves: land above water without wetting-drying
    for v in ("rkdg", "ehdg"):
        for k in range(4 if c.thorough else 2):
            m = gen.walls(gen.grid(3, 2, 900, 600, bath=lambda x, y: 3.0, pattern=2))
            n = rng.choice(list(m.nodes))
            m.nodes[n] = (m.nodes[n][0], m.nodes[n][1], -9.0)
            kw = dict(p=1, dt=1.0, nsteps=4, nstages=2, order=2, ic=(0.0, 0.0, 0.0))
            add("dryland", v, m, ("natural",), **kw)
            add("ddryland", v, m, ("natural",), dist=(4, 2, c06.deals(rng, m, 4, "scatter")), threads=2, **kw)
            # with wetting-drying the same bed is fine
            add("wdland", v, m, ("none",), sections=scen.WD % "0.1", **dict(kw, dt=0.1, nsteps=10))
        # extreme but finite states are no reason to stop
        m = gen.walls(gen.grid(2, 1, 900, 600, bath=lambda x, y: 3.0, pattern=2))
        for z, qx in ((1e60, 0.0), (0.0, 1e40), (-2.9999999, 0.0), (1e-300, 1e-300)):
            add("extreme", v, m, ("none",), p=1, dt=1.0, nsteps=1, nstages=1, order=1, ic=(z, qx, 0.0))
        m = scen.closed_meshes(rng)["jit"]
        add("rough", v, m, ("none",), p=2, dt=2.0, nsteps=10, nstages=2, order=2, vic=scen.rand_ic(m, rng), sections=scen.SL)
    return out


def check(c):
    cs = cases(c)
    core = c.core_objs()
    ser = sim.build(c, ALL, core=core, flags=FLAGS, libs=LIBS)
    par = sim.build(c, ALL, mpi=True, flags=FLAGS, libs=LIBS)
    part = sim.build_partitioner(c, core)
    models(c)
    ser = {v: f.result() for v, f in ser.items()}
    par = {v: f.result() for v, f in par.items()}
    counts = {}

    def once(k, env, name):
        if k["dist"]:
            parts, ranks, deal = k["dist"]
            place = [s % ranks for s in range(parts)]
            return sim.run_ompi(c, par[k["v"]], part, k["m"], name, deal, place, threads=k["threads"], variant=k["v"], env=env,
                                ok=None, timeout=60, **k["kw"])
        return sim.run(c, ser[k["v"]], k["m"], name, variant=k["v"], env=env, ok=None, timeout=60, **k["kw"])

    def one(k):
        inj, env, hit, at = k["inj"], {}, 0, []
        if inj[0] == "poison":
            env["REC_POISON"] = "%d,%d,%d,%d" % inj[1:]
            hit = inj[1] + 1
        elif inj[0] == "cos":
            rc, recs, r = once(k, {"REC_COS": "-1,0"}, k["name"] + "_n")
            n = {}
            for l in r.stderr.decode(errors="replace").splitlines():
                if l.startswith("COSCOUNT"):
                    _, rk, st, x = l.split()
                    if int(st) == inj[1] and int(x):
                        n[int(rk)] = int(x)
            if rc != 0:
                raise Violation("a finite run ended with status %d" % rc, k["name"] + r.stderr.decode(errors="replace")[-1500:])
            if not n:
                return None
            rk = sorted(n)[inj[1] % len(n)]
            env["REC_COS"] = "%d,%d,%d" % (inj[1], min(n[rk] - 1, int(inj[2] * n[rk])), rk)
            hit = inj[1]
        rc, recs, r = once(k, env, k["name"])
        err = r.stderr.decode(errors="replace")
        if inj[0] == "cos" and "COSFIRED" not in err:
            return None
        subs = sorted({(x["rank"], x["sub"]) for x in recs})
        last = {s: max(x["step"] for x in recs if (x["rank"], x["sub"]) == s) for s in subs}
        if not subs:
            raise CheckError("run %s recorded nothing\n%s" % (k["name"], err[-2000:]))
        nan = sum(1 for x in recs for e in x["el"] for row in e["q"] for y in row if isinstance(y, str))
        if inj[0] == "natural":
            hit, at = 1, list(range(1, len(subs) + 1)) if not k["dist"] else []
            if k["dist"]:
                # the submeshes that hold the dry corner
                bad = {n for n, p in k["m"].nodes.items() if p[2] < 0}
                dry = {i for i, t in k["m"].elems if bad & set(t)}
                at = [i + 1 for i, s in enumerate(subs) if any(e["id"] in dry for x in recs if (x["rank"], x["sub"]) == s
                                                               for e in x["el"])]
        elif inj[0] == "poison":
            at = [i + 1 for i, s in enumerate(subs) if any(e["id"] == inj[2] for x in recs if (x["rank"], x["sub"]) == s
                                                           for e in x["el"])]
        elif inj[0] == "cos":
            # the boundary lies on the left; in distributed runs the struck rank is known, not the submesh: at least one of its
            # submeshes stops within the step
            if k["dist"]:
                rk = int(env["REC_COS"].split(",")[2])
                own = [i + 1 for i, s in enumerate(subs) if s[0] == rk]
                at = [min(own, key=lambda i: last[subs[i - 1]])]
            else:
                at = [1]
        return {"name": k["name"], "inj": " ".join(map(str, inj)), "hit": hit, "at": at, "steps": k["kw"]["nsteps"], "rc": rc if rc >= 0 else 1000 - rc,
                "last": [last[s] for s in subs], "nan": nan, "late": int(bool(k["dist"]) and k["threads"] > 1), "sure": inj[0] != "cos" or k["v"] == "rkdg"}
    a = c.pmap(one, [k for k in cs if not k["dist"]], 8)
    b = c.pmap(one, [k for k in cs if k["dist"]], 4)
    runs = [x for x in a + b if x]
    c.log("%d runs, %d with a non-number" % (len(runs), sum(1 for x in runs if x["hit"])))
    if not any(x["inj"].startswith("cos") for x in runs):
        c.log("boundary forcing does not evaluate cos during a step: injections there skipped")
    c.log("dropped in boundary data: %d of %d" % (sum(1 for x in runs if not x["sure"] and x["rc"] == 0), sum(1 for x in runs if not x["sure"])))
    c.conform("FaultTrace", {"FRUNS": runs}, len(runs), what="a run with a non-number goes on, or a sound run stops",
              consts="SPECIFICATION Spec\nINVARIANTS Finite Fails Stops Carries\n")
    for x in runs[:10]:
        c.sample(x)
    c.cov["faults_injected"] = sum(1 for x in runs if x["hit"])
    c.assumptions += ["non-numbers are injected between steps into any coefficient and, through the boundary forcing, in any stage"]
