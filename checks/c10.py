"""C10 output: Output.tla (schedule machine, exhaustive); output directories of real runs, their files parsed and compared
with the recorded states, judged by OutputTrace.tla."""
import concurrent.futures, os, re
import xml.etree.ElementTree as ET
from vlib import Violation, CheckError, q, BIG
import gen, sim, scen
import c06

FM = ("vtk", "vtu", "modal")


def parse_vtk(f):
    t = open(f).read().split("\n")
    i, out = 0, {"cell": {}, "point": {}}
    sec = None
    while i < len(t):
        w = t[i].split()
        if not w:
            i += 1
        elif w[0] == "POINTS":
            n = int(w[1])
            out["xyz"] = [[float(x) for x in t[i + 1 + k].split()] for k in range(n)]
            i += 1 + n
        elif w[0] == "CELLS":
            n = int(w[1])
            out["cells"] = [[int(x) for x in t[i + 1 + k].split()][1:] for k in range(n)]
            if any(len(x.split()) != 4 for x in t[i + 1:i + 1 + n]) or int(w[2]) != 4 * n:
                raise Violation("cell list of %s is inconsistent" % os.path.basename(f))
            i += 1 + n
        elif w[0] == "CELL_TYPES":
            n = int(w[1])
            out["types"] = [int(x) for x in t[i + 1:i + 1 + n]]
            i += 1 + n
        elif w[0] in ("CELL_DATA", "POINT_DATA"):
            sec, cnt = ("cell" if w[0] == "CELL_DATA" else "point"), int(w[1])
            i += 1
        elif w[0] == "SCALARS":
            name = w[1]
            out[sec][re.sub("_(cell|point)$", "", name)] = [float(x) for x in t[i + 2:i + 2 + cnt]]
            i += 2 + cnt
        else:
            i += 1
    return out


def parse_vtu(f):
    r = ET.parse(f).getroot()
    p = r.find(".//Piece")
    num = lambda e: [float(x) for x in e.text.split()]
    out = {"cell": {}, "point": {}}
    for s, k in (("PointData", "point"), ("CellData", "cell")):
        for a in p.find(s):
            out[k][re.sub("_(cell|point)$", "", a.get("Name"))] = num(a)
    x = num(p.find("Points")[0])
    out["xyz"] = [x[i:i + 3] for i in range(0, len(x), 3)]
    c = {a.get("Name"): [int(v) for v in num(a)] for a in p.find("Cells")}
    o = [0] + c["offsets"]
    out["cells"] = [c["connectivity"][a:b] for a, b in zip(o, o[1:])]
    out["types"] = c["types"]
    if int(p.get("NumberOfPoints")) != len(out["xyz"]) or int(p.get("NumberOfCells")) != len(out["cells"]):
        raise Violation("counts of %s are inconsistent" % os.path.basename(f))
    return out


def parse_modal(f):
    """[(time, [(id, value)...])...]"""
    res = []
    for l in open(f):
        w = l.split()
        if len(w) == 1:
            res.append((float(w[0]), []))
        else:
            res[-1][1].append((int(w[0]), float(w[1])))
    return res


def err6(a, b, sc=1.0):
    """Difference in units of the sixth significant digit."""
    if isinstance(b, str) or a != a:
        return BIG
    return q(abs(a - b), 1e-6 * max(abs(b), 1e-6 * sc, 1e-12))


def judge_grid(o, rec, geo, exactv):
    """(ids, err, flag, shape) of one vtk/vtu file against the record of its step."""
    el = sim.by_id(rec)
    ge = sim.by_id(geo)
    err = flag = shape = 0
    ids = [int(x) for x in o["cell"]["ID"]]
    # coordinates are written with six significant digits
    if len(o["cells"]) != len(ids) or any(t != 5 for t in o["types"]) or any(len(v) != len(ids) for v in o["cell"].values()) or any(
            len(v) != len(o["xyz"]) for v in o["point"].values()):
        return ids, BIG, 1, 1
    seen = {}
    for c, i in zip(range(len(ids)), ids):
        seen.setdefault(i, []).append(c)
    for i, cs in seen.items():
        if i not in el:
            return ids, BIG, 1, 1
        e, g = el[i], ge[i]
        P = g["xyz"]
        big = max(max(abs(x) for x in p[:2]) for p in P)
        det = (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[2][0] - P[0][0]) * (P[1][1] - P[0][1])
        area = 0

        def bary(x, y):
            l1 = ((x - P[0][0]) * (P[2][1] - P[0][1]) - (P[2][0] - P[0][0]) * (y - P[0][1])) / det
            l2 = ((P[1][0] - P[0][0]) * (y - P[0][1]) - (x - P[0][0]) * (P[1][1] - P[0][1])) / det
            return (1 - l1 - l2, l1, l2)
        hmin = abs(det) / max(max(abs(P[a][k] - P[b][k]) for k in (0, 1)) for a in range(3) for b in range(3))
        tol = 20 * 1e-6 * big / hmin
        for cidx in cs:
            pts = [o["xyz"][v] for v in o["cells"][cidx]]
            area += abs((pts[1][0] - pts[0][0]) * (pts[2][1] - pts[0][1]) - (pts[2][0] - pts[0][0]) * (pts[1][1] - pts[0][1]))
            cen = [0.0, 0.0, 0.0]
            for v in o["cells"][cidx]:
                l = bary(o["xyz"][v][0], o["xyz"][v][1])
                if any(x < -tol or x > 1 + tol for x in l):
                    shape += 1
                near = [round(x) if abs(x - round(x)) < tol else x for x in l]
                cen = [a + b / 3 for a, b in zip(cen, near)]
                if exactv:
                    for k, nm in enumerate(("ze", "qx", "qy")):
                        val = sum(a * b for a, b in zip(near, e["v"][k]))
                        err = max(err, err6(o["point"][nm][v], val, max(map(abs, e["v"][k]))))
                val = sum(a * p[2] for a, p in zip(near, P))
                err = max(err, err6(o["point"]["bath"][v], val))
                if exactv and "velocity" in o["point"]:
                    h = val + sum(a * b for a, b in zip(near, e["v"][0]))
                    if h > 1e-3:
                        qq = sum(sum(a * b for a, b in zip(near, e["v"][k])) ** 2 for k in (1, 2)) ** .5
                        err = max(err, err6(o["point"]["velocity"][v], qq / h, max(map(abs, e["v"][1] + e["v"][2])) / h))
            if exactv:
                for k, nm in enumerate(("ze", "qx", "qy")):
                    val = sum(a * b for a, b in zip(cen, e["v"][k]))
                    err = max(err, err6(o["cell"][nm][cidx], val, max(map(abs, e["v"][k]))))
            err = max(err, err6(o["cell"]["bath"][cidx], sum(a * p[2] for a, p in zip(cen, P))))
            flag += int(o["cell"]["wet_dry"][cidx] != e["wet"])
        if abs(area - abs(det)) > tol * abs(det):
            shape += 1
    return ids, err, flag, shape


def judge_dir(d, name, k, recs, log):
    """One output directory (one submesh) -> ORUNS record."""
    kw = k["kw"]
    by = {r["step"]: r for r in recs}
    geo = by[0]
    want = sorted(e["id"] for e in geo["el"])
    have = [[], [], []]
    err = flag = shape = extra = nlog = 0
    ids = []
    freq = [int(round(8 * (k["freq"][f] or 0))) for f in FM]
    files = sorted(os.listdir(d)) if os.path.isdir(d) else []
    mn = None
    for f in files:
        p = os.path.join(d, f)
        if os.path.isdir(p):
            continue
        m = re.match(r"(.*)_data_(\d+)\.(vtk|vtu)$", f)
        mm = re.match(r"(.*)_modal_(ze|qx|qy|bath)\.txt$", f)
        if m and not m.group(1).endswith("_raw"):
            fi = FM.index(m.group(3))
            mn = m.group(1)
            step = int(m.group(2))
            have[fi].append(step)
            extra += not freq[fi]
            if step not in by:
                continue
            o = parse_vtk(p) if fi == 0 else parse_vtu(p)
            i, e, w, s = judge_grid(o, by[step], geo, kw["p"] == 1 or (step == 0 and k["lin"]))
            ids.append(i)
            err, flag, shape = max(err, e), flag + w, shape + s
        elif mm:
            mn = mm.group(1)
            if not freq[2]:
                extra += 1
                continue
            b = parse_modal(p)
            steps = []
            for t, rows in b:
                st = t / kw["dt"]
                steps.append(int(round(st)) if abs(st - round(st)) < 1e-5 else -1)
                r = by.get(steps[-1])
                if r is None:
                    continue
                el = sim.by_id(r)
                got = {}
                for i, v in rows:
                    got.setdefault(i, []).append(v)
                nd = (kw["p"] + 1) * (kw["p"] + 2) // 2
                if mm.group(2) == "bath":
                    ids.append(sorted(got) if all(len(v) == len(next(iter(got.values()))) for v in got.values()) else [])
                    for i, v in got.items():
                        e = sim.by_id(geo)[i]
                        # mean of the bed
                        err = max(err, err6(v[0] * k["unit"], sum(x[2] for x in e["xyz"]) / 3) if k["unit"] else 0)
                else:
                    ids.append(sorted(got) if len(rows) == nd * len(got) else [])
                    row = ("ze", "qx", "qy").index(mm.group(2))
                    for i, v in got.items():
                        if i in el:
                            sc = max(abs(x) for x in el[i]["q"][row])
                            err = max([err] + [err6(a, x, sc) for a, x in zip(v, el[i]["q"][row])])
            if mm.group(2) == "ze":
                have[2] = steps
            elif have[2] and steps != have[2] and mm.group(2) != "bath":
                extra += 1
        elif log and re.match(r"%s.*_\d+$" % re.escape(log), f):
            nlog += 1
        elif re.match(r".*_(geometry\.vtk|raw_data\.vtk)$", f):
            extra += not freq[0]
        elif re.match(r".*_(geom_head\.vtu|geom_foot\.vtu|raw_data\.vtu)$", f):
            extra += not freq[1]
        else:
            extra += 1
    if freq[2]:
        extra += sum(1 for v in ("ze", "qx", "qy", "bath") if not any(f.endswith("_modal_%s.txt" % v) for f in files))
    if mn is not None and not k["dist"] and mn != "grid":
        extra += 1
    return {"name": name, "dt": int(round(8 * kw["dt"])), "freq": freq, "steps": int(kw["nsteps"]), "have": have, "extra": extra,
            "log": nlog, "wantlog": 1 if log else 0, "ids": ids, "want": want, "err": min(err, BIG), "flag": flag, "shape": shape}


def cases(c):
    rng = c.rng
    out = []

    def add(name, m, v, freq, dist=None, log=None, lin=False, **kw):
        out.append(dict(name="%03d_%s_%s" % (len(out), v, name), m=scen.shuffled(m, rng), v=v, freq=dict(zip(FM, freq)), dist=dist,
                        log=log, lin=lin, kw=kw, unit=0))
    ms = scen.closed_meshes(rng)
    m = ms["strip"]
    T = [(0.25, 24), (0.5, 16), (1.0, 12), (2.0, 10)]
    # what a user may ask for: more often than every step, exact multiples, in-between lengths, longer than the run, nothing
    for rep in range(12 if c.thorough else 3):
        for v in ("rkdg", "ehdg", "ihdg", "gn"):
            heavy = v in ("ihdg", "gn")
            for k in range(2 if heavy else 4):
                dt, n = rng.choice(T)
                if heavy:
                    n = 8 if dt < 0.5 else 6
                pick = lambda: rng.choice([0, 0.25, dt / 2, dt, 2 * dt, 2 * dt + 0.25, 3 * dt, 3 * dt - 0.25, 5 * dt - 0.25, 7 * dt, n * dt, n * dt + 1,
                                           1000.0])
                fr = [pick(), pick(), pick()]
                sch = dict(nstages=1, order=1 + k % 2) if v == "ihdg" else dict(zip(("nstages", "order"), rng.choice([(1, 1), (2, 2), (3, 3), (5, 4)])))
                p = 1 if k % 2 == 0 else rng.choice([2, 3] if not heavy else [2])
                ic = scen.rand_ic(m, rng, cont=(v == "gn")) if v != "ihdg" else None
                add("s%d" % k, m, v, fr, log=rng.choice([None, "log", "run"]), lin=ic is not None, p=p, dt=dt,
                    nsteps=n, ic=(0.1, 0.2, -0.1), vic=ic, **sch)
    # a mix of wet and dry elements
    for v in ("rkdg", "ehdg"):
        b = gen.walls(gen.grid(4, 2, 400, 200, bath=scen.rough(rng, 0.2, 0.5), pattern=2, jitter=0.2, rng=rng))
        add("wd", b, v, [0.5, 1.0, 2.0], p=1, dt=0.5, nsteps=8, nstages=2, order=2, ic=(0.2, 0, 0), sections=scen.WD % "0.1",
            vic=scen.rand_ic(b, rng, 0.15, 0.1, base=0.1, hmin=0.12), log="log")
    # one directory per submesh
    for v, parts, ranks, th in (("rkdg", 4, 2, 2), ("ehdg", 3, 3, 1), ("ihdg", 3, 2, 1), ("gn", 3, 2, 1), ("rkdg", 3, 1, 1)):
        mm = ms["skew"]
        sch = dict(nstages=1, order=1) if v == "ihdg" else dict(nstages=2, order=2)
        for k in range(3 if c.thorough else 1):
            add("d", mm, v, [1.0, 1.5, 2.0 if k != 1 else 0], dist=(parts, ranks, c06.deals(rng, mm, parts, "scatter"), th), log="log", p=1, dt=0.5,
                nsteps=6, ic=(0.1, 0.1, 0.2), **sch)
    return out


def check(c):
    cs = cases(c)
    vs = sorted({k["v"] for k in cs})
    core = c.core_objs()
    ser = sim.build(c, vs, core=core)
    par = sim.build(c, sorted({k["v"] for k in cs if k["dist"]}), mpi=True)
    part = sim.build_partitioner(c, core)
    c.model("Output", consts="SPECIFICATION Spec\nCONSTANTS\nDts = {1, 2, 4}\nFreqs = {0, 1, 2, 3, 4, 5, 7, 8, 20}\nN = %d\n"
            "INVARIANTS Exact Spaced Dense\nCHECK_DEADLOCK FALSE\n" % (12 if c.thorough else 8))
    ser = {v: f.result() for v, f in ser.items()}
    par = {v: f.result() for v, f in par.items()}

    def one(k):
        d = os.path.dirname(c.path(k["name"], "x"))
        od = os.path.join(d, "out")
        o = "path: %s%s\n" % (od, "/" if len(k["name"]) % 2 else "")
        if k["log"]:
            o += "logfile:\n  verbose: %s\n  name: %s\n" % ("true" if k["log"] == "run" else "false", k["log"])
        for f in FM:
            if k["freq"][f]:
                o += "%s:\n  frequency: %.17g\n" % (f, k["freq"][f])
        kw = dict(k["kw"], out=o)
        if k["dist"]:
            parts, ranks, deal, th = k["dist"]
            recs = sim.run_ompi(c, par[k["v"]], part, k["m"], k["name"], deal, [s % ranks for s in range(parts)], threads=th,
                                variant=k["v"], **kw)
            subs = sorted({(r["rank"], r["sub"]) for r in recs})
            dirs = sorted(x for x in os.listdir(od) if os.path.isdir(os.path.join(od, x))) if os.path.isdir(od) else []
            if dirs != sorted("%d_%d" % s for s in subs):
                raise Violation("output directories of a distributed run: %s for submeshes %s" % (dirs, subs))
            return [judge_dir(os.path.join(od, "%d_%d" % s), "%s_%d_%d" % ((k["name"],) + s), k,
                              [r for r in recs if (r["rank"], r["sub"]) == s], k["log"]) for s in subs]
        recs = sim.run(c, ser[k["v"]], k["m"], k["name"], variant=k["v"], **kw)
        return [judge_dir(od, k["name"], k, recs, k["log"])]
    runs = [x for l in c.pmap(one, cs, 6) for x in l]
    c.log("files examined: %d, largest deviation %d units" % (sum(len(r["ids"]) for r in runs), max(r["err"] for r in runs)))
    c.conform("OutputTrace", {"ORUNS": runs}, len(runs), what="output does not follow the schedule or the state",
              consts="SPECIFICATION TSpec\nCONSTANTS\nDts = {1}\nFreqs = {0}\nN = 1\nINVARIANTS OnTime NothingElse Everyone Current\n")
    for r in runs[:8]:
        c.sample({k: r[k] for k in ("name", "dt", "freq", "steps", "have")})
    c.assumptions += ["values compared to the six significant digits the files carry; point values of orders above 1 only in the first file"]
