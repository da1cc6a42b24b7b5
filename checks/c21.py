"""C21 quadrilateral mesh generator: Quad.tla (what a mesh that answers a request is), QuadMC (the generator as a process), requests
enumerated by QuadGen, and the files the real generator writes judged by QuadTrace, read back by the program's own reader."""
import json, os, shutil, subprocess
from vlib import REPO, CheckError, Violation, q
import gen, sim
from c04 import mesh_record
import c01

MC = "SPECIFICATION Spec\nCONSTANTS\nMM = %d\nNN = %d\nBUG = %d\nINVARIANTS Count Whole Lone\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
INV = "Answers Nodes Depth Tiling Pattern Flat Sections Announced Forced ReadBack Runs"
U = 10000


def corners(rng):
    """a convex quadrilateral with integer corners, counter-clockwise"""
    while True:
        w, h = rng.randint(2, 200), rng.randint(2, 200)
        x, y = rng.choice([0, 0, rng.randint(-190, 190)]), rng.choice([0, rng.randint(-190, 190)])
        p = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        kind = rng.random()
        if kind < 0.8:
            p = [[a + rng.randint(-w // 2, w // 2), b + rng.randint(-h // 2, h // 2)] for a, b in p]
        if kind > 0.5:    # turned
            k = rng.randint(0, 3)
            p = p[k:] + p[:k]
        if max(abs(v) for a in p for v in a) > 395:
            continue
        if all((p[(i + 1) % 4][0] - p[i][0]) * (p[(i + 2) % 4][1] - p[i][1]) - (p[(i + 2) % 4][0] - p[i][0]) * (p[(i + 1) % 4][1] - p[i][1]) > 0
               for i in range(4)):
            return p


def request(rq, p, s, forcing, name, spoil=None):
    t = []
    for i in range(4):
        for d in range(2):
            t.append("%s%d: %.17g" % ("xy"[d], i + 1, p[i][d] * s))
    t += ["num_x_subdivisions: %d" % rq["m"], "num_y_subdivisions: %d" % rq["n"], "pattern: %d" % rq["pat"]]
    b = []
    for i, ty in enumerate(rq["types"]):
        e = ["  - type: %s" % ty]
        if ty in ("tide", "flow"):
            e += ["    frequency: %s" % forcing[i][0], "    forcing_factor: %s" % forcing[i][1], "    equilibrium_argument: %s" % forcing[i][2]]
        b.append(e)
    if spoil:
        k, x = spoil
        if k == "drop":
            t = [l for l in t if not l.startswith(x + ":")]
        elif k == "pattern":
            t = [("pattern: %d" % x) if l.startswith("pattern") else l for l in t]
        elif k == "type":
            b[x] = ["  - type: wall"]
        elif k == "sides":
            b = (b + b)[:x]
        elif k == "forcing":
            b[x[0]] = ["  - type: tide"] + [l for i, l in enumerate(["    frequency: 1", "    forcing_factor: 1", "    equilibrium_argument: 0"]) if i != x[1]]
    if not (spoil and spoil == ("drop", "boundary")):
        t += ["boundary:"] + [l for e in b for l in e]
    if name:
        t.append("mesh_name: %s" % name)
    return "\n".join(t) + "\n"


def read14(path):
    """fort.14 as written, with the announced counts"""
    L = open(path).read().split("\n")
    at = [1]

    def row():
        at[0] += 1
        return L[at[0] - 1].split()
    ne, nn = map(int, row()[:2])
    nodes = [row() for _ in range(nn)]
    elts = [row() for _ in range(ne)]
    h = {"ne": ne, "nn": nn}
    h["nope"], h["neta"] = int(row()[0]), int(row()[0])
    open_, land, geno = [], [], []
    for _ in range(h["nope"]):
        k = int(row()[0])
        open_.append([int(row()[0]) for _ in range(k)])
    h["nbou"], h["nvel"] = int(row()[0]), int(row()[0])
    for _ in range(h["nbou"]):
        a = row()
        land.append({"t": int(a[1]), "s": [int(row()[0]) for _ in range(int(a[0]))]})
    r = row()
    ngen = int(r[0]) if r else 0
    return nodes, elts, h, open_, land, ngen, L[at[0]:]


def readbcis(path):
    T = open(path).read().split()
    at, res = 0, []
    while at < len(T):
        t, n, k = int(T[at]), int(T[at + 1]), int(T[at + 2])
        at += 3
        if k != 1:
            raise ValueError("constituents")
        f = [repr(float(x)) for x in T[at:at + 3]]
        at += 3
        nodes = [T[at + 3 * i:at + 3 * i + 3] for i in range(n)]
        at += 3 * n
        res.append({"t": t, "n": n, "f": f, "nodes": [int(x[0]) for x in nodes],
                    "plain": all(float(x[1]) == 1 and float(x[2]) == 0 for x in nodes)})
    return res


def nearest(m, n, p, pos):
    """the lattice point each node seems to be (the specification verifies it)"""
    lat = {(i, j): [(m - i) * (n - j) * p[0][d] + i * (n - j) * p[1][d] + i * j * p[2][d] + (m - i) * j * p[3][d] for d in range(2)]
           for i in range(m + 1) for j in range(n + 1)}
    return [list(min(lat, key=lambda l: max(abs(x[d] - U * lat[l][d]) for d in range(2)))) for x in pos]


def check(c):
    rng = c.rng
    core = c.core_objs()
    read = c.harness("partread", core=core)
    build = c.harness("meshobj", flags=sim.DISC["rkdg"] + ["-DPROBLEM=" + sim.PROBLEM["rkdg"]], core=core)
    # the generator as it is, and a copy with another bed (the bed is a function users edit)
    bed = os.path.join(c.work, "bedgen")
    shutil.copytree(os.path.join(REPO, "mesh_generators"), bed)
    with open(os.path.join(bed, "bathymetry.hpp"), "w") as f:
        f.write("#ifndef BATHYMETRY_HPP\n#define BATHYMETRY_HPP\n#include <cstdlib>\ndouble bathymetry_function(double x, double y) {\n"
                "    return 3.0 * x - 2.0 * y + 7.0 * atof(getenv(\"QUAD_SCALE\"));\n}\n#endif\n")
    inc = ["-include", "general_definitions.hpp", "-include", "fstream", "-include", "iomanip"]
    gens = []
    for d, o in ((os.path.join(REPO, "mesh_generators"), "quadgen"), (bed, "quadgen_bed")):
        gens.append(c.pool.submit(c.compile, os.path.join(d, "quad_mesh_generator.cpp"), c.path("obj", o + ".o"), inc))
    gens = [c.link([g], c.path("bin", o)) for g, o in zip(gens, ("quadgen", "quadgen_bed"))]

    big = 4 if c.thorough else 3
    c.model("QuadMC", consts=MC % (big, 3 if c.thorough else 2, 0), part="QuadMC")
    for bug in (1, 2, 3):
        if c.tlc("QuadMC", consts=MC % (2, 2, bug))["ok"]:
            raise CheckError("the model accepts a broken generator (%d)" % bug)
    rqs = c.gen("QuadGen", consts="SPECIFICATION Spec\nCONSTANTS STEP = %d\n" % (1 if c.thorough else 3))

    jobs = []
    for i, rq in enumerate(rqs):
        jobs.append((rq, corners(rng), rng.choice([1e-7, 1e-3, 1.0, 1.0, 1e3, 1e5]), True, None))
    for m, n in ((1, 1), (1, 6), (6, 1), (2, 2), (3, 3), (5, 5)):
        for pat in range(3):
            jobs.append(({"m": m, "n": n, "pat": pat, "types": [rng.choice(["land", "tide", "flow", "function"]) for _ in range(4)]},
                         corners(rng), 1.0, True, None))
    for spoil in ([("drop", k) for k in ("x1", "y1", "x2", "y2", "x3", "y3", "x4", "y4", "num_x_subdivisions", "num_y_subdivisions",
                                         "pattern", "boundary")]
                  + [("pattern", 3), ("pattern", 7), ("sides", 3), ("sides", 5)] + [("type", k) for k in range(4)]
                  + [("forcing", (k, x)) for k in (0, 3) for x in range(3)]):
        jobs.append(({"m": 2, "n": 3, "pat": 1, "types": ["land"] * 4}, corners(rng), 1.0, False, spoil))

    def one(job):
        k, (rq, p, s, sane, spoil) = job
        d = os.path.dirname(c.path("q%d" % k, "x"))
        forcing = [[repr(rng.choice([0.0, 1.0, round(rng.uniform(1e-5, 2e-4), rng.choice([7, 9, 11])), 1.40518917e-4])),
                    repr(round(rng.uniform(0.1, 2), rng.choice([1, 3, 7]))), repr(round(rng.uniform(-180, 360), rng.choice([0, 2, 5])))] for _ in range(4)]
        name = rng.choice([None, "mesh", "sub/mesh.v2"])
        if name and "/" in name:
            os.makedirs(os.path.join(d, "sub"))
        with open(os.path.join(d, "q.yml"), "w") as f:
            f.write(request(rq, p, s, forcing, name, spoil))
        bed = k % 2
        e = dict(os.environ, QUAD_SCALE=repr(s))
        pr = subprocess.run([gens[bed], "q.yml"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        rec = {"m": rq["m"], "n": rq["n"], "pat": rq["pat"], "types": rq["types"], "q": p, "u": U, "sane": sane, "bed": bool(bed),
               "rc": 0 if pr.returncode == 0 else 1 if pr.returncode > 0 or pr.returncode == -6 else 2, "f": [[repr(float(x)) for x in y] for y in forcing], "tried": False, "built": False,
               "at": [], "ids": [], "pos": [], "sh": [], "mesh": {}, "hdr": {}, "bcis": [], "obs": {}}
        if pr.returncode or not sane:
            return rec, None
        b = os.path.join(d, name or "quad_mesh")
        try:
            nodes, elts, h, open_, land, ngen, rest = read14(b + ".14")
            bc = readbcis(b + ".bcis")
        except (OSError, ValueError, IndexError) as ex:
            raise Violation("the generator wrote files that cannot be read (%s)" % ex, "request %s" % json.dumps(rq))
        mn = rq["m"] * rq["n"]
        pos = [[q(float(v) * mn / s, 1.0 / U) for v in x[1:4]] for x in nodes]
        rec.update(at=nearest(rq["m"], rq["n"], p, pos), pos=pos, ids=[int(x[0]) for x in nodes],
                   sh=[int(x[1]) for x in elts], hdr=h, bcis=bc,
                   mesh={"elts": [{"id": int(x[0]), "n": [int(v) for v in x[2:5]]} for x in elts], "open": open_, "land": land, "lev": [],
                         "gen": [[]] * ngen})
        return rec, b + ".14"

    res = c.pmap(one, list(enumerate(jobs)), 8)
    done = [(i, f) for i, (_, f) in enumerate(res) if f]
    jf = c.path("read.jobs")
    with open(jf, "w") as fh:
        fh.writelines("adc %s\n" % f for _, f in done)
    r = c.run([read.result(), jf], cwd=c.work, timeout=300, what="reading generated meshes")
    ls = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] in "{["]
    if len(ls) != len(done):
        raise CheckError("reader answered %d of %d" % (len(ls), len(done)))
    for (i, _), o in zip(done, ls):
        if "err" in o:
            res[i][0]["obs"] = {"err": 1}
        else:
            res[i][0]["obs"] = {"elts": o["elts"], "nodes": [{"id": n["id"]} for n in o["nodes"]]}
    # mesh objects of a run
    try_ = [(i, f) for x, (i, f) in enumerate(done) if "outflow" not in jobs[i][0]["types"] and (c.thorough or x % 3 == 0 or x >= len(done) - 18)]
    ys = []
    for i, f in try_:
        y = f[:-3] + ".run.yml"
        with open(y, "w") as fh:
            fh.write(gen.yaml_cfg(f, p=1, problem="rkdg_swe", ic=(50.0, 0.0, 0.0)))
        ys.append(y)
    with open(c.path("build.jobs"), "w") as fh:
        fh.write("\n".join(ys) + "\n")
    r = c.run([build.result(), c.path("build.jobs")], cwd=c.work, timeout=300, what="building on generated meshes")
    ls = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] == "{"]
    if len(ls) != len(try_):
        raise CheckError("builder answered %d of %d" % (len(ls), len(try_)))
    for (i, _), o in zip(try_, ls):
        res[i][0].update(tried=True, built="err" not in o)
    recs = [x for x, _ in res]
    c.conform("QuadTrace", {"RUNR": recs}, len(recs), what="the generator did not write the mesh asked for",
              consts="SPECIFICATION TSpec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % INV)
    c.sample({"requests": len(recs), "written": len(done), "built": len(try_)})
    c.assumptions += ["corners convex and counter-clockwise, integers times a scale 1e-7..1e5", "at most 6 subdivisions a side"]
