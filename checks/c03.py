"""C03 configuration: Config.tla (what a configuration file means), ConfigMC (files going through the program again and again),
everything that may stand in a section from ConfigGen put into files for the real readers, their answers judged by ConfigTrace."""
import json, os, re, subprocess, tempfile, yaml
from vlib import CheckError, VERIF
import gen, scen, sim

MC = "SPECIFICATION Spec\nCONSTANT BUG = %d\nINVARIANTS Kept Honoured Refusals\nCHECK_DEADLOCK FALSE\n"
TR = "SPECIFICATION Spec\nCONSTANT BUG = 0\nINVARIANTS Told Taken Values Complaints Written Again Applies Dispatch\nCHECK_DEADLOCK FALSE\n"
INPROB = ["spherical_projection", "initial_conditions", "function_source", "bottom_friction", "meteo_forcing", "tide_potential", "coriolis",
          "wetting_drying", "slope_limiting"]
INOUT = ["logfile", "vtk", "vtu", "modal"]
SECS = ["top", "mesh", "timestepping", "problem"] + INPROB + ["load_balancer", "output"] + INOUT
PROGS = ["rkdg_swe", "ehdg_swe", "ihdg_swe", "gn", "any"]


class Later:
    def __init__(self, f):
        self.result = f


def num(w):
    if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", w):
        return None
    return float(w)


def info(w):
    """what a word is"""
    r = {"u": "", "d": "", "b": "", "neg": False, "pos": False, "z": -1, "t": [], "slash": w if w.endswith("/") else w + "/"}
    if re.fullmatch(r"\d+", w) and int(w) < 2**32:
        r["u"] = str(int(w))
    v = num(w)
    if v is not None:
        r["d"] = "%.17g" % v
        r["neg"], r["pos"] = v < 0, v > 0
        if 0 < v < 2**28 and v * 4 == int(v * 4):
            r["z"] = int(v * 4)
    if w.lower() in ("true", "yes", "on", "y", "false", "no", "off", "n"):
        r["b"] = "1" if w.lower() in ("true", "yes", "on", "y") else "0"
    m = re.fullmatch(r"(\d\d)-(\d\d)-(\d{4}) (\d\d):(\d\d)(?::(\d\d))?", w)
    if m:
        t = [int(x or 0) for x in m.groups()]
        if 1 <= t[1] <= 12 and 1 <= t[0] <= 31 and t[3] < 24 and t[4] < 60 and t[5] < 60:
            r["t"] = t
    return r


def real(rng):
    k = rng.randrange(7)
    if k == 0:
        return rng.choice(["0", "1", "-1", "5.", ".5", "-0.25", "9.81", "1e-8", "1000", "6378206.4"])
    if k == 1:
        return "%.17g" % (rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30))
    if k == 2:
        return "%de%d" % (rng.randint(1, 99), rng.randint(-9, 9))
    return "%.*g" % (rng.choice([2, 6, 12, 17]), rng.uniform(-1e4, 1e4))


def date(rng):
    mon = rng.randint(1, 12)
    return "%02d-%02d-%04d %02d:%02d" % (rng.randint(1, [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mon - 1]), mon, rng.randint(1975, 2035),
                                         rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)])) + rng.choice(["", ":00", ":59", ":%02d" % rng.randrange(60)])


def word(w, rng):
    """a word of the kind asked for"""
    pick = lambda L: rng.choice(L)
    if w == "UINT":
        return str(rng.choice([0, 1, 2, 3, 7, 20, rng.randint(0, 99)]))
    if w == "REAL":
        return real(rng)
    if w == "POS":
        return real(rng).lstrip("-")
    if w == "NEG":
        return "-" + pick(["1", "0.003", "1e-9", "2.5"])
    if w == "JUNK":
        return pick(["abc", "1.5x", "1 2", "--1", "one", "0,5"])
    if w == "DT":
        return pick(["0.25", "0.5", "1", "2", "1.75", "60", "3.0", "600"])
    if w == "FREQ":
        return pick(["0.25", "0.75", "1", "2.5", "3600", "7", "86400.25", "1e4"])
    if w == "DATE":
        return date(rng)
    if w == "BADDATE":
        return pick(["2015-05-11 12:00:00", "11/05/2015 12:00:00", "11-05-2015", "11-05-2015T12:00:00", "yesterday", "32-01-2015 00:00:00", "11-13-2015 00:00:00",
                     "11-05-2015 25:00:00", "11-05-2015 12", "11-05-2015 12:61:00"])
    if w == "NAME":
        return pick(["other", "Constants", "constant", "chezy", "Enabled", "adcirc", "polarr", "rkdg", "swe", "x y", "Cockburn", "ihdg", "none", "None", "Tests"])
    if w == "FILE":
        return pick(["f.14", "dir/mesh.grd", "/a b/c.txt", "x", "a.b.c", "../up/m_1.meta"])
    if w == "DIR":
        return pick(["out/", "./", "/tmp/a b/"])
    if w == "BOOL":
        return pick(["true", "false", "True", "FALSE", "yes", "no", "on", "off"])
    return w


def entry(vec, rng):
    e = vec["e"]
    if e["k"] == "map":
        return {"k": "map", "at": {k: word(w, rng) for k, w in e["at"].items()}}
    if e["k"] == "word":
        return {"k": "word", "w": word(e["w"], rng)}
    return dict(e)


def close(c):
    """drop what has no place in the file: parts of sections that are not mappings"""
    if c.get("problem", {}).get("k") != "map":
        for s in INPROB:
            c.pop(s, None)
    if c.get("output", {}).get("k") != "map":
        for s in INOUT:
            c.pop(s, None)
    return c


def quote(w, rng):
    if re.fullmatch(r"[A-Za-z0-9_.+-]+", w) and rng.random() < 0.8:
        return w
    return rng.choice(['"%s"', "'%s'"]) % w


def text(c, rng):
    """the file; order of the sections and of the keys, comments and style at random"""
    o = []
    def block(s, e, ind, kids):
        pad = "  " * ind if ind else ""
        if e["k"] == "word":
            o.append("%s%s: %s" % (pad, s, quote(e["w"], rng)))
        elif e["k"] == "null":
            o.append("%s%s:%s" % (pad, s, rng.choice(["", " ~", " null", "   # nothing"])))
        else:
            L = [(k, {"k": "word", "w": w}) for k, w in e["at"].items()] + [(k, c[k]) for k in kids if k in c]
            rng.shuffle(L)
            if not L:
                o.append("%s%s: {}" % (pad, s))
                return
            if not kids and rng.random() < 0.15:
                o.append("%s%s: {%s}" % (pad, s, ", ".join("%s: '%s'" % (k, x["w"]) for k, x in L)))
                return
            o.append("%s%s:%s" % (pad, s, rng.choice(["", "", "  # a section"])))
            for k, x in L:
                block(k, x, ind + 1, [])
    L = [s for s in ("mesh", "timestepping", "problem", "load_balancer", "output") if s in c]
    if "top" in c:
        L += ["=" + k for k in c["top"]["at"]]
    L += rng.choice([[], ["=extra"], []])
    rng.shuffle(L)
    for s in L:
        if s == "=extra":
            o.append(rng.choice(["remark: 7", "notes:\n  a: b"]))
        elif s[0] == "=":
            o.append("%s: %s" % (s[1:], quote(c["top"]["at"][s[1:]], rng)))
        else:
            block(s, c[s], 0, INPROB if s == "problem" else INOUT if s == "output" else [])
        if rng.random() < 0.1:
            o.append(rng.choice(["", "# remark"]))
    return "\n".join(o) + "\n"


def back(path):
    """the file the program writes, as the specification has files (an independent reading)"""
    with open(path) as f:
        d = yaml.load(f, Loader=yaml.BaseLoader)
    c = {"top": {"k": "map", "at": {}}}
    def sec(s, v, kids):
        if isinstance(v, dict):
            c[s] = {"k": "map", "at": {}}
            for k, x in v.items():
                if k in kids:
                    sec(k, x, [])
                else:
                    c[s]["at"][k] = x if isinstance(x, str) else json.dumps(x)
        else:
            c[s] = {"k": "word", "w": v} if v not in ("", "~", "null") else {"k": "null"}
    for s, v in d.items():
        if s in ("mesh", "timestepping", "problem", "load_balancer", "output"):
            sec(s, v, INPROB if s == "problem" else INOUT if s == "output" else [])
        else:
            c["top"]["at"][s] = v
    return c


def words(c):
    for e in c.values():
        if e["k"] == "map":
            yield from e["at"].values()
        elif e["k"] == "word":
            yield e["w"]


def vals(d):
    return {k: v for k, v in d.items() if k[0] != "~"}


def check(c):
    rng = c.rng
    core = c.core_objs()
    exe = c.harness("cfgread", core=core, flags=["-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DIHDG_SUPPORT", "-DGN_SUPPORT"])
    drv = sim.build(c, list(sim.YNAME), core=core)
    every = ["-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DIHDG_SUPPORT", "-DGN_SUPPORT"]
    parts = [c.pool.submit(c.compile, s, c.path("obj", s.replace("/", "_") + ".o"), every, False, "-O0") for s in ("dgswemv2-serial.cpp", "simulation/serial/simulation_base.cpp")]
    real = Later(lambda: c.link(parts + list(core), c.path("bin", "dgswemv2-serial")))
    mcore = c.core_objs(mpi=True, sub="core_mpi")
    mparts = [c.pool.submit(c.compile, s, c.path("obj", "m_" + s.replace("/", "_") + ".o"), every, True, "-O0") for s in
              ("dgswemv2-ompi.cpp", "simulation/ompi/simulation_ompi_base.cpp", os.path.join(VERIF, "harness", "ksp.cpp"))]
    mpi = Later(lambda: c.link(mparts + list(mcore) + sim.comm_objs(c), c.path("bin", "dgswemv2-ompi"), mpi=True))
    c.model("ConfigMC", consts=MC % 0)
    for b in range(1, 9):
        if c.tlc("ConfigMC", consts=MC % b, part="ConfigMC:defect%d" % b)["ok"]:
            raise CheckError("ConfigMC accepts defective treatment %d" % b)
    vecs = c.gen("ConfigGen", consts="SPECIFICATION Spec\nCONSTANT BUG = 0\nCHECK_DEADLOCK FALSE\n")
    by = {s: [v for v in vecs if v["s"] == s] for s in SECS}
    whole = {"top": {"polynomial_order": "UINT"}, "mesh": {"format": "Adcirc", "file_name": "FILE", "coordinate_system": "cartesian"},
             "timestepping": {"start_time": "DATE", "end_time": "DATE", "dt": "DT", "order": "UINT", "nstages": "UINT"}, "problem": {"name": "rkdg_swe"}, "output": {"path": "FILE"}}
    def base(prog):
        r = {s: {"k": "map", "at": {k: word(w, rng) for k, w in f.items()}} for s, f in whole.items()}
        r["mesh"]["at"]["format"] = rng.choice(["Adcirc", "Meta"])
        r["mesh"]["at"]["coordinate_system"] = rng.choice(["cartesian", "polar", "spherical"])
        r["problem"]["at"]["name"] = rng.choice(["ehdg_gn", "ihdg_gn"]) if prog == "gn" else rng.choice(["rkdg_swe", "ehdg_swe", "ihdg_swe"])
        return r
    def sound(v):
        """complete, with words of the right kinds"""
        if v["e"]["k"] != "map" or v["s"] in whole and not set(whole[v["s"]]) <= set(v["e"]["at"]):
            return False
        at = v["e"]["at"]
        return not any(w in ("JUNK", "NAME", "BADDATE", "NEG") and (v["s"], k) not in (("load_balancer", "name"), ("meteo_forcing", "type")) for k, w in at.items()) \
            and not (v["s"] == "top" and at["polynomial_order"] != "UINT") and at.get("nstages") != "REAL" and not (v["s"] in ("vtk", "vtu", "modal", "meteo_forcing") and at.get("frequency") == "0") \
            and not (v["s"] == "logfile" and len(at) < 2) and not (v["s"] == "load_balancer" and len(at) < 2)
    jobs = []
    def job(prog, cfg):
        jobs.append((prog, close(cfg)))
    full = {s: [v for v in by[s] if sound(v)] for s in SECS}
    for k, v in enumerate(vecs):
        progs = PROGS if c.thorough else [PROGS[(k + j) % 5] for j in ((0, 2, 3) if v["s"] in INPROB else (0, 1))]
        for prog in progs:
            b = base(prog)
            if v["s"] == "problem" and prog == "gn" and v["e"].get("at", {}).get("name") == "rkdg_swe" and rng.random() < 0.5:
                prog = "rkdg_swe"
            if v["e"]["k"] == "none":
                b.pop(v["s"], None)
            else:
                b[v["s"]] = entry(v, rng)
            job(prog, b)
    # everything at once
    for k in range(1500 if c.thorough else 350):
        prog = rng.choice(PROGS)
        b = base(prog)
        p = rng.choice([0.2, 0.5, 0.9])
        for s in SECS:
            if rng.random() < p:
                if s == "problem":
                    n = b[s]["at"]["name"]
                v = rng.choice(full[s] if full[s] and rng.random() < 0.97 else by[s])
                if v["e"]["k"] == "none":
                    b.pop(s, None)
                else:
                    b[s] = entry(v, rng)
                    if s == "problem" and b[s]["k"] == "map" and "name" in b[s]["at"] and rng.random() < 0.97:
                        b[s]["at"]["name"] = n
        job(prog, b)
    files = []
    for k, (prog, cfg) in enumerate(jobs):
        f = c.path("cfg", "%d.yml" % k)
        with open(f, "w") as g:
            g.write(text(cfg, rng))
        files.append((prog, f))
    x = exe.result()
    def batch(part):
        r = subprocess.run([x], input="".join("%s %s\n" % z for z in part), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        return [l.split() for l in r.stdout.splitlines()]
    n = 8
    ans = {}
    for part in c.pmap(batch, [files[i::n] for i in range(n)], n):
        for w in part:
            ans[w[0]] = (int(w[1]), int(w[2]))
    rows = []
    for (prog, f), (_, cfg) in zip(files, jobs):
        if f not in ans:
            raise CheckError("no answer for %s" % f)
        code, sig = ans[f]
        with open(f + ".err") as g:
            err = g.read()
        with open(f + ".res") as g:
            t = g.read()
        # stopped by an assertion (no problem name) is a refusal as well
        refused = code == 3 or (sig == 6 and "ssertion" in err and "swe_node" in err)
        row = {"name": os.path.basename(f), "prog": prog, "file": cfg, "refused": refused, "ok": code == 0, "end": "%d/%d" % (code, sig), "warn": err.count("mal-formatted"),
               "read": {}, "again": {}, "applied": {}, "wrote": {}, "twice": True, "known": "?"}
        if code == 0:
            d = json.loads(t)
            row["read"], row["again"], row["applied"] = vals(d["read"]), vals(d["again"]), d.get("applied", {})
            row["wrote"] = back(f + ".out")
            row["twice"] = open(f + ".out", "rb").read() == open(f + ".out2", "rb").read()
            row["side"] = [d["read"]["~bcis"], d["read"]["~dbmd"]]
            stem = d["read"]["file"].rsplit(".", 1)[0] if "." in d["read"]["file"] else d["read"]["file"]
            row["sides"] = [stem + ".bcis", stem + ".dbmd"]
        else:
            row["side"] = row["sides"] = []
        ws = set(words(cfg)) | set(words(row["wrote"]) if row["wrote"] else [])
        row["info"] = {w: info(w) for w in ws}
        rows.append(row)
    c.log("%d files, %d taken, %d refused" % (len(rows), sum(r["ok"] for r in rows), sum(r["refused"] for r in rows)))
    c.sample({"file": rows[-1]["file"], "read": {k: v for k, v in rows[-1]["read"].items() if k in ("p", "dt", "run", "g", "ic")}})
    c.cov["files"] = len(rows)
    # which problems the program runs under which names, told apart by what they write
    mains = {"serial": real.result(), "ompi": mpi.result()}
    part = sim.build_partitioner(c, core)
    m = gen.walls(gen.grid(3, 2, 30.0, 20.0, bath=scen.rough(rng, 5.0)))
    names = sorted({v["e"]["at"]["name"] for v in by["problem"] if v["e"]["k"] == "map" and "name" in v["e"]["at"]} - {"NAME"})
    names += ["rkdg", "RKDG_SWE", "rkdg_swe2", "swe", "gn"]
    deal = {e: k % 2 for k, e in enumerate(sorted(x[0] for x in m.elems))}

    def opts(name, nm):
        return dict(problem=nm, p=1, dt=0.5, nsteps=2, ic=(0.1, 0.7, -0.4), out="path: %s/out\nmodal:\n  frequency: 0.5" % os.path.dirname(c.path(name, "x")))

    def files_for(name, nm):
        return sim.write_inputs(c, m, name, **opts(name, nm))[:2]

    def modal(d):
        r = []
        for a, _, fs in sorted(os.walk(d + "/out")):
            for f in sorted(fs):
                if "modal" in f:
                    r += [float(l.split()[1]) for l in open(os.path.join(a, f)) if len(l.split()) == 2]
        return sorted(r)

    def one(z):
        kind, nm = z
        name = "main_%s_%s" % (kind, nm)
        if kind == "serial":
            d, y = files_for(name, nm)
            r = c.run([mains[kind], y], cwd=d, timeout=120, ok=None, what="program")
        else:
            d, y, e, _ = sim.partition(c, part, m, name, deal, [0, 0], **opts(name, nm))
            with tempfile.TemporaryDirectory(prefix="vm", dir="/tmp") as t:
                r = c.run(sim.MPIRUN + ["-n", "1", mains[kind], y], cwd=d, env={"TMPDIR": t, "OMP_NUM_THREADS": "1"}, timeout=120, ok=None, what="program")
        got = modal(d) if r.returncode == 0 else []
        like = [k for k in ref if len(got) == len(ref[k]) and got and max(abs(a - b) for a, b in zip(got, ref[k])) <= 2e-5]
        err = r.stderr.decode(errors="replace")
        return {"name": nm, "taken": r.returncode == 0, "like": like, "refused": r.returncode != 0 and ("what()" in err or "roblem" in err) and "egmentation" not in err, "kind": kind}
    ref = {}
    for v in sim.YNAME:
        d, y = files_for("ref_" + v, sim.YNAME[v])
        c.run([drv[v].result(), y, d + "/rec.json"], cwd=d, timeout=120, what="driver")
        ref[sim.YNAME[v]] = modal(d)
    N = c.pmap(one, [(kind, nm) for kind in mains for nm in names], 4)
    c.sample(N[:3])
    c.conform("ConfigTrace", {"CFC": rows, "CFN": N}, len(rows) + len(N), consts=TR, what="a configuration is not taken for what it says")
