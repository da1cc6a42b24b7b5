"""C02 file round trips: RoundTrip.tla (the three file forms as grammars), RoundTripMC (meshes going through files again and again),
section mixes from RoundTripGen, and what the real readers and writers make of them judged by RoundTripTrace."""
import json, os, re
from vlib import CheckError, q
import gen, scen, sim
import c01
from c04 import renum

MC = "SPECIFICATION Spec\nCONSTANTS\nMaxNum = 130\nBUG = %d\nINVARIANTS Kept Typed TwoSides\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
TR = "SPECIFICATION Spec\nCONSTANTS\nMaxNum = 900\nINVARIANTS Taken FirstRead Written ReadBack Exact Lists Foreign Runs\nCHECK_DEADLOCK FALSE\n"
TOP = 4294967294
NOTES = ["", " = number of things", " ! 4 5 6", "\t= NOPE"]


def norm(w, d):
    """normal form of a word: numbers with d significant digits"""
    if re.fullmatch(r"\d+", w) and int(w) <= TOP + 1:
        return str(int(w))
    try:
        return "%.*g" % (d, float(w))
    except ValueError:
        return w


def deep(o, d):
    """normal form of everything read, section counts left out (returned apart)"""
    if isinstance(o, dict):
        return {k: (norm(v, d) if isinstance(v, str) and k not in ("name", "id") else deep(v, d)) for k, v in o.items()
                if k not in ("nope", "nbou", "ngen")}
    if isinstance(o, list):
        return [norm(v, d) if isinstance(v, str) else deep(v, d) for v in o]
    return o


def lines(path, d, types=False):
    b = open(path, "rb").read()
    L = b.split(b"\n")
    if L and L[-1] == b"":
        L.pop()
    res, left = [], 0
    for k, l in enumerate(L):
        if types and k >= 2 and left:    # element rows of the native form end in one raw byte per face
            left -= 1
            w = [x for x in l.split(b" ")]
            n = int(w[1])
            t = [norm(x.decode("latin-1"), d) for x in w[:2 + 2 * n]] + ["%d" % x[0] if len(x) == 1 else "?" for x in w[2 + 2 * n:]]
        else:
            # numbers of 22 characters are written without a blank before them; a sign starts a new one
            t = [norm(y, d) for x in l.decode("latin-1").split() for y in re.sub(r"(?<=\d)(?=[-+])", " ", x).split()]
            if types and k == 1:
                left = int(t[0])
        res.append(t)
    return res


def value(rng, short):
    k = rng.randrange(9)
    if k == 0:
        return rng.choice(["0", "0.0", "1", "-1", "5.", ".5", "-0.25"])
    if k == 1:
        v = rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)
    elif k == 2:
        v = rng.uniform(-1, 1) * 10.0 ** rng.choice([-12, -5, -4, 5, 6, 14, 15, 16])
    elif k == 3:
        return "%d" % rng.randint(-10**6, 10**6)
    else:
        v = rng.uniform(-1e5, 1e5)
    w = "%.*g" % (rng.choice([3, 8, 12, 15]) if short else 17, v)
    return w.replace("e", rng.choice("eE")) if rng.random() < 0.3 else w


def make14(mix, rng, short):
    ids = rng.sample([0, 1, 2, 3, TOP, 65536, 65537] + list(range(4, 60)) + [rng.randint(0, TOP) for _ in range(20)], rng.randint(3, 14))
    els = rng.sample([0, 1, 2, TOP, 70000] + list(range(3, 40)), rng.randint(1, 9))
    note = (lambda: rng.choice(NOTES)) if mix["note"] else (lambda: "")
    gap = (lambda: " " * rng.choice([1, 1, 3, 9])) if mix["note"] else (lambda: " ")
    o = ["grid%d%s" % (rng.randint(0, 99), rng.choice(["", " of some more words 3 4"]) if mix["note"] else ""), "%d%s%d%s" % (len(els), gap(), len(ids), note())]
    o += [gap().join([str(i)] + [value(rng, short) for _ in range(3)]) + note() for i in ids]
    o += [gap().join([str(e), rng.choice("333367")] + [str(rng.choice(ids)) for _ in range(3)]) + note() for e in els]
    o += ["%d%s" % (len(mix["open"]), note()), "%d%s" % (rng.choice([sum(mix["open"]), 0, 77]), note())]
    for n in mix["open"]:
        o += ["%d%s" % (n, note())] + ["%d%s" % (rng.choice(ids), note()) for _ in range(n)]
    o += ["%d%s" % (len(mix["land"]), note()), "%d%s" % (rng.choice([5 * len(mix["land"]), 0, 99]), note())]
    for t in mix["land"]:
        n = rng.choice([1, 2, 2, 3, 5])
        o.append("%d%s%d%s" % (n, gap(), t, note()))
        for _ in range(n):
            r = [str(rng.choice(ids))]
            if t % 10 == 4:
                r += [str(rng.choice(ids))] + [value(rng, short) for _ in range(3)]
            o.append(gap().join(r) + note())
    if mix["tail"] in ("section", "nonl"):
        o += ["%d%s" % (len(mix["gen"]), note()), "%d%s" % (sum(mix["gen"]), note())]
        for n in mix["gen"]:
            o += ["%d%s" % (n, note())] + ["%d%s" % (rng.choice(ids), note()) for _ in range(n)]
    elif mix["tail"] == "blank":
        o.append(rng.choice(["", "   "]))
    return "\n".join(o) + ("" if mix["tail"] == "nonl" else "\n")


BT = [0, 1, 2, 3, 4, 128, 129, 192, 193]


def makem(rng, short):
    els = rng.sample([0, 1, 2, TOP, 70000] + list(range(3, 60)), rng.randint(0, 12))
    ids = rng.sample([0, 1, 2, 3, TOP, 65536, 65537] + list(range(4, 60)), rng.randint(0, 20))
    o = [b"grid%d" % rng.randint(0, 99), b"%d = number of elements" % len(els)]
    for e in els:
        n = rng.choice([3, 3, 3, 4])
        o.append(b" ".join([b"%d" % e, b"%d" % n] + [b"%d" % rng.choice([0, 5, 65536, TOP, rng.randint(0, 99)]) for _ in range(n)]
                           + [b"%d" % rng.choice([TOP + 1, TOP + 1, 0, 5, TOP, 70000]) for _ in range(n)] + [bytes([rng.choice(BT)]) for _ in range(n)]))
    o.append(b"%d = number of nodes" % len(ids))
    o += [(" ".join([str(i)] + [value(rng, short) for _ in range(3)])).encode() for i in ids]
    return b"\n".join(o) + b"\n"


def maked(rng, me):
    o = []
    for _ in range(rng.randint(0, 5)):
        other = (rng.randint(0, 9), rng.choice([0, 0, 1, 12]))
        if other == me:
            continue
        a, b = (me, other) if rng.random() < 0.5 else (other, me)
        n = rng.choice([0, 1, 1, 2, 3, 7])
        o.append("%d %d %d %d %d" % (a + b + (n,)))
        o += ["%d %d %d %d %d" % (rng.choice([rng.randint(0, 99), 70000, TOP]), rng.choice([rng.randint(0, 99), 65536]), rng.randrange(3), rng.randrange(3), rng.randint(1, 4))
              for _ in range(n)]
    return "".join(l + "\n" for l in o)


def state(z, unit):
    return [{"i": "%d" % e["id"], "w": e["wet"], "v": [q(v, unit) for w in e["v"] for v in w], "n": [str(n) for n in e.get("nodes", [])]}
            for e in sorted(z["el"], key=lambda e: e["id"])]


def check(c):
    rng = c.rng
    core = c.core_objs()
    rt = c.harness("rtrip", core=core)
    drv = sim.build(c, ["rkdg"])
    c.model("RoundTripMC", consts=MC % 0, part="RoundTripMC")
    for bug in range(1, 6):
        if c.tlc("RoundTripMC", consts=MC % bug)["ok"]:
            raise CheckError("the model accepts a broken writer (%d)" % bug)
    mixes = c.gen("RoundTripGen", consts="SPECIFICATION Spec\nCONSTANTS STEP = %d\nCHECK_DEADLOCK FALSE\n" % (1 if c.thorough else 2))

    jobs, meta = [], []     # job line, (kind, file, fits)

    def put(kind, k, text, fits, gens):
        f = c.path("f", "%s%d" % (kind, k))
        with open(f, "wb") as fh:
            fh.write(text if isinstance(text, bytes) else text.encode())
        jobs.append("%s %s %d" % (kind, f, gens))
        meta.append((kind, f, fits))
    for k, mix in enumerate(mixes):
        put("a", k, make14(mix, rng, k % 3 > 0), k % 3 > 0, 1 + k % 2)
    n = len(mixes)
    for k, t in enumerate([3, 5, 6, 7, 8, 9, 13, 26, 76, 89]):    # types the format does not have
        lands = [rng.choice([0, 1, 24])] * rng.randint(0, 2) + [t] + [0] * rng.randint(0, 1)
        put("a", n + k, make14({"open": [2], "land": lands, "gen": [], "tail": "section", "note": False}, rng, True), True, 1)
    for k in range(300 if c.thorough else 60):
        put("m", k, makem(rng, k % 3 > 0), k % 3 > 0, 2)
    # whole meshes, read from fort.14, kept in the native form
    real = []
    for k in range(20 if c.thorough else 4):
        for x in scen.closed_meshes(rng).values():
            real.append(renum(x, rng, big=rng.random() < 0.3))
        x = scen.vary_levee(gen.levee_grid(3, 3, 1, 300, 300, gap=20.0, bath=scen.rough(rng), pattern=2), rng)
        real.append(renum(x, rng))
        real.append(scen.forced(rng))
    for k, x in enumerate(real):
        for i in list(x.nodes):
            x.nodes[i] = tuple(float("%.15g" % v) for v in x.nodes[i])
        put("c", k, x.fort14(prec=17, generic=getattr(x, "gen", None) or None), True, 2)
    me_ = []
    for k in range(300 if c.thorough else 80):
        me = (rng.randint(0, 9), rng.choice([0, 0, 1, 12]))
        f = c.path("f", "d%d" % k)
        with open(f, "w") as fh:
            fh.write(maked(rng, me))
        strange = (me[0] + 20, me[1])
        jobs += ["d %s %d %d %s.w" % (f, me[0], me[1], f), "d %s %d %d %s.x" % (f, strange[0], strange[1], f)]
        meta += [("d", f, me), ("x", f, strange)]
    jf = c.path("jobs")
    with open(jf, "w") as fh:
        fh.write("\n".join(jobs) + "\n")
    r = c.run([rt.result(), jf], cwd=c.work, timeout=300, what="reading and writing files")
    obs = [json.loads(x) for x in r.stdout.decode(errors="replace").splitlines() if x[:1] == "{"]
    if len(obs) != len(jobs):
        raise CheckError("the readers answered %d of %d" % (len(obs), len(jobs)))
    A, M, D = [], [], []
    for k, ((kind, f, x), o) in enumerate(zip(meta, obs)):
        if kind in "acm":
            rec = {"ok": o["ok"], "fits": x, "read": [], "wrote": [], "file": []}
            if kind != "c":
                rec["file"] = lines(f, 17, kind == "m")
            if o["ok"]:
                rec["read"] = [{"full": deep(m, 17), "short": deep(m, 15)} for m in o["read"]]
                if kind == "c":     # from the first native file on
                    rec["file"] = lines(f + ".w1", 17, True)
                rec["wrote"] = [lines("%s.w%d" % (f, g), 15, kind != "a") for g in range(1, len(o["read"]))]
            (A if kind == "a" else M).append(rec)
        elif kind == "d":
            L = lines(f, 17)
            D.append({"ok": o["ok"], "file": L, "me": [str(v) for v in x], "read": o["read"] if o["ok"] else [],
                      "wrote": lines(f + ".w", 17) if o["ok"] else [], "strange": not obs[k + 1]["ok"] or not L})
    c.sample({"file": A[5]["file"][:6], "read": A[5]["read"][:1] and A[5]["read"][0]["full"]["open"]})
    # runs from a mesh in the native form are the runs from the fort.14 it came from
    exe = drv["rkdg"].result()
    use = [k for k, x in enumerate(real) if x.bcis or x.levees or rng.random() < 0.5][:14 if c.thorough else 5]

    def both(k):
        x = real[k]
        a = sim.run(c, exe, x, "run%d" % k, vic=scen.rand_ic(x, rng, aze=0.2, aq=0.5), p=1 + k % 2, dt=1.0, nsteps=2)
        d = os.path.dirname(c.path("run%d" % k, "x"))
        os.makedirs(d + "/nat")
        os.replace(c.path("f", "c%d.w1" % k), d + "/nat/m.meta")
        if x.needs_bcis():
            with open(d + "/nat/m.bcis", "w") as fh:
                fh.write(x.bcis_text())
        y = open(d + "/in.yml").read().replace("format: Adcirc", "format: Meta").replace(d + "/m.14", d + "/nat/m.meta")
        with open(d + "/nat.yml", "w") as fh:
            fh.write(y)
        env = {"REC_IC": d + "/ic.txt"}
        c.run([exe, d + "/nat.yml", d + "/nat.json"], cwd=d, env=env, timeout=120, what="a run from a native mesh")
        with open(d + "/nat.json") as fh:
            b = [json.loads(l) for l in fh]
        big = max(abs(v) for z in a for e in z["el"] for w in e["v"] for v in w) / 5e8
        return {"a": [state(z, big) for z in a], "b": [state(z, big) for z in b]}
    R = c.pmap(both, use, 8)
    c.conform("RoundTripTrace", {"RTA": A, "RTM": M, "RTD": D, "RTR": R}, len(A) + len(M) + len(D) + len(R), consts=TR,
              what="a mesh or boundary list changes on its way through a file")
