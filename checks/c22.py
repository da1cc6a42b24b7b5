"""C22 building blocks: exact polynomial algebra (Poly.tla) against the program's quadrature, bases, elements and faces."""
import json
from math import comb
from vlib import Violation, CheckError, q, BIG

INV = ("WellPosed", "Quadrature", "Orthogonal", "Reproduces", "Integrates", "Differentiates", "Evaluates", "LinearForms", "Shape",
       "Boundaries", "Interfaces")
LAWS = ("Positive Parts Commutes ValuesMultiply ElevationIsSame ElevationKeepsIntegral TraceIsValue BestIsOrthogonal "
        "LinearIsItsOwnBest MomentIsIntegral NormalsClose NormalsPointOut GradientsAreDual")


def ratio(x, d, unit=1e-9):
    x = float(x)
    v = x * d
    if v != v or abs(v) > 1e9:
        return {"d": d, "i": BIG, "f": 0}
    return {"d": d, "i": int(round(v)), "f": q(v - round(v), unit)}


def tiny(s, unit=1e-9):
    return [ratio(x, 1, unit) for x in s]


def l3(n):
    return (n + 1) * (n + 2) // 2


def poly(rng, n, kind):
    if kind == "unit":
        i = rng.randrange(l3(n))
        return [int(j == i) for j in range(l3(n))]
    hi = 1 if n > 6 else 3
    return [rng.randint(-hi, hi) for _ in range(l3(n))]


def area2(t):
    return (t[2] - t[0]) * (t[5] - t[1]) - (t[4] - t[0]) * (t[3] - t[1])


def triangle(rng, hi=10):
    while True:
        t = [rng.randint(-hi, hi) for _ in range(6)]
        if area2(t) > 0:
            return t


def case(rng, p):
    t = triangle(rng, rng.choice((2, 5, 10)))
    k, rot = rng.randrange(3), rng.randrange(3)
    a, b = ((k + 2) % 3, (k + 1) % 3)
    while True:
        ax, ay = rng.randint(-12, 12), rng.randint(-12, 12)
        if area2([t[2 * a], t[2 * a + 1], t[2 * b], t[2 * b + 1], ax, ay]) > 0:
            break
    lim = min(2 * p, 6)
    if p > 3 and rng.random() < 0.6:
        nf, ng, nw = rng.randint(3, p), rng.randint(0, 1), rng.randint(0, 1)
        if rng.random() < 0.3:
            nf, ng = ng, nf
    else:
        while True:
            nf, ng, nw = rng.randint(0, min(p, 3)), rng.randint(0, min(p, 3)), rng.randint(0, 4)
            if rng.random() < 0.4:
                ng = nf
            if nf + ng + nw <= lim:
                break
    kind = rng.choice(("unit", "mixed"))
    return {"p": p, "s": rng.choice((1.0, 1.0, 1 / 1024.0, 65536.0)), "t": t, "k": k, "ax": ax, "ay": ay, "rot": rot,
            "f": poly(rng, nf, kind), "g": poly(rng, ng, kind), "w": poly(rng, nw, kind), "n": (nf, ng, nw)}


def line(x):
    w = ["case", x["p"], "%.17g" % x["s"]] + x["t"] + [x["k"], x["ax"], x["ay"], x["rot"]]
    for n, c in zip(x["n"], (x["f"], x["g"], x["w"])):
        w += [n] + c
    return " ".join(map(str, w))


def record(x, o):
    nf, ng, nw = x["n"]
    A = area2(x["t"])
    n2 = lambda n: (n + 1) * (n + 2)
    d2 = lambda a, b: comb(a + b, a)
    d3 = lambda a, b, e: comb(a + b, a) * comb(a + b + e, e)
    dw = d2(nf - 1, nw) * n2(nf - 1 + nw) if nf else 1
    dg = d3(nf, ng - 1, nw) * n2(nf + ng - 1 + nw) if ng else 1
    q2, q3 = d2(nf, nw) * (nf + nw + 1), d3(nf, ng, nw) * (nf + ng + nw + 1)
    den = {"int": n2(nw), "phi": d2(nf, nw) * n2(nf + nw), "phiphi": d3(nf, ng, nw) * n2(nf + ng + nw), "l2": d2(nf, nf) * n2(2 * nf),
           "dphi": dw, "du": dw, "phidphi": dg, "dvert": 4, "survey": 3 ** nf, "vtkarea": 1,
           "lin": (nf + 1) * (nf + 2) * (nf + 3), "linint": (nf + 1) * n2(nf + 1), "lindx": A, "lindy": A, "lincentre": 3,
           "linmid": 2, "linvert": 1, "area": 2, "centre": 3, "mids": 2, "len2": 1, "radius2": 4 * A * A,
           "b_int": q2, "b_phi": q2, "b_phim": q2, "b_lam": q2, "b_phiphi": q3, "b_philam": q3, "b_lamlam": q3,
           "b_nodal": (nf + 1) * (nf + 2), "i_in": q3, "i_ex": q3, "i_phi": q3,
           "i_ppin": d3(nf, nf, nw) * (2 * nf + nw + 1), "i_ppex": d3(ng, ng, nw) * (2 * ng + nw + 1)}
    r = {k: x[k] for k in ("p", "t", "k", "ax", "ay", "rot", "f", "g", "w", "n")}
    for name, d in den.items():
        r[name] = [ratio(v, d) for v in o[name]]
    for name in ("repr", "proj", "minv", "high", "vtk", "linnode", "linlin", "lingp", "b_res", "i_res"):
        r[name] = tiny(o[name])
    r["inside"] = [int(v) for v in o["inside"]]
    r["b_nodes"] = [int(v) for v in o["b_nodes"]]
    r["i_nodes"] = [int(v) for v in o["i_nodes"]]
    return r


def check(c):
    h = c.harness("poly", flags=["-DRKDG_SUPPORT", "-DEHDG_SUPPORT"], opt="-O1")
    cfg = "SPECIFICATION Spec\nCONSTANTS D = %d Defect = \"%s\"\nINVARIANTS %s\n"
    models = [c.pool.submit(c.model, "PolyMC", consts=cfg % (3 if c.thorough else 2, "none", LAWS), workers=2, timeout=3000)]
    neg = {d: c.pool.submit(c.tlc, "PolyMC", consts=cfg % (1, d, i), workers=1, part="PolyMC_" + d)
           for d, i in (("gradient", "Parts"), ("edge", "TraceIsValue"), ("product", "ValuesMultiply"))}
    exe = h.result()
    xs = []
    for p in range(1, 11):
        n = (60 if p <= 3 else 14) * (12 if c.thorough else 1)
        xs += [case(c.rng, p) for _ in range(n)]
    o = c.run([exe], stdin=("rules\n" + "\n".join(line(x) for x in xs) + "\n").encode(), timeout=500)
    out = [json.loads(l) for l in o.stdout.decode().splitlines() if l.startswith("{")]
    XQ = [dict(y, v=[ratio(v, (y["p"] + 1) * (y["p"] + 2) if y["dim"] == 2 else y["p"] + 1, 1e-13) for v in y["v"]]) for y in out if "dim" in y]
    XB = [{"p": y["p"], "gram": tiny(y["gram"], 1e-13), "gram2": tiny(y["gram2"], 1e-13), "minvoff": tiny(y["minvoff"], 1e-13)} for y in out if "gram" in y]
    es = [y for y in out if "survey" in y]
    if len(es) != len(xs) or len(XQ) != 85 or len(XB) != 10:
        raise Violation("elements could not be built for some cases", "%d of %d" % (len(es), len(xs)))
    XE = [record(x, y) for x, y in zip(xs, es)]
    if c.thorough is False:
        c.log("largest residuals", sorted(((max(abs(v["f"]) for v in r[k]), k, r["p"]) for r in XE for k in r if k != "l2" or r["n"][0] == r["n"][1]
              if isinstance(r[k], list) and r[k] and isinstance(r[k][0], dict)), reverse=True)[:8],
              max((max(abs(v["f"]) for v in r["v"]), r["dim"], r["p"]) for r in XQ), max((max(abs(v["f"]) for v in r[k]), r["p"], k) for r in XB for k in ("gram", "gram2")))
    for m in models:
        m.result()
    for d, f in neg.items():
        if f.result()["ok"]:
            raise CheckError("the specification accepts the defective %s" % d)
    c.conform("PolyTrace", {"XQ": XQ, "XB": XB, "XE": XE}, len(XQ) + len(XB) + len(XE), timeout=3000,
              what="a quadrature rule, basis, element or face does not compute what the exact algebra of polynomials gives",
              consts="SPECIFICATION Spec\nCONSTANTS TolQ = 100 TolB = 1000 TolE = 10000\nINVARIANTS %s\n" % " ".join(INV))
    c.sample({k: XE[5][k] for k in ("p", "t", "f", "w", "phi", "du", "b_int")})
    c.assumptions += ["numbers are compared as exact rationals with an error of at most 1e-5 in units of the numerator (1e-11 for quadrature rules)",
                      "orders 1 to 10 (quadrature to 20 in triangles and 65 on edges), straight-sided counter-clockwise triangles with "
                      "integer corners scaled by 2^-10, 1 or 2^16",
                      "the spaces of polynomials are sampled by Bernstein basis polynomials and random combinations of them; the quadrature "
                      "rules and the bases are checked completely"]
