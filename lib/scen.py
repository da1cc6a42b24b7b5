"""Scenarios shared by the whole-run checks: meshes, beds and flow states."""
import math
import gen


def rough(rng, d=5.0, a=2.0):
    tab = {}

    def f(x, y):
        k = (round(x, 6), round(y, 6))
        if k not in tab:
            tab[k] = d + rng.uniform(-a, a)
        return tab[k]
    return f


def holed(rng, bath=None, n=4, L=4000.0):
    """A square with an island in the middle."""
    m = gen.grid(n, n, L, L, bath=bath, pattern=2)
    drop = set()
    a, b = n // 2 - 1, n // 2
    for e, (i, t) in enumerate(m.elems):
        cx = sum(m.nodes[k][0] for k in t) / 3 / (L / n)
        cy = sum(m.nodes[k][1] for k in t) / 3 / (L / n)
        if a < cx < b + (n > 4) and a < cy < b:
            drop.add(i)
    m.elems = [(i, t) for i, t in m.elems if i not in drop]
    used = {k for _, t in m.elems for k in t}
    m.nodes = {k: v for k, v in m.nodes.items() if k in used}
    loop = m.boundary_loop()
    outer = [e for e in loop if all(abs(m.nodes[k][0] - L / 2) > L / 2 - 1 or abs(m.nodes[k][1] - L / 2) > L / 2 - 1 for k in e)]
    inner = [e for e in loop if e not in outer]
    for ch in m.chains(outer):
        m.land.append((0, ch))
    nxt = dict(inner)
    s = inner[0][0]
    ch = [s]
    while True:
        n_ = nxt[ch[-1]]
        if n_ == s:
            break
        ch.append(n_)
    m.land.append((21, ch))
    return m


def closed_meshes(rng, bath=None, L=4000.0):
    """Named basins enclosed by land."""
    r = {}
    b = bath or rough(rng)
    r["strip"] = gen.walls(gen.grid(3, 1, L, L / 3, bath=b, pattern=0))
    r["jit"] = gen.walls(gen.grid(3, 3, L, L, bath=b, pattern=2, jitter=0.25, rng=rng))
    r["skew"] = gen.walls(gen.grid(3, 2, L, L / 2, bath=b, pattern=1, jitter=0.2, rng=rng).map_xyz(
        lambda x, y, z: (x + 0.4 * y, y - 0.2 * x, z)))
    r["island"] = holed(rng, bath=b, L=L)
    return r


def shuffled(m, rng, rotate=True):
    """Same mesh, elements listed in another order with rotated node triples."""
    m = m.clone()
    rng.shuffle(m.elems)
    if rotate:
        m.elems = [(i, t[k:] + t[:k]) for (i, t), k in zip(m.elems, [rng.randrange(3) for _ in m.elems])]
    return m


def rand_ic(m, rng, aze=0.3, aq=1.0, base=0.0, cont=False, hmin=None):
    """Vertex values (ze,qx,qy) per element, discontinuous between elements unless cont."""
    nod = {n: (base + rng.uniform(-aze, aze), rng.uniform(-aq, aq), rng.uniform(-aq, aq)) for n in m.nodes}
    ic = {}
    for i, t in m.elems:
        v = []
        for n in t:
            v += list(nod[n]) if cont else [base + rng.uniform(-aze, aze), rng.uniform(-aq, aq), rng.uniform(-aq, aq)]
        if hmin is not None:
            for k, n in enumerate(t):
                v[3 * k] = max(v[3 * k], hmin - m.nodes[n][2])
        ic[i] = v
    return ic


def area(m, t):
    (x0, y0, _), (x1, y1, _), (x2, y2, _) = (m.nodes[k] for k in t)
    return ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2


WD = "wetting_drying:\n  h_o: %s"
SL = "slope_limiting:\n  type: Cockburn-Shu\n  M: 1e-8\n  nu: 1.5\n"


def forced(rng, nx=3, ny=2, L=3000.0, pattern=2, ncon=2, flow=True, tide=True, amp=0.3, qamp=0.5, bath=None, jitter=0.2):
    """Tide on the left, inflow on the right, land elsewhere, with per-node amplitudes and phases."""
    m = gen.walls(gen.grid(nx, ny, L, L * ny / nx, bath=bath or rough(rng, 6, 2), pattern=pattern, jitter=jitter, rng=rng),
                  l="tide" if tide else "land", r="flow" if flow else "land")

    def cons(nodes, a):
        return [(rng.uniform(1e-3, 5e-2), rng.uniform(0.5, 1.0), rng.uniform(0, 360),
                 {n: (rng.uniform(0.2 * a, a), rng.uniform(0, 360)) for n in nodes}) for _ in range(ncon)]
    if tide:
        m.bcis.append(("tide", cons(m.sides["l"], amp)))
    if flow:
        m.bcis.append(("flow", cons(m.sides["r"], qamp)))
    return m


def beach(rng, L=400.0, hi=0.8, lo=-0.2, noise=0.03):
    t = rough(rng, 0.0, noise)
    return lambda x, y: hi + (lo - hi) * x / L + t(x, y)


def vary_levee(m, rng, dH=0.3, dC=0.3):
    """Crest and coefficients different at every node of each levee; section order and sides chosen at random."""
    lv = []
    for ib, s in m.levees:
        s = [(a, b, h + rng.uniform(-dH, dH) * abs(h), c1 * (1 + rng.uniform(-dC, 0)), c2 * (1 + rng.uniform(-dC, 0)))
             for a, b, h, c1, c2 in s]
        if rng.random() < 0.5:
            s = s[::-1]
        if rng.random() < 0.5:
            s = [(p[1], p[0]) + p[2:] for p in s]
        lv.append((ib, s))
    m.levees = lv
    return m
