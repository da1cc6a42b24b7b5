"""Inputs for the program: meshes (ADCIRC fort.14), boundary data (.bcis), run configurations (.yaml)."""
import copy, math, os


class Mesh:
    def __init__(self):
        self.nodes = {}     # id -> (x, y, z)       z: depth (positive down)
        self.elems = []     # (id, [n0,n1,n2]) counter-clockwise
        self.open = []      # list of node lists (tide)
        self.land = []      # list of (ibtype, node list)
        self.levees = []    # list of (ibtype, [(front, back, H, Csub, Csup)])
        self.bcis = []      # list of ("tide"|"flow", [(freq, fact, eqarg, {node: (amp, phase)})])

    def clone(self):
        return copy.deepcopy(self)

    def edges(self):
        e = {}
        for i, n in self.elems:
            for k in range(3):
                e.setdefault(tuple(sorted((n[(k + 1) % 3], n[(k + 2) % 3]))), []).append((i, k))
        return e

    def boundary_loop(self):
        """Boundary edges as directed (a,b), interior on the left."""
        e = self.edges()
        r = []
        for i, n in self.elems:
            for k in range(3):
                a, b = n[(k + 1) % 3], n[(k + 2) % 3]
                if len(e[tuple(sorted((a, b)))]) == 1:
                    r.append((a, b))
        return r

    def chains(self, edges):
        """Join directed edges into node chains (open) - closed loops are split so that first != last."""
        nxt = {}
        for a, b in edges:
            nxt.setdefault(a, []).append(b)
        indeg = {}
        for a, b in edges:
            indeg[b] = indeg.get(b, 0) + 1
        starts = [a for a, b in edges if not indeg.get(a)]
        res, used = [], set()
        left = list(edges)

        def walk(s):
            ch = [s]
            while True:
                c = ch[-1]
                o = [b for b in nxt.get(c, []) if (c, b) not in used]
                if not o:
                    return ch
                used.add((c, o[0]))
                ch.append(o[0])
                if o[0] == s:
                    return ch
        for s in starts:
            res.append(walk(s))
        for a, b in left:
            if (a, b) not in used:
                ch = walk(a)
                # closed loop: split in two chains
                m = len(ch) // 2
                res += [ch[:m + 1], ch[m:]]
        return [c for c in res if len(c) > 1]

    def fort14(self, name="grid", prec=15, generic=None, neta=None, nvel=None, blank=False):
        f = "%%.%dg" % prec
        o = [name, "%d %d" % (len(self.elems), len(self.nodes))]
        for i, (x, y, z) in self.nodes.items():
            o.append("%d %s %s %s" % (i, f % x, f % y, f % z))
        for i, n in self.elems:
            o.append("%d 3 %d %d %d" % (i, n[0], n[1], n[2]))
        o.append("%d = NOPE" % len(self.open))
        o.append("%d = NETA" % sum(map(len, self.open)))
        for s in self.open:
            o.append("%d" % len(s))
            o += [str(n) for n in s]
        o.append("%d = NBOU" % (len(self.land) + len(self.levees)))
        o.append("%d = NVEL" % (sum(len(s) for _, s in self.land) + sum(2 * len(s) for _, s in self.levees)))
        secs = []
        for ib, s in self.land:
            secs.append(["%d %d" % (len(s), ib)] + [str(n) for n in s])
        for ib, s in self.levees:
            secs.append(["%d %d" % (len(s), ib)] + ["%d %d %s %s %s" % (a, b, f % h, f % c1, f % c2) for a, b, h, c1, c2 in s])
        for k in getattr(self, "secperm", range(len(secs))):
            o += secs[k]
        if generic is not None:
            o.append("%d = NGEN" % len(generic))
            o.append("%d = NNGN" % sum(map(len, generic)))
            for s in generic:
                o.append("%d" % len(s))
                o += [str(n) for n in s]
        return "\n".join(o) + "\n"

    def bcis_text(self):
        o = []
        for ty, cons in self.bcis:
            n = len(cons[0][3])
            gap = getattr(self, "gaps", None)          # blank lines between the blocks
            if gap and gap.random() < 0.4:
                o.append(gap.choice(["", "  "]))
            o.append("%d %d" % (1 if ty == "tide" else 2, n))
            o.append("%d" % len(cons))
            for fr, fa, eq, nd in cons:
                o.append("%.17g %.17g %.17g" % (fr, fa, eq))
                for i, (a, p) in nd.items():
                    o.append("%d %.17g %.17g" % (i, a, p))
        for ib, s in self.levees:
            o.append("%d %d" % (INTERNAL_LEVEE, len(s)))
            for a, b, h, c1, c2 in s:
                o.append("%d %d %.17g %.17g %.17g" % (a, b, h, c1, c2))
        return "\n".join(o) + ("\n" if o else "") + ("\n" if getattr(self, "gaps", None) else "")

    def needs_bcis(self):
        return bool(self.bcis or self.levees)

    def map_xyz(self, f):
        m = self.clone()
        m.nodes = {i: f(*p) for i, p in self.nodes.items()}
        return m


INTERNAL_LEVEE = 129


def grid(nx, ny, lx=1.0, ly=1.0, x0=0.0, y0=0.0, pattern=0, bath=None, jitter=0.0, rng=None, nid=1, eid=1):
    """Structured triangulation with optional interior jitter; all boundary edges land (ibtype 0)."""
    m = Mesh()
    idx = {}
    k = nid
    for j in range(ny + 1):
        for i in range(nx + 1):
            x, y = x0 + lx * i / nx, y0 + ly * j / ny
            if jitter and 0 < i < nx and 0 < j < ny:
                x += rng.uniform(-jitter, jitter) * lx / nx
                y += rng.uniform(-jitter, jitter) * ly / ny
            m.nodes[k] = (x, y, bath(x, y) if bath else 1.0)
            idx[i, j] = k
            k += 1
    e = eid
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]
            p = pattern if pattern < 2 else (i + j) % 2
            ts = [(a, b, c), (a, c, d)] if p == 0 else [(a, b, d), (b, c, d)]
            for t in ts:
                m.elems.append((e, list(t)))
                e += 1
    sides = {"b": [idx[i, 0] for i in range(nx + 1)], "r": [idx[nx, j] for j in range(ny + 1)],
             "t": [idx[i, ny] for i in range(nx, -1, -1)], "l": [idx[0, j] for j in range(ny, -1, -1)]}
    m.sides = sides
    m.idx = idx
    return m


def walls(m, **kw):
    """Sides -> types. kw: b,r,t,l in {'land','tide','flow','out','func','island'}; default land."""
    for s in "brtl":
        ty = kw.get(s, "land")
        ch = m.sides[s]
        if ty == "tide":
            m.open.append(list(ch))
        else:
            m.land.append(({"land": 0, "flow": 2, "out": 88, "func": 77, "island": 1}[ty], list(ch)))
    return m


def levee_grid(nx, ny, col, lx, ly, gap=0.0, H=1.0, Csub=1.0, Csup=1.0, bath=None, pattern=0, jitter=0.0, rng=None,
               Hf=None):
    """Two structured blocks separated by a vertical levee after column `col`; front side = left block."""
    m = Mesh()
    idx = {}
    k = 1

    def node(x, y):
        nonlocal k
        m.nodes[k] = (x, y, bath(x, y) if bath else 1.0)
        k += 1
        return k - 1
    dx, dy = lx / nx, ly / ny
    for j in range(ny + 1):
        for i in range(nx + 1):
            x, y = dx * i, dy * j
            if jitter and 0 < i < nx and 0 < j < ny and i != col:
                x += rng.uniform(-jitter, jitter) * dx
                y += rng.uniform(-jitter, jitter) * dy
            if i > col:
                x += gap
            idx["L" if i <= col else "R", i, j] = node(x, y)
    for j in range(ny + 1):
        idx["R", col, j] = node(dx * col + gap, dy * j)
    e = 1
    for j in range(ny):
        for i in range(nx):
            s = "L" if i < col else "R"
            a, b, c, d = idx[s, i, j], idx[s, i + 1, j], idx[s, i + 1, j + 1], idx[s, i, j + 1]
            p = pattern if pattern < 2 else (i + j) % 2
            for t in ([(a, b, c), (a, c, d)] if p == 0 else [(a, b, d), (b, c, d)]):
                m.elems.append((e, list(t)))
                e += 1
    m.land = [(0, [idx["L", i, 0] for i in range(col + 1)]), (0, [idx["R", i, 0] for i in range(col, nx + 1)]),
              (0, [idx["R", nx, j] for j in range(ny + 1)]),
              (0, [idx["R", i, ny] for i in range(nx, col - 1, -1)]),
              (0, [idx["L", i, ny] for i in range(col, -1, -1)]), (0, [idx["L", 0, j] for j in range(ny, -1, -1)])]
    m.levees = [(24, [(idx["L", col, j], idx["R", col, j], Hf(dy * j) if Hf else H, Csub, Csup)
                      for j in range(ny + 1)])]
    m.idx = idx
    return m


def yaml_cfg(mesh_file, mesh_name="m", dt=1.0, nsteps=2, nstages=2, order=2, p=1, problem="rkdg_swe", extra="", ic=None,
             out=None, sections="", fmt="Adcirc", ramp=0, g=None, name="m", coord="cartesian", end=None):
    """ic: (ze,qx,qy) or None. end: run time in seconds overriding nsteps*dt."""
    secs = end if end is not None else int(round(nsteps * dt))
    secs = int(secs)
    d, r = divmod(secs, 86400)
    h, r = divmod(r, 3600)
    mi, s = divmod(r, 60)
    o = ["mesh:", "  format: " + fmt, "  file_name: " + mesh_file, "  coordinate_system: " + coord, "timestepping:",
         "  start_time: 01-01-2000 00:00:00",
         "  end_time: %02d-01-2000 %02d:%02d:%02d" % (1 + d, h, mi, s), "  dt: %.17g" % dt, "  order: %d" % order,
         "  nstages: %d" % nstages]
    if ramp:
        o.append("  ramp_duration: %.17g" % ramp)
    o += ["polynomial_order: %d" % p, "problem:", "  name: " + problem]
    if g is not None:
        o.append("  gravity: %.17g" % g)
    if ic:
        o += ["  initial_conditions:", "    type: Constant", "    initial_surface_height: %.17g" % ic[0],
              "    initial_momentum_x: %.17g" % ic[1], "    initial_momentum_y: %.17g" % ic[2]]
    o += [("  " + l) if l else l for l in sections.splitlines()]
    if out:
        o += ["output:"] + ["  " + l for l in out.splitlines()]
    return "\n".join(o) + "\n" + extra
