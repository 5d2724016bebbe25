"""Random heat conduction problems and an independent model of their time steps."""
import numpy as np
import fierro as F, problems as P, ref_sgh as R

PATH = [(0.0, 100.0, 150.0, 15.0, 3e6), (5.0, 200.0, 150.0, 15.0, 4e6), (5.0, 100.0, 150.0, 30.0, 4e6), (10.0, 200.0, 150.0, 30.0, 3e6)]


def interp(rows, x, col):
    """linear between rows, constant outside"""
    if x <= rows[0][0]:
        return rows[0][col]
    if x >= rows[-1][0]:
        return rows[-1][col]
    for a, b in zip(rows, rows[1:]):
        if a[0] <= x <= b[0]:
            if a[0] == b[0]:
                return a[col]
            s = (x - a[0]) / (b[0] - a[0])
            return (1.0 - s) * a[col] + s * b[col]


def table_file(g, tabs):
    """tables as a materials file: value, temperature; keywords in any case, comments, blank lines and other blocks between"""
    blocks = []
    for key, rows in tabs:
        k = g.pick([key, key.lower(), key.upper(), "  " + key, key + ", TYPE=ISO"])
        b = k + "\n"
        if g.flip():
            b += "** Unit: whatever, 1.0\n"
        for t, v in rows:
            b += g.pick(["%.17g,%.17g", "%.17g, %.17g", "  %.17g ,  %.17g,", "%.17g,%.17g,"]) % (v, t) + "\n"
            if g.chance(1, 6):
                b += g.pick(["\n", "** note 5,6\n"])
        blocks.append(b)
    other = "*ELASTIC\n1.0, 2.0\n3.0,4.0\n"
    blocks = [blocks[i] for i in g.perm(len(blocks))]
    if g.flip():
        blocks.insert(g.i(0, len(blocks)), other)
    return "***Mat_MetaData\n** MATERIALS\n*MATERIAL, NAME=m\n" + "".join(blocks)


def heat_problem(g, maxelem=36, steps=None, moving=None):
    p = P.Problem()
    mesh, p.files, p.n, p.origin, p.length, p.x, p.conn, warped = P.mesh_choice(g, 4, True, maxelem)
    p.moving = g.chance(1, 4) if moving is None else moving
    if p.moving:
        # the tool path is fixed in space: move a box mesh there
        p.n = [g.i(1, 4) for _ in range(3)]
        p.length = [g.u(4, 40), g.u(4, 30), g.u(4, 40)]
        p.origin = [g.pick([100.0 - p.length[0] * g.real(0, 1), g.u(90, 190)]), 150.0 - p.length[1] * g.real(0, 1), g.pick([15.0, 30.0]) - p.length[2] * g.real(0, 1)]
        if g.chance(1, 6):
            p.origin = [-0.5 * q for q in p.length]
        mesh = F.box_mesh(p.n, p.origin, p.length)
        p.files = {}
        n, o, l = p.n, p.origin, p.length
        p.x = np.array([[o[0] + l[0] / n[0] * i, o[1] + l[1] / n[1] * j, o[2] + l[2] / n[2] * k] for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)])
        nid = lambda i, j, k: i + (n[0] + 1) * (j + (n[1] + 1) * k)
        p.conn = np.array([[nid(i + a, j + b, k + c) for c in (0, 1) for b in (0, 1) for a in (0, 1)] for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])
        warped = False
    nm = p.nm = 1 if p.moving else g.pick([1, 1, 2, 3])
    mats = [F.gas(m, 1.4, 1e-14, list(F.MARS)) for m in range(nm)]
    p.tables = None
    if p.moving:
        rows = lambda lo, hi: [(t, g.u(lo, hi)) for t in sorted({round(g.u(200, 1500), 3) for _ in range(g.i(1, 6))})]
        p.tables = [("*Density", rows(1, 10)), ("*CONDUCTIVITY", rows(0.1, 1)), ("*SPECIFIC HEAT", rows(1, 5))]
        p.files["mat.inp"] = table_file(g, p.tables)
        mats[0]["material"] = dict({"id": 0, "tabular_model": {"type": "temperature_dependent", "file_format": "Abaqus_jmatpro", "tabular_data": "mat.inp",
                                                            "fields": [["density", "thermal_conductivity", "specific_heat"][i] for i in g.perm(3)]}}, **mats[0]["material"])
    xc = p.x[p.conn].mean(1)
    o, l = np.array(p.origin), np.array(p.length)
    sc = float(max(l))
    hs = [l[a] / p.n[a] for a in range(3)]
    kmax, rcmin, rcmin_den = 0.0, 1e300, 1e300
    regs, p.mat, p.k, p.cp, p.den, p.T = [], np.zeros(len(xc), int), np.zeros(len(xc)), np.zeros(len(xc)), np.zeros(len(xc)), np.zeros(len(p.x))
    Te = np.zeros(len(xc))
    for r in range(g.i(1, 7)):
        m = g.i(0, nm - 1)
        if r == 0:
            vd, ins = {"type": "global"}, np.ones(len(xc), bool)
        else:
            b = []
            for a in range(3):
                u = o[a] + l[a] * g.u(-0.1, 0.9)
                b.append((float(u), float(u + l[a] * g.u(0.1, 1.1))))
            vd = {"type": "box", "x1": b[0][0], "x2": b[0][1], "y1": b[1][0], "y2": b[1][1], "z1": b[2][0], "z2": b[2][1]}
            ins = np.all([(xc[:, a] >= b[a][0]) & (xc[:, a] <= b[a][1]) for a in range(3)], axis=0)
            if any((np.abs(xc[:, a] - v) < 1e-9 * sc).any() for a in range(3) for v in b[a]):
                g.discard()
        k, cp, den, T = g.pick([1.0, g.u(0.1, 5)]), g.pick([1.0, g.u(0.2, 5)]), g.pick([1.0, g.u(0.2, 5)]), g.pick([300.0, 1000.0, g.u(1, 1500)])
        p.mat[ins], p.k[ins], p.cp[ins], p.den[ins], Te[ins] = m, k, cp, den, T
        kmax, rcmin, rcmin_den = max(kmax, k), min(rcmin, den * cp), min(rcmin_den, den)
        regs.append(F.region(m, vd, den, 1e-10, (0.0, 0.0, 0.0), thermal_conductivity=F.uni(k), specific_heat=F.uni(cp), temperature=F.uni(T)))
    for e, c in enumerate(p.conn):
        p.T[c] = Te[e]
    p.bcs, bc = [], []
    iso = g.chance(1, 6)
    for a in range(3):
        for s in (0, 1):
            q = 0 if iso else g.weighted([3, 2, 2, 2, 1])
            pos = p.origin[a] + s * p.length[a]
            for kind in ((), ("constant",), ("convection",), ("radiation",), ("convection", "radiation"))[q]:
                b = {"solver_id": 0, "surface": {"type": "xyz"[a] + "_plane", "plane_position": pos}, "temperature_model": kind}
                v = None
                if kind == "constant":
                    v = [g.pick([1000.0, 300.0, g.u(1, 2000)])]
                elif kind == "convection" and g.chance(5, 6):
                    v = [g.pick([293.15, g.u(1, 1000)]), g.pick([100.0, 1.0, g.u(0, 5)])]
                if v:
                    b["temperature_bc_global_vars"] = v
                p.bcs.append((a, pos, kind, v))
                bc.append({"boundary_condition": b})
                g.label(kind)
    if not bc:
        bc = [{"boundary_condition": {"solver_id": 0, "surface": {"type": "x_plane", "plane_position": p.origin[0] - 7.7 * p.length[0]}, "temperature_model": "radiation"}}]
        g.label("isolated")
    h = min(hs)
    if p.moving:
        kmax, rcmin = 1.0, rcmin_den
    p.dt = g.pick([0.05, 0.02, 0.3]) * h * h * rcmin / (6 * kmax) * (0.3 if warped else 1.0)
    hf = max([b[3][1] if b[3] else 100.0 for b in p.bcs if "convection" in b[2]] + [0.0])
    if any("radiation" in b[2] for b in p.bcs):
        hf += 400.0
    if hf > 0:
        p.dt = min(p.dt, 0.05 * h * rcmin / hf)
    if p.moving:
        p.dt = min(p.dt, g.pick([0.05, 0.3, 0.7, 1.1]))
    p.rk = g.pick([2, 2, 1, 3])
    p.steps = steps if steps is not None else g.i(2, 12)
    dyn = {"time_final": p.dt * p.steps - 1e-3 * p.dt, "dt_min": p.dt, "dt_max": p.dt, "dt_start": p.dt, "dt_cfl": 0.4, "cycle_stop": 2000000, "rk_num_stages": p.rk, "tiny": 1e-3 * p.dt}
    sol = {"method": "thrmex_FE", "id": 0}
    if p.moving or g.chance(1, 4):
        sol["use_moving_heat_source"] = p.moving
    p.deck = {"dynamic_options": dyn, "mesh_options": mesh, "output_options": F.output_options(node_field_outputs=["coords", "vel", "mass", "temp"], gauss_pt_field_outputs=["volume"]),
              "solver_options": [{"solver": sol}], "boundary_conditions": bc, "materials": mats, "regions": regs}
    p.deck["output_options"]["graphics_iteration_step"] = 1
    return p


class Model:
    def __init__(self, p):
        self.p = p
        self.vol = P.hex_vol(p.x, p.conn)
        self.B = P.hex_bmat(p.x, p.conn)
        self.mass = np.zeros(len(p.x))
        np.add.at(self.mass, p.conn, np.repeat((p.den * self.vol / 8.0)[:, None], 8, 1))
        self.k, self.cp, self.den = p.k.copy(), p.cp.copy(), p.den.copy()
        bf = np.array(R.boundary_faces(p.conn))
        self.sets = []
        for a, pos, kind, v in p.bcs:
            on = np.abs(p.x[:, a] - pos) <= 1e-7
            f = bf[on[bf].all(1)]
            q = p.x[f]
            self.sets.append((kind, v, f, 0.5 * np.sqrt((np.cross(q[:, 2] - q[:, 0], q[:, 3] - q[:, 1]) ** 2).sum(1)) if len(f) else np.zeros(0)))
        self.t = 0.0
        self.amb = False
        self.heated = False

    def fix(self, T):
        for kind, v, f, area in self.sets:
            if kind == "constant":
                T[np.unique(f)] = v[0]
        return T

    def lookup(self, T):
        """material properties from the tables, once at the start"""
        av = T[self.p.conn].mean(1)
        for name, (key, rows) in zip(("den", "k", "cp"), self.p.tables):
            setattr(self, name, np.array([interp(rows, q, 1) for q in av]))

    def nodal_cp(self):
        c, n = np.zeros(len(self.p.x)), np.zeros(len(self.p.x))
        np.add.at(c, self.p.conn, np.repeat(self.cp[:, None], 8, 1))
        np.add.at(n, self.p.conn, 1.0)
        return c / n

    def step(self, T, dt=None):
        p = self.p
        if dt is None:
            dt = min(p.dt, p.deck["dynamic_options"]["time_final"] - self.t + p.deck["dynamic_options"]["tiny"])
        T0 = T.copy()
        cap = self.mass * self.nodal_cp()
        src = np.zeros(len(T))
        if p.moving:
            pos = np.array([interp(PATH, self.t, c) for c in (1, 2, 3)])
            w = interp(PATH, self.t, 4)
            d2 = ((p.x[p.conn].mean(1) - pos) ** 2).sum(1)
            self.amb = self.amb or (np.abs(d2 - 64.0) < 1e-6).any() or abs(self.t - 5.0) < 1e-6
            el = d2 <= 64.0
            self.heated = self.heated or el.any()
            np.add.at(src, p.conn[el], np.repeat((w / (4.0 / 3 * 3.14159 * 512.0) * 0.125 * self.vol[el])[:, None], 8, 1))
        for s in range(p.rk):
            a = 1.0 / (p.rk - s)
            grad = np.einsum("ek,eki->ei", T[p.conn], self.B) / self.vol[:, None]
            q = src.copy()
            np.add.at(q, p.conn, np.einsum("ei,eki->ek", -self.k[:, None] * grad, self.B))
            for kind, v, f, area in self.sets:
                if len(f) and kind == "convection":
                    ref, hf = v if v else (293.15, 100.0)
                    np.add.at(q, f, -hf * (T[f] - ref) * area[:, None] / 4.0)
                elif len(f) and kind == "radiation":
                    np.add.at(q, f, -0.2 * 5.67037442e-8 * T[f] ** 4 * area[:, None] / 4.0)
            T = self.fix(T0 + a * dt * q / cap)
        self.t += dt
        return T
