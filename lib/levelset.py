"""Random level set problems and an independent model of their steps."""
import numpy as np
import fierro as F, problems as P, ref_sgh as R, ref_rz as Z


def field(t, v, s, o, x):
    if t == "uniform":
        return np.full(len(x), v)
    if t == "radial":
        return s * np.sqrt(((x[:, :2] - np.array(o)[:2]) ** 2).sum(1)) - v * v
    if t == "spherical":
        return s * np.sqrt(((x - np.array(o)[:x.shape[1]]) ** 2).sum(1)) - v
    return s * x[:, "xyz".index(t[0])] + v


def lvl_problem(g, maxelem=64, steps=None):
    p = P.Problem()
    p.dim = g.pick([2, 3])
    if p.dim == 3:
        mesh, p.files, p.n, p.origin, p.length, p.x, p.conn, warped = P.mesh_choice(g, 6, True, maxelem)
        planar = not warped
        h = min(p.length[a] / p.n[a] for a in range(3))
    else:
        mesh, p.files, p.x, p.conn, p.origin, p.length, h, axis, kind = P.mesh_choice_2d(g, 8, maxelem, polar=g.chance(1, 6), below=True)
        planar = kind != "polar"
    p.nm = g.pick([1, 1, 2, 3])
    mats = []
    p.F, p.kap, p.on = [], [], []
    for m in range(p.nm):
        on = g.chance(4, 5) or m == 0
        f, k = g.pick([0.0, 1.0, 0.5, g.u(-1.5, 2)]), g.pick([0.0, 0.1])
        p.on.append(on); p.F.append(f); p.kap.append(k)
        mats.append({"material": {"id": m, "level_set_type": "evolve_front" if on else "no_level_set", "normal_velocity": f, "curvature_velocity": k}})
    xc = p.x[p.conn].mean(1)
    o, l = np.array(p.origin), np.array(p.length)
    lo, hi = p.x.min(0), p.x.max(0)
    p.phi, p.mat = np.zeros(len(xc)), np.zeros(len(xc), int)
    regs = []
    for r in range(g.i(1, 4)):
        m = g.i(0, p.nm - 1)
        if r == 0:
            vd, ins = {"type": "global"}, np.ones(len(xc), bool)
        else:
            b = []
            for a in range(3):
                if a < p.dim:
                    u = lo[a] + (hi - lo)[a] * g.u(-0.1, 0.9)
                    b.append((float(u), float(u + (hi - lo)[a] * g.u(0.1, 1.1))))
                else:
                    b.append((-1.0, 1.0))
            vd = {"type": "box", "x1": b[0][0], "x2": b[0][1], "y1": b[1][0], "y2": b[1][1], "z1": b[2][0], "z2": b[2][1]}
            ins = np.all([(xc[:, a] >= b[a][0]) & (xc[:, a] <= b[a][1]) for a in range(p.dim)], axis=0)
            if any((np.abs(xc[:, a] - v) < 1e-9 * (hi - lo).max()).any() for a in range(p.dim) for v in b[a]):
                g.discard()
        sc = float((hi - lo).max())
        t = g.pick(["uniform", "radial", "spherical", "x_linear", "y_linear", "spherical"] + (["z_linear"] if p.dim == 3 else []))
        org = tuple(float(lo[a] + (hi - lo)[a] * g.u(-0.2, 1.2)) if a < p.dim else 0.0 for a in range(3))
        v = g.u(-0.5, 0.5) * sc
        if t == "radial":
            v = np.sqrt(abs(v))
        s = g.pick([1.0, -1.0, 0.5, g.u(-2, 2)])
        ls = {"type": t, "value": float(v)}
        if t != "uniform":
            ls["slope"] = s
        if t in ("radial", "spherical"):
            ls["origin"] = org
        p.phi[ins] = field(t, v, s, org, xc)[ins]
        p.mat[ins] = m
        regs.append({"region": {"volume": vd, "material_id": m, "solver_id": 0, "level_set": ls, "volume_fraction": {"type": "uniform", "value": 1.0}}})
        g.label(t)
    bc, p.bcs = [], []
    if planar:
        for a in range(p.dim):
            for s in (0, 1):
                k = g.weighted([2, 3, 1, 1])
                if k:
                    pos = p.origin[a] + s * p.length[a]
                    model = (None, "reflected", "fixed", "constant")[k]
                    vv = [g.u(-1, 1) for _ in range(3)] if k == 3 else None
                    bc.append(F.plane_bc(a, pos, model, vv))
                    p.bcs.append((a, pos, model, vv))
    if not bc:
        bc = [F.plane_bc(0, p.origin[0] - 7.7 * p.length[0])]
    p.rk = g.pick([2, 2, 1, 3])
    vmax = 1.5 + max([abs(f) for f in p.F])
    p.dt = g.pick([0.1, 0.4, 0.02]) * h / vmax
    p.steps = steps if steps is not None else g.i(2, 12)
    dyn = {"time_final": p.dt * p.steps - 1e-3 * p.dt, "dt_min": p.dt, "dt_max": p.dt, "dt_start": p.dt, "dt_cfl": 0.4, "cycle_stop": 2000000, "rk_num_stages": p.rk, "tiny": 1e-3 * p.dt}
    if g.chance(1, 3):
        dyn["small"], dyn["fuzz"] = 1e-6, 1e-14
    p.deck = {"dynamic_options": dyn, "mesh_options": mesh,
              "output_options": {"timer_output_level": "thorough", "output_file_format": "viz", "graphics_time_step": 1e30, "graphics_iteration_step": 1,
                                 "gauss_pt_field_outputs": ["level_set", "volume"], "node_field_outputs": ["coords", "grad_level_set"]},
              "solver_options": [{"solver": {"method": "level_set", "id": 0}}], "boundary_conditions": bc, "materials": mats, "regions": regs}
    return p


class Model:
    def __init__(self, p):
        self.p = p
        d = p.deck["dynamic_options"]
        self.small, self.fuzz = d.get("small", 1e-8), d.get("fuzz", 1e-16)
        x, c = p.x, p.conn
        if p.dim == 3:
            self.vol, self.N = P.hex_vol(x, c), -P.hex_bmat(x, c)
            bf = np.array(R.boundary_faces(c))
            self.len = 2.0 * np.cbrt(self.vol)
        else:
            self.vol, self.N = P.quad_area(x, c), -Z.bmat(x, c)
            bf = np.array(Z.boundary_edges(c))
            self.len = 2.0 * np.sqrt(self.vol)
        self.nv = np.zeros(len(x))
        np.add.at(self.nv, c, np.repeat(self.vol[:, None] / c.shape[1], c.shape[1], 1))
        self.tags = []
        for a, pos, model, v in p.bcs:
            f = bf[(np.abs(x[:, a] - pos) <= 1e-7)[bf].all(1)]
            self.tags.append((a, model, v, np.unique(f)))
        self.el = [np.where(p.mat == m)[0] for m in range(p.nm)]
        self.F = np.array(p.F)[p.mat]
        self.on = np.array(p.on)[p.mat]

    def step(self, phi, dt, amb=None):
        """new values, gradient at the nodes in the last stage, and whether an undecided branch was met"""
        p, c = self.p, self.p.conn
        amb = np.zeros(len(c), bool) if amb is None else amb.copy()
        n0 = phi.copy()
        for s in range(p.rk):
            a = 1.0 / (p.rk - s)
            if amb.any():
                # what an undecided element becomes spreads to its neighbours in the next stage
                t = np.zeros(len(p.x), bool)
                t[c[amb]] = True
                amb |= t[c].any(1)
            G = np.zeros_like(p.x)
            np.add.at(G, c, self.N * phi[:, None, None])
            G /= self.nv[:, None]
            mag = np.sqrt((G ** 2).sum(1))
            V = G / (mag + self.fuzz)[:, None]
            big = max(np.abs(phi).max() / self.nv.max() ** (1.0 / p.dim), 1e-300)
            bad = mag < 1e-6 * big
            zero = np.zeros(V.shape, bool)      # components a condition has made zero
            for _ in range(sum(p.on)):
                for ax, model, v, nodes in self.tags:
                    if model == "reflected":
                        V[nodes, ax] = 0.0
                        zero[nodes, ax] = True
                    elif model == "fixed":
                        V[nodes] = 0.0
                        zero[nodes] = True
                    else:
                        V[nodes] = v[:p.dim]
                        zero[nodes] = False
                    m = np.sqrt((V[nodes] ** 2).sum(1))
                    # the rest may be nothing but rounding, which the normalisation then blows up
                    bad[nodes[(m < 1e-5) & ~zero[nodes].all(1)]] = True
                    V[nodes] /= (m + self.small)[:, None]
            H = (V * G).sum(1)
            sg = phi / np.sqrt(phi * phi + self.len ** 2)
            w = np.maximum(0.0, (self.F + sg)[:, None] * np.einsum("eki,eki->ek", V[c], self.N))
            sw = w.sum(1)
            scale = np.abs(self.N).sum(axis=(1, 2))
            amb |= (bad[c].any(1) | (sw < 1e-5 * scale)) & self.on
            amb |= self.on & (np.abs(self.F + sg) < 1e-9)
            E = (w * H[c]).sum(1) / (sw + self.fuzz)
            new = n0 - a * dt * (self.F * E + sg * (E - 1.0))
            phi = np.where(self.on, new, phi)
        return phi, G, amb
