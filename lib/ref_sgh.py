"""Reference model of one step of the staggered-grid hydrodynamics scheme (3D, one-point hexahedra), written from the
published scheme (SGH with MARS dissipation) in numpy, independently of the program's loops."""
import numpy as np
import problems as P


def neighbours(conn):
    """elements that share a node, per element (the program's elems_in_elem)"""
    by = {}
    for e, c in enumerate(conn):
        for n in c:
            by.setdefault(n, set()).add(e)
    return [sorted(set().union(*[by[n] for n in c]) - {e}) for e, c in enumerate(conn)]


def face_neighbours(conn):
    faces = ([0, 2, 4, 6], [1, 3, 5, 7], [0, 1, 4, 5], [2, 3, 6, 7], [0, 1, 2, 3], [4, 5, 6, 7])
    by = {}
    for e, c in enumerate(conn):
        for f in faces:
            by.setdefault(tuple(sorted(c[f])), []).append(e)
    out = [[] for _ in conn]
    for l in by.values():
        if len(l) == 2:
            out[l[0]].append(l[1]); out[l[1]].append(l[0])
    return [sorted(set(o)) for o in out]


FACES = ([0, 2, 6, 4], [1, 5, 7, 3], [0, 4, 5, 1], [2, 3, 7, 6], [0, 1, 3, 2], [4, 6, 7, 5])


def boundary_faces(conn):
    """outward-oriented boundary faces (lists of node ids)"""
    by = {}
    # orientation: outward for an element with ijk node order
    fo = ([0, 4, 6, 2], [1, 3, 7, 5], [0, 1, 5, 4], [2, 6, 7, 3], [0, 2, 3, 1], [4, 5, 7, 6])
    for e, c in enumerate(conn):
        for f in fo:
            by.setdefault(tuple(sorted(c[f])), []).append(list(c[f]))
    return [l[0] for l in by.values() if len(l) == 1]


class Mat:
    """decoupled gamma-law gas, void or linear elastic (bulk modulus, shear modulus, reference density), with or without
    an elastic-plastic deviator (shear modulus, yield stress)"""

    def __init__(self, gamma, csmin=1e-14, mars=None, directional=False, void=False, erode=None, elastic=None, strength=None):
        self.gamma, self.csmin, self.mars, self.directional, self.void, self.erode = gamma, csmin, mars, directional, void, erode
        self.elastic, self.strength = elastic, strength

    def pressure(self, den, sie):
        if self.elastic:
            return self.elastic[0] * (den / self.elastic[2] - 1.0)
        return 0.0 * den if self.void else (self.gamma - 1.0) * sie * den

    def sspd(self, den, sie):
        if self.elastic:
            return np.fmax(np.sqrt((self.elastic[0] + 4.0 / 3.0 * self.elastic[1]) / den), self.csmin)
        if self.void:
            return 0.0 * den + 1e-32
        with np.errstate(invalid="ignore"):
            v = np.sqrt(self.gamma * (self.gamma - 1.0) * sie)
        return np.fmax(v, self.csmin)


class State:
    """x, v: nodes; per material: el (elements), mass, sie, vf (volume fraction product); node mass mn"""
    pass


def from_snap(s, mats, elems_of_mat):
    st = State()
    st.x, st.v, st.mn, st.conn = s.x.copy(), s.f["node_vel"].copy(), s.f["node_mass"].copy(), s.conn
    st.m = []
    for k, m in enumerate(mats):
        d = s.mats.get(k)
        q = State()
        q.el = elems_of_mat[k]
        if d is None or not len(q.el):
            q.el = np.zeros(0, int)
            q.mass = q.sie = q.vf = q.den = q.pres = q.sspd = np.zeros(0)
            q.stress = np.zeros((0, 3, 3))
            q.eroded = np.zeros(0, bool)
            st.m.append(q)
            continue
        q.mass, q.sie = d["mat_mass"], d["mat_sie"]
        q.vf = d["mat_volfrac"] * d["mat_geo_volfrac"]
        q.den, q.pres, q.sspd = d["mat_den"], d["mat_pres"], d["mat_sspd"]
        q.stress = d["mat_stress"].reshape(-1, 3, 3)
        q.eroded = d["mat_eroded"] > 0.5
        st.m.append(q)
    return st


def velgrad(x, v, conn, vol):
    B = P.hex_bmat(x, conn)
    L = np.einsum("eki,ekj->eij", v[conn], B) / vol[:, None, None]
    return L, B


def deviator(s0, s, L, h, G, Y):
    """elastic-plastic stress deviator after the time h: the Jaumann rate of the elastic law, returned to the yield surface"""
    T = np.swapaxes(L, 1, 2)
    D, W = 0.5 * (L + T), 0.5 * (L - T)
    rate = 2.0 * G * (D - np.trace(D, axis1=1, axis2=2)[:, None, None] / 3.0 * np.eye(3)) + W @ s - s @ W
    n = s0 + h * rate
    eq = np.sqrt(1.5 * (n * n).sum(axis=(1, 2)) + 1e-16)
    return n * np.minimum(1.0, Y / eq)[:, None, None]


def forces(st, mats, vol, neigh, small=1e-8, fuzz=1e-16, dissipation=True):
    """corner forces per material (list of (ne,8,3)), plus conditioning flag"""
    x, v, conn = st.x, st.v, st.conn
    L, B = velgrad(x, v, conn, vol)
    div = np.trace(L, axis1=1, axis2=2)
    curl = np.stack([L[:, 2, 1] - L[:, 1, 2], L[:, 0, 2] - L[:, 2, 0], L[:, 1, 0] - L[:, 0, 1]], 1)
    magc = np.sqrt((curl ** 2).sum(1))
    out = []
    amb = False
    gv = np.abs(L).max(axis=(1, 2))
    for q, mat in zip(st.m, mats):
        el = q.el
        if len(el) == 0:
            out.append(np.zeros((0, 8, 3)))
            continue
        N = -B[el]
        tau = q.stress - q.pres[:, None, None] * np.eye(3) if getattr(mat, "decoupled", True) else q.stress
        f = np.einsum("eki,eij->ekj", N, tau)
        if mat.mars is not None and dissipation:
            q1, q1x, q2, q2x, pf, pcf = mat.mars
            vv = v[conn[el]]
            vs = vv.mean(1)
            dv = np.sqrt(((vv - vs[:, None, :]) ** 2).sum(2))
            comp = (div[el] < 0)[:, None]
            mu = q.den[:, None] * (np.where(comp, q1, q1x) * q.sspd[:, None] + np.where(comp, q2, q2x) * dv)
            if mat.directional:
                with np.errstate(invalid="ignore", divide="ignore"):
                    sd = np.where((dv > small)[:, :, None], (vv - vs[:, None, :]) / dv[:, :, None], N / np.sqrt((N ** 2).sum(2))[:, :, None])
                ds = sum(np.abs((0.5 * (N[:, [k ^ e for k in range(8)]] - N) * sd).sum(2)) for e in (1, 2, 4))
                if ((dv > 0) & (np.abs(dv - small) < 1e-3 * small)).any() or ((dv > small) & (dv < 1e-9 * np.abs(v).max())).any():
                    amb = True
                mu = mu * ds
            else:
                mu = mu * np.sqrt((N ** 2).sum(2))
            s3 = mu.sum(1)
            with np.errstate(invalid="ignore", divide="ignore"):
                vstar = np.where((s3 > fuzz)[:, None], (mu[:, :, None] * vv).sum(1) / s3[:, None], 0.0)
            rmin = np.ones(len(el))
            for a, e in enumerate(el):
                for nb in neigh[e]:
                    rmin[a] = min(rmin[a], 0.9 * (div[nb] + small) / (div[e] + small))
                if abs(div[e] + small) < 1e-4 * (np.abs(div[neigh[e]]).max() if neigh[e] else 0) or abs(div[e] + small) < 1e-10:
                    amb = True
                if abs(div[e]) < 1e-11 * gv[e] + 1e-300 and (pf > 0 and (q1 != q1x or q2 != q2x)):
                    amb = True
                if abs(div[e]) < 1e-9 * gv[e] and magc[e] < 1e-9 * gv[e]:
                    amb = True
            phi = 1.0 - np.maximum(0.0, rmin)
            alpha = np.minimum(1.0, 20.0 * np.cbrt(vol[el]) * np.abs(div[el]) / (q.sspd + fuzz))
            phi = alpha * phi
            pc = np.maximum(np.minimum(1.0, np.abs(div[el]) / (magc[el] + fuzz)), pcf)
            phi = np.maximum(pf, np.minimum(phi, pc))
            f = f + phi[:, None, None] * mu[:, :, None] * (vstar[:, None, :] - vv)
        f = f * q.vf[:, None, None]
        f[q.eroded] = 0.0
        out.append(f)
    return out, L, amb


def relax(st, mats, vol, L, h, limit, weight, fuzz=1e-16):
    """pressure relaxation between the materials of an element (Tipton): the volume fractions move towards equal pressure
    and share a volume change by compressibility; the work of the move is done at the average pressure"""
    ne = len(st.conn)
    div = np.trace(L, axis1=1, axis2=2)
    num, den, vmin = np.zeros(ne), np.zeros(ne), np.ones(ne)
    R = []
    for q in st.m:
        q.part = q.vf < 1.0 - fuzz
        r = q.vf / (q.den * q.sspd ** 2 + fuzz)
        R.append(r)
        e = q.el[q.part]
        num[e] += (r * q.pres)[q.part]
        den[e] += r[q.part]
        vmin[e] = np.minimum(vmin[e], q.vf[q.part])
    avg = num / (den + fuzz)
    lim = np.ones(ne)
    for q, r in zip(st.m, R):
        e = q.el
        q.delta = np.where(q.part, r * (q.pres - avg[e]) / (weight + fuzz) + (r / (den[e] + fuzz) - q.vf) * div[e] * h, 0.0)
        lim[e] = np.minimum(lim[e], np.where(q.part, min(1.0, max(0.0, limit)) * vmin[e] / (np.abs(q.delta) + fuzz), 1.0))
    for q, mat in zip(st.m, mats):
        if not len(q.el):
            continue
        new = np.clip(q.vf + lim[q.el] * q.delta, 0.0, 1.0)
        q.sie = np.where(q.part, q.sie - avg[q.el] * (new - q.vf) * vol[q.el] / (q.mass + 1e-20), q.sie)
        q.vf = new
        q.den = q.mass / (vol[q.el] * q.vf + 1e-20)
        q.pres = mat.pressure(q.den, q.sie)
        q.sspd = mat.sspd(q.den, q.sie)
    return lim


def step(st, mats, dt, rk, neigh, bc=None, bdy_force=None, t=0.0, after=None, small=1e-8, fuzz=1e-16, vol=None, relaxation=None):
    """advances st in place by one step; bc(v, t) modifies velocities, bdy_force(x, t) -> nodal forces"""
    x0, v0 = st.x.copy(), st.v.copy()
    sie0 = [q.sie.copy() for q in st.m]
    dev0 = [q.stress.copy() for q in st.m]
    amb = False
    if vol is None:
        vol = P.hex_vol(st.x, st.conn)
    for s in range(rk):
        a = 1.0 / (rk - s)
        fs, L, am = forces(st, mats, vol, neigh, small, fuzz)
        amb = amb or am
        for q, mat, s0 in zip(st.m, mats, dev0):
            if mat.strength and len(q.el):
                q.stress = deviator(s0, q.stress, L[q.el], a * dt, *mat.strength)
        F = bdy_force(st.x, t) if bdy_force else np.zeros_like(st.x)
        for q, f in zip(st.m, fs):
            np.add.at(F, st.conn[q.el], f)
        st.v = v0 + a * dt * F / st.mn[:, None]
        if bc:
            bc(st.v, t)
        vh = 0.5 * (st.v + v0)
        for q, f, s0 in zip(st.m, fs, sie0):
            if len(q.el):
                q.sie = s0 - a * dt / q.mass * np.einsum("eki,eki->e", f, vh[st.conn[q.el]])
        st.x = x0 + a * dt * vh
        vol = P.hex_vol(st.x, st.conn)
        for q, mat in zip(st.m, mats):
            if len(q.el):
                q.den = q.mass / (vol[q.el] * q.vf)
                q.pres = mat.pressure(q.den, q.sie)
                q.sspd = mat.sspd(q.den, q.sie)
                if mat.erode:
                    te, de = mat.erode
                    if (np.abs(q.pres - te) <= 1e-9 * np.abs(q.pres).max()).any() or (np.abs(q.den - de) <= 1e-9 * np.abs(q.den).max()).any():
                        amb = True
                    q.eroded = q.eroded | (q.pres <= te) | (q.den <= de)
                    q.pres = np.where(q.eroded, 0.0, q.pres)
                    q.den = np.where(q.eroded, 1e-32, q.den)
                    q.sspd = np.where(q.eroded, 1e-32, q.sspd)
                    q.stress = np.where(q.eroded[:, None, None], 0.0, q.stress)
        if relaxation:
            st.lim = relax(st, mats, vol, L, a * dt, *relaxation, fuzz=fuzz)
    return amb


def mats_of(p):
    return [Mat(p.gammas[m], p.csmin[m], p.mars[m], p.directional[m], p.void[m], p.erode[m], getattr(p, "elastic", {}).get(m), getattr(p, "strength", {}).get(m)) for m in range(p.nm)]


def match_elements(s, d):
    """elements of the mesh that the elements of a material's file are, by the positions of their nodes"""
    if d is None or not d["_nc"]:
        return np.zeros(0, int)
    key = {s.x[c].tobytes(): e for e, c in enumerate(s.conn)}
    cm = d["connectivity"].reshape(d["_nc"], -1)
    return np.array([key[d["points"][c].tobytes()] for c in cm])


def tags(p, s):
    """per boundary condition of a problem: (axis, model, nodes)"""
    out = []
    bf = np.array(boundary_faces(s.conn))
    for b in p.bcs:
        o = b["boundary_condition"]
        a = "xyz".index(o["surface"]["type"][0])
        pos = o["surface"]["plane_position"]
        on = np.abs(s.x[:, a] - pos) <= 1e-7
        f = on[bf].all(1)
        out.append((a, o["velocity_model"], np.unique(bf[f])))
    return out


def apply_planes(v, tg):
    for a, model, nodes in tg:
        if model == "reflected":
            v[nodes, a] = 0.0
        elif model in ("fixed", "zero"):
            v[nodes] = 0.0


def close(g, got, want, tol, what, k):
    """got: the model's value, want: the program's"""
    d = np.abs(got - want)
    if not (d <= tol).all():
        w = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        g.fail("%s after output %d at %s: the program has %.17g, the scheme gives %.17g (tolerance %.3g)" % (what, k, tuple(int(q) for q in w), want[w], got[w], np.max(tol)))
