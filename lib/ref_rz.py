"""Reference model of one step of the axisymmetric (area-weighted) staggered-grid scheme in numpy; coordinates (z, r)."""
import numpy as np
import problems as P


def boundary_edges(conn):
    by = {}
    for c in conn:
        for k in range(4):
            e = (c[k], c[(k + 1) % 4])
            by.setdefault(tuple(sorted(e)), []).append(e)
    return [l[0] for l in by.values() if len(l) == 1]


def bmat(x, conn):
    """derivative of the area of the quadrilateral with respect to its corners"""
    p = x[conn]
    b = np.zeros((len(conn), 4, 2))
    for k in range(4):
        n, q = p[:, (k + 1) % 4], p[:, (k - 1) % 4]
        b[:, k, 0] = 0.5 * (n[:, 1] - q[:, 1])
        b[:, k, 1] = 0.5 * (q[:, 0] - n[:, 0])
    return b


def corner_areas(x, conn):
    """a twelfth of five times the two triangles at the corner and of the other two"""
    p = x[conn]
    c = p.mean(1)
    A = [np.abs(P.tri_area(p[:, k], p[:, (k + 1) % 4], c)) for k in range(4)]      # edge k, k+1
    return np.stack([(5 * A[k - 1] + 5 * A[k] + A[(k + 1) % 4] + A[(k + 2) % 4]) / 12.0 for k in range(4)], 1)


def gradient(x, v, conn, vol):
    """velocity gradient of the elements (3x3, the hoop rate last)"""
    area = P.quad_area(x, conn)
    L = np.zeros((len(conn), 3, 3))
    L[:, :2, :2] = np.einsum("eki,ekj->eij", v[conn], bmat(x, conn)) / area[:, None, None]
    L[:, 2, 2] = v[conn][:, :, 1].mean(1) * area / vol
    return L


def deviator(s0, s, L, h, G, Y, law="jaumann"):
    """elastic-plastic stress deviator after the time h; law "recorded" is the rate the program of the recorded finding has"""
    T = np.swapaxes(L, 1, 2)
    D, W = 0.5 * (L + T), 0.5 * (L - T)
    s0, s = [w - np.trace(w, axis1=1, axis2=2)[:, None, None] / 3.0 * np.eye(3) for w in (s0, s)]
    dev = D - np.trace(D, axis1=1, axis2=2)[:, None, None] / 3.0 * np.eye(3)
    rate = 2.0 * G * dev
    if law == "jaumann":
        rate = rate + W @ s - s @ W
    else:
        half = (s0[:, 0, 0] - s0[:, 1, 1]) / 2.0
        DS, WS = D @ s + s @ D, W @ s - s @ W
        zr = D[:, 0, 1] * s[:, 1, 0] + s[:, 0, 1] * D[:, 1, 0]
        rot = W[:, 0, 1] * s[:, 1, 0] - s[:, 0, 1] * W[:, 1, 0]
        rate[:, 0, 0] += half * (zr + 2.0 * D[:, 0, 0] * s[:, 0, 0]) + s0[:, 0, 1] * rot
        rate[:, 1, 1] += W[:, 1, 0] * s[:, 0, 1] - s[:, 1, 0] * W[:, 0, 1]
        rate[:, 0, 1] = G * D[:, 0, 1] + s0[:, 0, 1] * DS[:, 0, 1] - half * WS[:, 0, 1]
        rate[:, 1, 0] = rate[:, 0, 1]
    n = s0 + h * rate
    ss = (n * n).sum(axis=(1, 2))
    return n * np.where(ss > 2.0 / 3.0 * Y * Y, np.sqrt(2.0 / 3.0) * Y / np.sqrt(ss + 1e-16), 1.0)[:, None, None]


def forces(st, mats, vol, neigh, small=1e-8, fuzz=1e-16):
    x, v, conn = st.x, st.v, st.conn
    area = P.quad_area(x, conn)
    B = bmat(x, conn)
    L = np.einsum("eki,ekj->eij", v[conn], B) / area[:, None, None]
    R = vol / area
    hoop = v[conn][:, :, 1].mean(1) / R
    div = L[:, 0, 0] + L[:, 1, 1] + hoop
    curl = np.abs(L[:, 1, 0] - L[:, 0, 1])
    gv = np.maximum(np.abs(L).max(axis=(1, 2)), np.abs(hoop))
    w = corner_areas(x, conn)
    out, amb = [], False
    for q, mat in zip(st.m, mats):
        el = q.el
        if not len(el):
            out.append(np.zeros((0, 4, 2)))
            continue
        N = -B[el]
        tau = q.stress - q.pres[:, None, None] * np.eye(3)
        f = np.einsum("eki,eij->ekj", N, tau[:, :2, :2])
        if mat.mars is not None:
            q1, q1x, q2, q2x, pf, pcf = mat.mars
            vv = v[conn[el]]
            vs = vv.mean(1)
            dv = np.sqrt(((vv - vs[:, None, :]) ** 2).sum(2))
            comp = (div[el] < 0)[:, None]
            mu = q.den[:, None] * (np.where(comp, q1, q1x) * q.sspd[:, None] + np.where(comp, q2, q2x) * dv)
            if mat.directional:
                with np.errstate(invalid="ignore", divide="ignore"):
                    sd = np.where((dv > small)[:, :, None], (vv - vs[:, None, :]) / dv[:, :, None], N / np.sqrt((N ** 2).sum(2))[:, :, None])
                ds = sum(np.abs((0.5 * (N[:, [(k + e) % 4 for k in range(4)]] - N) * sd).sum(2)) for e in (1, 3))
                if ((dv > 0) & (np.abs(dv - small) < 1e-3 * small)).any() or ((dv > small) & (dv < 1e-9 * np.abs(v).max())).any():
                    amb = True
                mu = mu * ds
            else:
                mu = mu * np.sqrt((N ** 2).sum(2))
            s3 = mu.sum(1)
            with np.errstate(invalid="ignore", divide="ignore"):
                vstar = np.where((s3 > fuzz)[:, None], (mu[:, :, None] * vv).sum(1) / s3[:, None], 0.0)
            rmin = np.ones(len(el))
            for a, e in enumerate(el):
                for nb in neigh[e]:
                    rmin[a] = min(rmin[a], 0.9 * (div[nb] + small) / (div[e] + small))
                if abs(div[e] + small) < 1e-4 * (np.abs(div[neigh[e]]).max() if neigh[e] else 0) or abs(div[e] + small) < 1e-10:
                    amb = True
                if abs(div[e]) < 1e-11 * gv[e] + 1e-300 and (pf > 0 and (q1 != q1x or q2 != q2x)):
                    amb = True
                if abs(div[e]) < 1e-9 * gv[e] and curl[e] < 1e-9 * gv[e]:
                    amb = True
            phi = np.minimum(1.0, 20.0 * np.sqrt(area[el]) * np.abs(div[el]) / (q.sspd + fuzz)) * (1.0 - np.maximum(0.0, rmin))
            pc = np.maximum(np.minimum(1.0, 4.0 * np.abs(div[el]) / (curl[el] + fuzz)), pcf)
            phi = np.maximum(pf, np.minimum(phi, pc))
            f = f + phi[:, None, None] * mu[:, :, None] * (vstar[:, None, :] - vv)
        f[:, :, 0] += (tau[:, 1, 0] / R[el])[:, None] * w[el]
        f[:, :, 1] += ((tau[:, 1, 1] - tau[:, 2, 2]) / R[el])[:, None] * w[el]
        f = f * q.vf[:, None, None]
        f[q.eroded] = 0.0
        out.append(f)
    return out, amb


def areal(st, nn, tiny):
    m = np.zeros(len(st.x))
    off = st.x[:, 1] > tiny
    m[off] = st.M[off] / st.x[off, 1]
    for n in np.where(st.x[:, 1] < tiny)[0]:
        l = [m[k] / 2.0 for k in nn[n] if st.x[k, 1] > tiny]
        m[n] = max([0.0] + l)
    return m


def node_neighbours(conn):
    out = {}
    for c in conn:
        for k in range(4):
            out.setdefault(c[k], set()).update((c[(k + 1) % 4], c[(k - 1) % 4]))
    return out


def step(st, mats, dt, rk, neigh, nn, bc, tiny, law="jaumann"):
    """st.M: mass of the nodes (constant); st.mn: mass per radius"""
    x0, v0 = st.x.copy(), st.v.copy()
    s0 = [q.sie.copy() for q in st.m]
    dev0 = [q.stress.copy() for q in st.m]
    vol = P.quad_vol(st.x, st.conn)
    amb = False
    for s in range(rk):
        a = 1.0 / (rk - s)
        fs, am = forces(st, mats, vol, neigh)
        amb = amb or am
        if any(mat.strength for mat in mats):
            L = gradient(st.x, st.v, st.conn, vol)
            for q, mat, t0 in zip(st.m, mats, dev0):
                if mat.strength and len(q.el):
                    q.stress = deviator(t0, q.stress, L[q.el], a * dt, *mat.strength, law)
        F = np.zeros_like(st.x)
        for q, f in zip(st.m, fs):
            np.add.at(F, st.conn[q.el], f)
        st.v = v0 + a * dt * F / st.mn[:, None]
        bc(st.v)
        vh = 0.5 * (st.v + v0)
        for q, f, e0 in zip(st.m, fs, s0):
            if len(q.el):
                cn = st.conn[q.el]
                q.sie = e0 - a * dt / q.mass * (f * vh[cn] * st.x[cn][:, :, 1:2]).sum(axis=(1, 2))
        st.x = x0 + a * dt * vh
        st.x[:, 1] = np.maximum(0.0, st.x[:, 1])
        vol = P.quad_vol(st.x, st.conn)
        for q, mat in zip(st.m, mats):
            if len(q.el):
                q.den = q.mass / (vol[q.el] * q.vf)
                q.pres, q.sspd = mat.pressure(q.den, q.sie), mat.sspd(q.den, q.sie)
                if mat.erode:
                    te, de = mat.erode
                    if (np.abs(q.pres - te) <= 1e-9 * np.abs(q.pres).max()).any() or (np.abs(q.den - de) <= 1e-9 * np.abs(q.den).max()).any():
                        amb = True
                    q.eroded = q.eroded | (q.pres <= te) | (q.den <= de)
                    q.pres, q.den, q.sspd = np.where(q.eroded, 0.0, q.pres), np.where(q.eroded, 1e-32, q.den), np.where(q.eroded, 1e-32, q.sspd)
                    q.stress = np.where(q.eroded[:, None, None], 0.0, q.stress)
        st.mn = areal(st, nn, tiny)
    return amb
