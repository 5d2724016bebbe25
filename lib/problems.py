"""Generators of meshes and gas-dynamics problems for the multiphysics application."""
import numpy as np
import fierro as F

IJK2ENS = [0, 1, 3, 2, 4, 5, 7, 6]


def box_nodes(n, origin, length):
    ax = [origin[a] + length[a] / n[a] * np.arange(n[a] + 1) for a in range(3)]
    z, y, x = np.meshgrid(ax[2], ax[1], ax[0], indexing="ij")
    return np.stack([x.ravel(), y.ravel(), z.ravel()], 1)


def box_conn(n):
    def nid(i, j, k):
        return i + (n[0] + 1) * (j + (n[1] + 1) * k)
    return np.array([[nid(i + a, j + b, k + c) for c in (0, 1) for b in (0, 1) for a in (0, 1)]
                     for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])


def geo_file(x, conn, elem="hexa8"):
    """Ensight gold ASCII as the reader expects it: 8 lines, number of nodes, coordinates, type, elements"""
    s = "A graphics dump by Fierro \n EnSight Gold geometry\nnode id assign\nelement id assign\npart\n%10d\nMesh\ncoordinates\n%10d\n" % (1, len(x))
    for a in range(3):
        for v in (x[:, a] if a < x.shape[1] else np.zeros(len(x))):
            s += "%.17e\n" % v
    s += elem + "\n%10d\n" % len(conn)
    order = IJK2ENS if conn.shape[1] == 8 else range(conn.shape[1])
    for e in conn:
        s += "".join("%10d" % (e[order[k]] + 1) for k in range(len(e))) + "\n"
    return s


def hex_vol(x, conn):
    """exact volume of trilinear hexahedra (2x2x2 Gauss quadrature integrates the Jacobian exactly)"""
    p = x[conn]
    v = np.zeros(len(conn))
    q = (0.5 - 0.5 / np.sqrt(3), 0.5 + 0.5 / np.sqrt(3))
    for r in q:
        for s in q:
            for t in q:
                N = lambda a, v_: v_ if a else 1 - v_
                d = np.zeros((8, 3))
                for k in range(8):
                    a, b, c = k & 1, (k >> 1) & 1, (k >> 2) & 1
                    d[k] = [(1 if a else -1) * N(b, s) * N(c, t), (1 if b else -1) * N(a, r) * N(c, t), (1 if c else -1) * N(a, r) * N(b, s)]
                J = np.einsum("eki,kj->eij", p, d)
                v += np.linalg.det(J) / 8.0
    return v


def hex_bmat(x, conn):
    """outward corner area normals: the derivative of the volume with respect to the corner positions (exact: the
    volume is cubic in the coordinates and linear in each of them)"""
    p = x[conn]
    out = np.zeros((len(conn), 8, 3))
    loc = np.arange(len(conn) * 8).reshape(-1, 8)
    flat = p.reshape(-1, 3)
    h = np.maximum(1e-300, np.ptp(p, axis=1).max())
    for k in range(8):
        for d in range(3):
            a, b = flat.copy(), flat.copy()
            a[loc[:, k], d] += h; b[loc[:, k], d] -= h
            out[:, k, d] = (hex_vol(a, loc) - hex_vol(b, loc)) / (2 * h)
    return out


def mesh_choice(g, lim=4, distort=True, maxelem=48):
    """returns (mesh_options, files, n, origin, length, x, conn, distorted)"""
    while True:
        n = [g.i(1, lim) for _ in range(3)]
        if n[0] * n[1] * n[2] <= maxelem:
            break
        lim -= 1
    length = [g.pick([1.0, 0.5, 2.0, 0.01, 10.0]) * g.pick([1.0, 1.0, 1.3]) for _ in range(3)]
    s = g.pick([1.0, 1.0, 0.1, 100.0])
    big = max(length)
    length = [max(v, big / 20) * s for v in length]
    origin = [g.pick([0.0, 0.0, -0.5, 1.0]) * v for v in length]
    x, conn = box_nodes(n, origin, length), box_conn(n)
    kind = g.weighted([2, 3]) if distort else 0
    if kind == 0:
        return F.box_mesh(n, origin, length), {}, n, origin, length, x, conn, False
    amp = g.pick([0.0, 0.05, 0.15, 0.22])
    seed = g.draw(1 << 20)
    rs = np.random.RandomState(seed)
    h = np.array([length[a] / n[a] for a in range(3)])
    d = rs.uniform(-1, 1, x.shape) * amp * h
    lo, hi = np.array(origin), np.array(origin) + np.array(length)
    on = (np.abs(x - lo) < 1e-9 * h) | (np.abs(x - hi) < 1e-9 * h)
    keep = g.flip()
    if keep:
        d[on] = 0.0            # planar outside faces
    x = x + d
    # the text of the file has 17 digits, so x is what the program reads
    if g.flip():               # elements in another order
        conn = conn[rs.permutation(len(conn))]
    if g.flip():               # nodes in another order
        p = rs.permutation(len(x))
        inv = np.argsort(p)
        x, conn = x[p], inv[conn]
    g.label("distorted" if amp else "file")
    return {"source": "file", "num_dims": 3, "file_path": "mesh.geo"}, {"mesh.geo": geo_file(x, conn)}, n, origin, length, x, conn, amp > 0 and not keep


def volume_choice(g, origin, length, kinds=("box", "sphere", "cylinder", "global")):
    k = g.pick(kinds)
    o, l = np.array(origin), np.array(length)
    if k == "box":
        a = o + l * np.array([g.real(-0.1, 0.9) for _ in range(3)])
        b = a + l * np.array([g.real(0.1, 1.1) for _ in range(3)])
        return {"type": "box", "x1": a[0], "x2": b[0], "y1": a[1], "y2": b[1], "z1": a[2], "z2": b[2]}
    if k in ("sphere", "cylinder"):
        c = o + l * np.array([g.real(-0.2, 1.2) for _ in range(3)])
        R = float(max(l))
        r1 = g.pick([0.0, 0.0, g.real(0, 0.5) * R])
        return {"type": k, "radius1": r1, "radius2": r1 + g.real(0.1, 1.0) * R, "origin": tuple(c.tolist())}
    return {"type": "global"}


def vel_choice(g, speed, kinds=("cartesian", "radial", "spherical", "radial_linear", "spherical_linear", "static")):
    k = g.pick(kinds)
    if k == "cartesian":
        return {"type": k, "u": g.u(-1, 1) * speed, "v": g.u(-1, 1) * speed, "w": g.u(-1, 1) * speed}
    if k == "static":
        return {"type": k}
    return {"type": k, "speed": g.u(-1, 1) * speed}


class Problem:
    pass


def gas_problem(g, lim=4, maxelem=48, distort=True, bcs=("free", "walls", "some"), nmat=None, steps=None, mars=True, regions=4, mixed=None, erosion=True):
    """a random gas-dynamics problem; P.deck, P.files, P.steps (fixed time step P.dt)"""
    P = Problem()
    mesh, P.files, P.n, P.origin, P.length, P.x, P.conn, warped = mesh_choice(g, lim, distort, maxelem)
    nm = nmat if nmat is not None else g.pick([1, 1, 2])
    P.gammas = [g.pick([1.4, 5.0 / 3.0, 1.2, 2.0]) for _ in range(nm)]
    es = g.pick([1.0, 1.0, 1e-3, 1e3])      # energy scale
    ds = g.pick([1.0, 1.0, 10.0, 1e-2])
    P.mars, P.csmin, P.directional, P.void, P.erode = [], [], [], [], []
    mats = []
    for m in range(nm):
        q = None
        if mars:
            k = g.weighted([3, 2, 1, 1])
            if k == 0:
                q = list(F.MARS)
            elif k == 1:
                q = [g.u(0, 1.5), g.u(0, 1.5), g.u(0, 1.5), g.u(0, 1.5), g.pick([0.0, 0.1, 1.0, g.u(0, 1)]), g.pick([1.0, 0.0, g.u(0, 1)])]
            elif k == 2:
                q = [1.0, 0.0, 1.333, 0.0, 0.0, 1.0]
        P.mars.append(q)
        P.csmin.append(g.pick([1e-14, 1e-14, 0.3]))
        P.directional.append(q is not None and g.chance(1, 4))
        P.void.append(False)
        P.erode.append((g.pick([-1e30, 0.3, 0.45]) * ds * es, g.pick([-1e30, 0.45, 0.9]) * ds) if g.chance(1, 6) and erosion else None)
        kw = {"erosion_model": "basic", "erode_tension_val": P.erode[m][0], "erode_density_val": P.erode[m][1]} if P.erode[m] else {}
        mm = F.gas(m, P.gammas[m], P.csmin[m], q, **kw)
        if P.directional[m]:
            mm["material"]["dissipation_model"] = "directional_MARS"
        if m > 0 and g.chance(1, 8):
            P.void[m] = True
            mm["material"]["eos_model"] = "void"
            mm["material"]["eos_global_vars"] = [0.0]
            q = P.mars[m] = None
            for k in ("dissipation_model", "dissipation_global_vars"):
                mm["material"].pop(k, None)
        mats.append(mm)
    speed = np.sqrt(es)
    regs = [F.region(0, None, ds * g.pick([1.0, 0.5]), es * g.pick([1.0, 2.5]), vel_choice(g, speed, ("static", "cartesian", "spherical", "radial_linear")))]
    for k in range(g.i(0, regions)):
        regs.append(F.region(g.i(0, nm - 1), volume_choice(g, P.origin, P.length), ds * g.pick([0.125, 1.0, 3.0]), es * g.pick([0.1, 1.0, 4.0]),
                             vel_choice(g, speed) if g.chance(2, 3) else None))
    P.mixed = nm > 1 and g.flip()
    if mixed is not None:
        P.mixed = mixed and nm > 1
    if P.mixed:
        # two fills of one volume whose volume fractions add up to one
        for k in range(g.i(1, 2)):
            vol = volume_choice(g, P.origin, P.length, ("global", "box", "sphere"))
            ma, mb = g.pick([(0, 1), (1, 0)])
            f = g.pick([0.5, 0.25, 0.9, 0.999, g.u(0.01, 0.99)])
            a = g.draw(2)
            s = g.pick([0.0, 0.0, 0.4 / P.length[a]])
            # full fill first, so that nothing of other materials is left there
            regs.append(F.region(ma, vol, ds, es))
            # the second partial fill of the material already there replaces its fraction
            if s == 0.0:
                va, vb = F.uni(f), F.uni(1.0 - f)
            else:
                o = P.origin[a]
                nm_ = "xyz"[a] + "_linear"
                va = {"type": nm_, "value": 0.3 - s * o, "slope": s}
                vb = {"type": nm_, "value": 0.7 + s * o, "slope": -s}
            two = [F.region(ma, vol, ds * g.pick([1.0, 2.0]), es * g.pick([1.0, 0.3]), volfrac=va),
                   F.region(mb, vol, ds * g.pick([0.5, 1.0, 5.0]), es * g.pick([1.0, 3.0]), vel_choice(g, speed) if g.flip() else None, volfrac=vb)]
            if nm > 2 and g.flip():
                # a third material takes part of the second's share
                h = g.pick([0.5, 0.1, g.u(0.05, 0.95)])
                o3 = ({0, 1, 2} - {ma, mb}).pop()
                vc = {k_: (v * h if k_ != "type" else v) for k_, v in vb.items()}
                vb = {k_: (v * (1 - h) if k_ != "type" else v) for k_, v in vb.items()}
                two[1] = F.region(mb, vol, ds * g.pick([0.5, 1.0, 5.0]), es * g.pick([1.0, 3.0]), volfrac=vb)
                two.append(F.region(o3, vol, ds * g.pick([0.5, 1.0, 5.0]), es * g.pick([1.0, 3.0]), volfrac=vc))
            regs += two
    P.bc = g.pick(list(bcs))
    if warped and P.bc != "free":
        P.bc = "free"
    bc = []
    if P.bc == "walls":
        bc = F.walls(P.origin, P.length)
    elif P.bc == "some":
        for a in range(3):
            for s in (0, 1):
                if g.flip():
                    bc.append(F.plane_bc(a, P.origin[a] + s * P.length[a], g.pick(["reflected", "fixed"])))
    if not bc:
        # a surface that no node lies on: the program wants at least one condition
        bc = [F.plane_bc(0, P.origin[0] - 7.7 * P.length[0])]
    P.bcs = bc
    hmin = min(P.length[a] / P.n[a] for a in range(3))
    cs = np.sqrt(2.0 * 1.0 * 4.0 * es)
    P.dt = g.pick([0.02, 0.05, 0.002]) * hmin / (cs + 2 * speed)
    P.steps = steps if steps is not None else g.i(2, 12)
    P.rk = g.pick([2, 2, 2, 1, 3])
    dyn = {"time_final": P.dt * P.steps, "dt_min": P.dt, "dt_max": P.dt, "dt_start": P.dt, "dt_cfl": 0.4, "cycle_stop": 2000000, "rk_num_stages": P.rk}
    # time_final a little short of the last step: the run takes exactly P.steps full steps
    dyn["time_final"] = P.dt * P.steps - 1e-3 * P.dt
    dyn["tiny"] = 1e-3 * P.dt
    P.deck = {"dynamic_options": dyn, "mesh_options": mesh, "output_options": F.output_options(), "solver_options": [{"solver": {"method": "dynx_FE", "id": 0}}],
              "boundary_conditions": bc, "materials": mats, "regions": regs}
    P.nm = nm
    return P


# ------------------------------------------------------------------------------------------------ axisymmetric (z, r)
def quad_area(x, conn):
    p = x[conn]
    return 0.5 * ((p[:, 2, 0] - p[:, 0, 0]) * (p[:, 3, 1] - p[:, 1, 1]) - (p[:, 3, 0] - p[:, 1, 0]) * (p[:, 2, 1] - p[:, 0, 1]))


def tri_area(a, b, c):
    return 0.5 * ((b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (c[:, 0] - a[:, 0]) * (b[:, 1] - a[:, 1]))


def quad_vol(x, conn):
    """volume per radian of the ring a quadrilateral sweeps: integral of r over its area, by two triangles"""
    p = x[conn]
    v = 0.0
    for i, j, k in ((0, 1, 2), (0, 2, 3)):
        v = v + tri_area(p[:, i], p[:, j], p[:, k]) * (p[:, i, 1] + p[:, j, 1] + p[:, k, 1]) / 3.0
    return v


def mesh_choice_2d(g, lim=6, maxelem=36, polar=True, below=False):
    """returns (mesh_options, files, x, conn, origin, length, h, onaxis, kind); conn counterclockwise"""
    n = [g.i(1, lim), g.i(1, lim)]
    while n[0] * n[1] > maxelem:
        n = [max(1, v - 1) for v in n]
    s = g.pick([1.0, 1.0, 0.1, 10.0])
    kind = g.weighted([2, 3, 1]) if polar else g.weighted([2, 3])
    if kind == 2:
        r0 = g.pick([0.5, 1.0, 0.1]) * s
        r1 = r0 + g.pick([0.5, 1.0, 2.0]) * s
        t0 = g.pick([0.0, 0.0, 10.0, 60.0])
        t1 = min(180.0, t0 + g.pick([90.0, 45.0, 20.0]) * 1.0)
        n[1] = max(n[1], 2)
        org = [g.pick([0.0, 0.0, -1.0, 2.0]) * s, 0.0]
        th = np.deg2rad(t0) + np.deg2rad(t1 - t0) / n[1] * np.arange(n[1] + 1)
        rr = r0 + (r1 - r0) / n[0] * np.arange(n[0] + 1)
        x = np.array([[org[0] + r * np.cos(t), org[1] + r * np.sin(t)] for t in th for r in rr])
        mesh = {"source": "generate", "num_dims": 2, "type": "polar", "origin": tuple(org), "inner_radius": r0, "outer_radius": r1,
                "starting_angle": t0, "ending_angle": t1, "num_radial_elems": n[0], "num_angular_elems": n[1]}
        length = [r1, r1]
        h = min((r1 - r0) / n[0], r0 * np.deg2rad(t1 - t0) / n[1])
        axis = t0 == 0.0 or t1 == 180.0
        kd = "polar"
    else:
        length = [g.pick([1.0, 0.5, 2.0]) * s, g.pick([1.0, 0.5, 2.0]) * s]
        org = [g.pick([0.0, 0.0, -0.5, 1.0]) * length[0], g.pick([0.0, -0.5, -3.0, 2.0] if below else [0.0, 0.0, 0.5, 3.0]) * length[1]]
        x = np.array([[org[0] + length[0] / n[0] * i, org[1] + length[1] / n[1] * j] for j in range(n[1] + 1) for i in range(n[0] + 1)])
        mesh = {"source": "generate", "num_dims": 2, "type": "box", "origin": tuple(org), "length": tuple(length), "num_elems": tuple(n)}
        h = min(length[a] / n[a] for a in range(2))
        axis = org[1] == 0.0
        kd = "box"
    nid = lambda i, j: i + (n[0] + 1) * j
    conn = np.array([[nid(i, j), nid(i + 1, j), nid(i + 1, j + 1), nid(i, j + 1)] for j in range(n[1]) for i in range(n[0])])
    files = {}
    if kind == 1:
        import meshio
        rs = np.random.RandomState(g.draw(1 << 20))
        amp = g.pick([0.0, 0.05, 0.15, 0.2])
        hh = np.array([length[a] / n[a] for a in range(2)])
        d = rs.uniform(-1, 1, x.shape) * amp * hh
        on = (np.abs(x - np.array(org)) < 1e-9 * hh) | (np.abs(x - np.array(org) - np.array(length)) < 1e-9 * hh)
        d[on] = 0.0
        x = x + d
        if g.flip():
            conn = conn[rs.permutation(len(conn))]
        if g.flip():
            p = rs.permutation(len(x))
            x, conn = x[p], np.argsort(p)[conn]
        if g.flip():               # another first node
            conn = np.array([np.roll(e, rs.randint(4)) for e in conn])
        f = g.draw(2)
        name = ("mesh.geo", "mesh.vtu", "mesh.vtk")[f]
        files[name] = geo_file(x, conn, "quad4") if f == 0 else meshio.vtu_file(x, conn, None, 9, dim=2) if f == 1 else meshio.vtk_file(x, conn)
        mesh = {"source": "file", "num_dims": 2, "file_path": name}
        kd = name[5:]
    g.label(kd)
    return mesh, files, x, conn, org, length, h, axis, kd


def rz_problem(g, regions=4, steps=None, erosion=True):
    """a random axisymmetric gas-dynamics problem (fixed time step P.dt)"""
    p = Problem()
    mesh, p.files, p.x, p.conn, p.origin, p.length, h, p.axis, p.kind = mesh_choice_2d(g)
    nm = p.nm = g.pick([1, 1, 2])
    p.gammas = [g.pick([1.4, 5.0 / 3.0, 1.2, 2.0]) for _ in range(nm)]
    es, ds = g.pick([1.0, 1.0, 1e-3, 1e3]), g.pick([1.0, 1.0, 10.0, 1e-2])
    p.mars, p.csmin, p.directional, p.void, p.erode = [], [], [], [], []
    mats = []
    for m in range(nm):
        k = g.weighted([3, 2, 1])
        q = list(F.MARS) if k == 0 else None if k == 2 else [g.u(0, 1.5), g.u(0, 1.5), g.u(0, 1.5), g.u(0, 1.5), g.pick([0.0, 0.1, 1.0, g.u(0, 1)]), g.pick([1.0, 0.0, g.u(0, 1)])]
        p.mars.append(q); p.csmin.append(g.pick([1e-14, 0.3])); p.directional.append(q is not None and g.chance(1, 3)); p.void.append(False)
        p.erode.append((g.pick([-1e30, 0.3, 0.45]) * ds * es, g.pick([-1e30, 0.45, 0.9]) * ds) if erosion and g.chance(1, 6) else None)
        kw = {"erosion_model": "basic", "erode_tension_val": p.erode[m][0], "erode_density_val": p.erode[m][1]} if p.erode[m] else {}
        mm = F.gas(m, p.gammas[m], p.csmin[m], q, **kw)
        if q is not None:
            mm["material"]["dissipation_model"] = "directional_MARS_rz" if p.directional[m] else "MARS_rz"
        mats.append(mm)
    speed = np.sqrt(es)
    o, l = np.array(p.origin), np.array(p.length)

    def vel():
        k = g.pick(["static", "cartesian", "radial", "spherical"])
        if k == "cartesian":
            return {"type": k, "u": g.u(-1, 1) * speed, "v": g.u(-1, 1) * speed, "w": 0.0}
        return {"type": k} if k == "static" else {"type": k, "speed": g.u(-1, 1) * speed}

    def vol():
        k = g.pick(["global", "box", "sphere"])
        if k == "box":
            a = o + l * np.array([g.real(-0.1, 0.9) for _ in range(2)])
            b = a + l * np.array([g.real(0.1, 1.1) for _ in range(2)])
            return {"type": "box", "x1": a[0], "x2": b[0], "y1": a[1], "y2": b[1], "z1": -1.0, "z2": 1.0}
        if k == "sphere":
            c = o + l * np.array([g.real(-0.2, 1.2) for _ in range(2)])
            return {"type": k, "radius1": 0.0, "radius2": g.real(0.1, 1.0) * float(max(l)), "origin": (float(c[0]), float(c[1]), 0.0)}
        return {"type": k}
    regs = [F.region(0, None, ds * g.pick([1.0, 0.5]), es * g.pick([1.0, 2.5]), vel())]
    for k in range(g.i(0, regions)):
        regs.append(F.region(g.i(0, nm - 1), vol(), ds * g.pick([0.125, 1.0, 3.0]), es * g.pick([0.1, 1.0, 4.0]), vel() if g.chance(2, 3) else None))
    p.mixed = nm > 1 and g.flip()
    if p.mixed:
        v = vol()
        f = g.pick([0.5, 0.25, 0.9, g.u(0.01, 0.99)])
        ma, mb = g.pick([(0, 1), (1, 0)])
        regs += [F.region(ma, v, ds, es), F.region(ma, v, ds * g.pick([1.0, 2.0]), es * g.pick([1.0, 0.3]), volfrac=F.uni(f)),
                 F.region(mb, v, ds * g.pick([0.5, 5.0]), es * g.pick([1.0, 3.0]), vel() if g.flip() else None, volfrac=F.uni(1.0 - f))]
    bc = []
    if p.axis:
        bc.append(F.plane_bc(1, 0.0))
    if p.kind == "polar":
        for rad in (mesh["inner_radius"], mesh["outer_radius"]):
            if g.chance(1, 3):
                bc.append({"boundary_condition": {"solver_id": 0, "surface": {"type": "cylinder", "radius": rad, "origin": (p.origin[0], p.origin[1], 0.0)}, "velocity_model": "fixed"}})
    else:
        for a in range(2):
            for s in (0, 1):
                if g.chance(1, 3) and not (a == 1 and s == 0 and p.axis):
                    bc.append(F.plane_bc(a, p.origin[a] + s * p.length[a], g.pick(["reflected", "fixed"])))
    if not bc:
        bc = [F.plane_bc(0, p.origin[0] - 7.7 * p.length[0])]
    p.bcs = bc
    cs = np.sqrt(8.0 * es)
    p.dt = g.pick([0.02, 0.05, 0.002]) * h / (cs + 2 * speed)
    p.steps = steps if steps is not None else g.i(2, 12)
    p.rk = g.pick([2, 2, 2, 1, 3])
    dyn = {"time_final": p.dt * p.steps - 1e-3 * p.dt, "dt_min": p.dt, "dt_max": p.dt, "dt_start": p.dt, "dt_cfl": 0.4, "cycle_stop": 2000000,
           "rk_num_stages": p.rk, "tiny": 1e-3 * p.dt}
    p.deck = {"dynamic_options": dyn, "mesh_options": mesh, "output_options": F.output_options(), "solver_options": [{"solver": {"method": "dynx_FE_rz", "id": 0}}],
              "boundary_conditions": bc, "materials": mats, "regions": regs}
    return p
