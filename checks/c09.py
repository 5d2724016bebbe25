import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, meshio as M, ref_sgh as R

np.seterr(all="ignore")


def given(g):
    """(dim, mesh options, files, coordinates, connectivity, how)"""
    dim = g.pick([3, 3, 2])
    sc = [1.0, 1.0, 1.0]
    s = g.pick([1.0, 1.0, 1e-3, 1e4])
    org = [g.pick([0.0, 0.0, g.u(-2, 2)]) * s for _ in range(dim)]
    kind = g.weighted([2, 1 if dim == 2 else 0, 4])
    if kind == 1:
        n = [g.i(1, 12), g.i(1, 12)]
        r0 = g.pick([0.0, 1.0, g.real(0, 3)]) * s
        r1 = r0 + g.pick([1.0, g.real(0.1, 5)]) * s
        t0 = g.pick([0.0, 0.0, g.real(0, 170)])
        t1 = g.pick([180.0, 90.0, g.real(0, 180)])
        if t1 <= t0 + 1:
            t1 = t0 + g.real(1, 9)
        org[1] = abs(org[1])
        mesh = {"source": "generate", "num_dims": 2, "type": "polar", "inner_radius": r0, "outer_radius": r1, "starting_angle": t0, "ending_angle": t1,
                "num_radial_elems": n[0], "num_angular_elems": n[1]}
        if any(org) or g.flip():
            mesh["origin"] = tuple(org)
        x = np.array([[org[0] + r * np.cos(t), org[1] + r * np.sin(t)] for t in np.deg2rad(np.linspace(t0, t1, n[1] + 1)) for r in np.linspace(r0, r1, n[0] + 1)])
        conn = np.array([[i + j * (n[0] + 1), i + 1 + j * (n[0] + 1), i + 1 + (j + 1) * (n[0] + 1), i + (j + 1) * (n[0] + 1)] for j in range(n[1]) for i in range(n[0])])
        return dim, mesh, {}, x, conn, "polar"
    n = [g.i(1, 12 if dim == 2 else 6) for _ in range(dim)]
    length = [g.pick([1.0, 2.0, g.real(0.1, 9)]) * s for _ in range(dim)]
    if dim == 3:
        x, conn = P.box_nodes(n, org, length), P.box_conn(n)
    else:
        x = np.array([[org[0] + length[0] / n[0] * i, org[1] + length[1] / n[1] * j] for j in range(n[1] + 1) for i in range(n[0] + 1)])
        conn = np.array([[i + j * (n[0] + 1), i + 1 + j * (n[0] + 1), i + 1 + (j + 1) * (n[0] + 1), i + (j + 1) * (n[0] + 1)] for j in range(n[1]) for i in range(n[0])])
    if kind == 0:
        m = F.box_mesh(n, org, length)
        if not any(org) and g.flip():
            del m["origin"]
        if dim == 3 and g.chance(1, 4):
            m["polynomial_order"] = 1
        return dim, m, {}, x, conn, "box"
    rs = np.random.RandomState(g.draw(1 << 20))
    hh = np.array([length[a] / n[a] for a in range(dim)])
    x = x + rs.uniform(-1, 1, x.shape) * g.pick([0.0, 0.1, 0.2]) * hh
    if g.flip():
        conn = conn[rs.permutation(len(conn))]
    if g.flip():
        p = rs.permutation(len(x))
        x, conn = x[p], np.argsort(p)[conn]
    if g.chance(1, 3) and len(conn) > 2:            # part of the box only; nodes in no element go
        conn = conn[:g.i(1, len(conn) - 1)]
        used = np.unique(conn)
        back = np.full(len(x), -1)
        back[used] = np.arange(len(used))
        x, conn = x[used], back[conn]
        g.label("part of a box")
    if dim == 2 and g.flip():
        conn = np.array([np.roll(e, rs.randint(4)) for e in conn])
    if dim == 3 and g.flip():
        # the same hexahedron named from another corner: a turn about the third local axis
        turn = [1, 3, 0, 2, 5, 7, 4, 6]
        for e in range(len(conn)):
            for _ in range(rs.randint(4)):
                conn[e] = conn[e][turn]
    how = g.pick(["geo", "vtk", "vtu", "inp"] if dim == 3 else ["geo", "vtk", "vtu"])
    name = g.pick(["mesh.", "a.b.", "dir/m_1."]) + how
    mesh = {"source": "file", "num_dims": dim, "file_path": name}
    if g.flip():
        for a in range(dim):
            if g.chance(2, 3):
                sc[a] = g.pick([2.0, 0.1, g.real(0.2, 5)])
                mesh["scale_" + "xyz"[a]] = sc[a]
                g.label("scaled")
    if how == "geo":
        txt = P.geo_file(x, conn, "hexa8" if dim == 3 else "quad4")
    elif how == "vtk":
        txt = M.vtk_file(x, conn)
    elif how == "vtu":
        k = g.pick([11, 12, 72]) if dim == 3 else 9
        g.label("vtu%d" % k)
        txt = M.vtu_file(x, conn, [g.i(0, 5)] * len(conn) if g.flip() else None, k, g.pick([None, 1, 7, 1000]), dim=dim)
    else:
        txt = inp(g, x, conn, rs)
    return dim, mesh, {name: txt}, x * np.array(sc[:dim]), conn, how


def inp(g, x, conn, rs):
    """Abaqus input with ids that need not be consecutive and with other sections around"""
    ids = np.arange(1, len(x) + 1)
    mode = g.draw(2)
    if mode == 1:
        ids = ids * g.i(2, 5) + g.i(0, 100)
        g.label("ids with gaps")
    if mode == 2:
        ids = rs.permutation(ids) + g.i(0, 9)
        g.label("ids in any order")
    s = "*Heading\n** Job name: a Model name: b\n"
    if g.flip():
        s += "*Preprint, echo=NO, model=NO\n**\n** PARTS\n**\n"
    s += "*Part, name=Part-1\n" + g.pick(["*Node\n", "*Node, nset=all\n"])
    sep = g.pick([", ", ",", ",   "])
    for k, p in enumerate(x):
        s += "%*d%s" % (g.pick([0, 7]), ids[k], sep) + sep.join("%.17g" % v for v in p) + "\n"
    s += g.pick(["*Element, type=C3D8R\n", "*Element, type=C3D8\n", "*Element, type=C3D8, elset=all\n"])
    for k, e in enumerate(conn):
        s += "%d%s" % (k + 1, sep) + sep.join("%d" % ids[e[j]] for j in P.IJK2ENS) + "\n"
    if g.flip():
        s += "*Nset, nset=Set-1, generate\n  1,  %d,  1\n*Elset, elset=Set-1\n 1\n" % len(x)
    s += "*End Part\n"
    if g.flip():
        s += "**\n*Step, name=Step-1\n*Static\n1., 1., 1e-05, 1.\n*Output, field\n*Node Output\nCF, RF, U\n*Element Output, directions=YES\nLE, PE\n*End Step\n"
    return s


def deck(dim, mesh):
    d = {"dynamic_options": {"time_final": 1.0, "dt_min": 1e-6, "dt_max": 1e-2, "dt_start": 1e-4, "cycle_stop": 0, "rk_num_stages": 1}, "mesh_options": mesh,
         "output_options": {"timer_output_level": "thorough", "output_file_format": "viz", "graphics_time_step": 1e30, "graphics_iteration_step": 1,
                            "gauss_pt_field_outputs": ["level_set", "volume"], "node_field_outputs": ["coords"]},
         "solver_options": [{"solver": {"method": "level_set", "id": 0}}],
         "boundary_conditions": [F.plane_bc(0, -1e20)],
         "materials": [{"material": {"id": 0, "level_set_type": "evolve_front", "normal_velocity": 1.0, "curvature_velocity": 0.0}}],
         "regions": [{"region": {"volume": {"type": "global"}, "material_id": 0, "solver_id": 0, "level_set": {"type": "x_linear", "slope": 1.0, "value": 0.0}}}]}
    return d


def main():
    c = PyCheck("C09", "random meshes, generated from the deck (boxes, polar meshes) or written in every format the program reads (two kinds of element order, ids, layouts, parts of boxes, scale factors); the mesh and the element volumes of the first output are compared with the mesh of the case, and the output is read again; non-trivial: more than one element")
    B = F.build(c)

    def check(g, s, dim, x, conn, how):
        g.require(s.f["_np"] == len(x), "the mesh has", s.f["_np"], "nodes instead of", len(x))
        g.require(s.f["_nc"] == len(conn), "the mesh has", s.f["_nc"], "elements instead of", len(conn))
        tol = 1e-13 * np.abs(x).max()
        R.close(g, x, s.x[:, :dim], tol, "coordinates", 0)
        g.require((s.x[:, dim:] == 0).all(), "a 2D mesh has a third coordinate")
        g.require(s.conn.shape == conn.shape, "the elements have", s.conn.shape[1], "nodes")
        bad = np.where((s.conn != conn).any(1))[0]
        g.require(len(bad) == 0, "the nodes of elements", bad[:5].tolist(), "are not those of the mesh")
        ctr = x[conn].mean(1)
        R.close(g, ctr[:, 0], s.f["level_set"], 1e-12 * np.abs(x).max(), "value at the centre of the element", 0)
        if dim == 2 and x[:, 1].min() < -1e-12 * np.abs(x).max():
            return                      # the volume of the ring of an element below the axis has no meaning
        v = P.hex_vol(x, conn) if dim == 3 else P.quad_vol(x, conn)
        sc = np.ptp(x, axis=0).prod() * (1 if dim == 3 else np.abs(x[:, 1]).max())
        far = np.abs(x).max() / np.ptp(x[conn], axis=1).min()
        R.close(g, v, s.f["vol"], 1e-13 * far * sc + (2e-14 if dim == 2 else 0), "volume", 0)

    def mesh(g):
        dim, m, files, x, conn, how = given(g)
        g.label(how); g.label("dim%d" % dim)
        d = deck(dim, m)
        g.note(F.emit(d))
        for f, t in files.items():
            g.note(t[:1500])
        r = F.ok(g, F.run(B, d, g, files=files))
        g.require(r.nsnaps() == 1, "a run of no cycles wrote", r.nsnaps(), "outputs")
        s = r.snap(0)
        check(g, s, dim, x, conn, how)
        # what the program writes can be read as a mesh again, once the array of the points has its name
        txt = open(os.path.join(r.d, "vtk/data/Fierro.solver0.fields.00000.vtu")).read().replace('<DataArray type="Float64" NumberOfComponents="3"', '<DataArray type="Float64" Name="Points" NumberOfComponents="3"', 1)
        r2 = F.ok(g, F.run(B, deck(dim, {"source": "file", "num_dims": dim, "file_path": "again.vtu"}), g, files={"again.vtu": txt}), "the run on the mesh of the output")
        s2 = r2.snap(0)
        check(g, s2, dim, x, conn, how)
        g.nontrivial(len(conn) > 1)

    def refused(g):
        dim, m, files, x, conn, how = given(g)
        k = g.draw(5)
        if k == 0:
            if not files:
                g.discard()
            f = list(files)[0]
            m["file_path"] = f.rsplit(".", 1)[0] + g.pick([".txt", ".exo", ""])
            files = {m["file_path"]: files[f]}
            g.label("extension")
        elif k == 1:
            if not files:
                g.discard()
            files = {}
            g.label("no file")
        elif k == 2:
            if how != "vtu":
                g.discard()
            f = list(files)[0]
            t = files[f]
            i = g.draw(2)
            if i == 0:
                t = t.replace("NumberOfPoints", "NumPoints")
            elif i == 1:
                t = t.replace('Name="Points"', 'Name="Nodes"')
            else:
                a = t.index("\n", t.index('Name="Points"')) + 1
                t = t[:a] + t[t.index("\n", a) + 1:]
            files = {f: t}
            g.label("vtu without nodes")
        elif k == 3:
            if how != "polar":
                g.discard()
            m["starting_angle"], m["ending_angle"] = g.pick([(-30.0, 30.0), (90.0, 200.0), (0.0, 350.0)])
            if m.get("origin", (0, 0))[1]:
                g.discard()
            if m["inner_radius"] == 0 and m["num_radial_elems"] < 1:
                g.discard()
            g.label("below the axis")
        elif k == 4:
            m["source"] = g.pick(["files", "", "build"])
            g.label("source")
        else:
            if files:
                g.discard()
            m["type"] = g.pick(["ball", "Box "])
            g.label("type")
        d = deck(dim, m)
        g.note(F.emit(d))
        r = F.run(B, d, g, files=files)
        g.require(r.rc != 0 and r.solvers() == [], "a mesh that cannot be had was accepted, exit status", r.rc)
        g.nontrivial(True)

    c.explore("mesh", mesh, 4000, 60000)
    c.explore("refused", refused, 1000, 10000)
    c.finish()

if __name__ == "__main__":
    run(main)
