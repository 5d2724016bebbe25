import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, ref_sgh as R, meshio


def near(a, b, scale):
    return np.abs(a - b) <= 1e-9 * scale


def main():
    c = PyCheck("C12", "random meshes painted by 1-8 regions of every volume type, overlapping in any order, with full and partial volume fractions, every velocity type and specific or extensive energies; the initial state of every element, material and node is compared with a model that paints in deck order; non-trivial: at least two regions reach an element")
    B = F.build(c)

    def volume(g, p, xc, obj, files, k):
        """deck entry, inside(x centres) -> bool, ambiguous(x) -> bool"""
        o, l = np.array(p.origin), np.array(p.length)
        sc = float(max(l))
        kinds = ["box", "sphere", "cylinder", "global", "voxel_file"] + (["vtu_file"] * 3 if obj is not None else [])
        kind = g.pick(kinds)
        g.label(kind)
        if kind == "global":
            return {"type": "global"}, np.ones(len(xc), bool), False
        if kind == "vtu_file":
            pid = g.i(0, 3)
            return {"type": "vtu_file", "part_id": pid}, obj == pid, False

        def span(a):
            u = o[a] + l[a] * g.real(-0.1, 0.9)
            v = u + l[a] * g.real(0.1, 1.1)
            q = g.draw(7)
            if q == 0:            # through element centres: the bounds belong to the volume
                u = float(xc[g.draw(len(xc) - 1)][a])
                g.label("bound on centre")
            return float(u), float(max(u, v))
        if kind == "box":
            b = [span(a) for a in range(3)]
            d = {"type": "box"}
            for a in range(3):
                d["xyz"[a] + "1"], d["xyz"[a] + "2"] = b[a]
            ins = np.all([(xc[:, a] >= b[a][0]) & (xc[:, a] <= b[a][1]) for a in range(3)], axis=0)
            amb = any((near(xc[:, a], v, sc)).any() for a in range(3) for v in b[a])
            return d, ins, amb
        if kind in ("sphere", "cylinder"):
            cen = [float(o[a] + l[a] * g.pick([0.0, 0.5, g.real(-0.2, 1.2)])) for a in range(3)]
            r1 = float(g.pick([0.0, 0.0, g.real(0, 0.5) * sc]))
            r2 = r1 + float(g.real(0.1, 1.0)) * sc
            d = {"type": kind, "radius1": r1, "radius2": r2}
            z = cen
            if g.draw(3) == 0:
                z = [0.0, 0.0, 0.0]
            else:
                d["origin"] = tuple(cen)
            n = 3 if kind == "sphere" else 2
            r = np.sqrt(((xc[:, :n] - np.array(z)[:n]) ** 2).sum(1))
            ins = (r >= r1) & (r <= r2)
            amb = near(r, r1, sc).any() and r1 > 0 or near(r, r2, sc).any()
            if kind == "cylinder":
                z1, z2 = span(2)
                d["z1"], d["z2"] = z1, z2
                ins &= (xc[:, 2] >= z1) & (xc[:, 2] <= z2)
                amb = amb or near(xc[:, 2], z1, sc).any() or near(xc[:, 2], z2, sc).any()
            return d, ins, amb
        # a voxel file: rectilinear grid with 0/1 per voxel
        nv = [g.i(1, 4) for _ in range(3)]
        seed = g.draw(1 << 20)
        val = np.random.RandomState(seed).randint(0, 2, nv[0] * nv[1] * nv[2])
        scale = [g.pick([1.0, 1.0, 2.0, 0.5]) for _ in range(3)]
        low = [g.pick([0.0, 0.0, 0.25]) * l[a] for a in range(3)]
        h = [g.pick([0.5, 1.0, 0.3]) * l[a] / nv[a] for a in range(3)]
        org = [float(o[a] + g.pick([0.0, -0.1, 0.37]) * l[a]) for a in range(3)]
        wrap = g.pick([1, 3, 1000])

        def lines(v):
            v = [repr(float(q)) for q in v]
            return "".join(" ".join(v[a:a + wrap]) + "\n" for a in range(0, len(v), wrap))
        t = "# vtk DataFile Version 3.0\nHeader\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS %d %d %d\n" % tuple(q + 1 for q in nv)
        for a in range(3):
            t += "%s_COORDINATES %d float\n%s" % ("XYZ"[a], nv[a] + 1, lines(low[a] + h[a] * np.arange(nv[a] + 1)))
        t += "CELL_DATA %d\nSCALARS density float 1\nLOOKUP_TABLE default\n" % len(val)
        t += "".join(" ".join(str(q) for q in val[a:a + wrap]) + "\n" for a in range(0, len(val), wrap))
        files["vox%d.vtk" % k] = t
        d = {"type": "voxel_file", "file_path": "vox%d.vtk" % k, "scale_x": scale[0], "scale_y": scale[1], "scale_z": scale[2], "origin": tuple(org)}
        i = [(xc[:, a] - org[a] - low[a] * scale[a]) / (h[a] * scale[a]) for a in range(3)]
        amb = any((np.abs(q - np.round(q)) < 1e-8).any() for q in i)
        f = [np.floor(q).astype(int) for q in i]
        inn = np.all([(f[a] >= 0) & (f[a] < nv[a]) for a in range(3)], axis=0)
        idx = np.where(inn, f[0] + nv[0] * (f[1] + nv[1] * f[2]), 0)
        ins = inn & (val[idx] == 1)
        return d, ins, amb

    def case(g):
        p = P.Problem()
        mesh, files, p.n, p.origin, p.length, x, conn, warped = P.mesh_choice(g, 4, True, 40)
        obj = None
        if files and g.flip():
            obj = np.random.RandomState(g.draw(1 << 20)).randint(0, 3, len(conn))
            ids = obj if g.chance(5, 6) else None
            files = {"mesh.vtu": meshio.vtu_file(x, conn, ids, g.pick([11, 12]), g.pick([1, 4, 1000]))}
            mesh = dict(mesh, file_path="mesh.vtu")
            g.label("vtu mesh")
            if ids is None:
                obj = np.zeros(len(conn), int)
        nm = g.i(1, 3)
        xc = x[conn].mean(1)
        sc = float(max(p.length))
        amb = False
        # the model: per element a list of slots [fill, material, volume fraction]
        slots = [[] for _ in conn]
        fills = []
        regs = []
        peak = 1
        for k in range(g.i(1, 8)):
            if k == 0:
                vd, ins, a = {"type": "global"}, np.ones(len(xc), bool), False
            else:
                vd, ins, a = volume(g, p, xc, obj, files, k)
            amb = amb or a
            mat = g.i(0, nm - 1)
            den = g.pick([1.0, 0.125, g.u(0.01, 10)])
            use_sie = g.flip()
            e = g.pick([1.0, 2.5, g.u(0.01, 10)])
            # volume fraction
            q = 0 if k == 0 else g.weighted([5, 2, 1, 1, 1])
            o = np.array(p.origin)
            if q == 0:
                vf, vfd = np.ones(len(xc)), F.uni(1.0)
            elif q == 1:
                v = g.pick([0.5, 0.25, 0.0, 1.5, -0.5, g.u(0, 1)])
                vf, vfd = np.full(len(xc), v), F.uni(v)
            elif q == 2:
                ax, v, s = g.draw(2), g.u(-0.2, 1), g.u(-1, 1) / sc
                vf, vfd = s * xc[:, ax] + v, {"type": "xyz"[ax] + "_linear", "value": v, "slope": s}
            else:
                m = 2 if q == 3 else 3
                cen = [float(o[a] + p.length[a] * g.u(-0.2, 1.2)) for a in range(3)]
                v, s = g.pick([0.0, g.u(-1, 1) * sc ** 2]), g.u(0, 1) / sc
                vfd = {"type": ("radial", "spherical")[q - 3], "value": v, "slope": s}
                z = cen
                if g.draw(3) == 0:
                    z = [0.0, 0.0, 0.0]
                else:
                    vfd["origin"] = tuple(cen)
                r2 = ((xc[:, :m] - np.array(z)[:m]) ** 2).sum(1) - v
                amb = amb or (np.abs(r2) < 1e-9 * sc ** 2).any()
                vf = np.where(r2 >= 0, s * np.sqrt(np.maximum(r2, 0)), 0.0)
                g.label(vfd["type"] + " fraction")
            vf = np.clip(vf, 0.0, 1.0)
            amb = amb or (ins & (np.abs(vf - (1.0 - 1e-8)) < 1e-10)).any()
            vel = None if (k > 0 and g.chance(1, 3)) else P.vel_choice(g, 2.0, ("cartesian", "radial", "spherical", "static", "tg_vortex"))
            kw = {}
            if use_sie:
                kw["specific_internal_energy"] = F.uni(e)
            else:
                kw["internal_energy"] = F.uni(e)
            r = F.region(mat, vd, den, None, vel, volfrac=vfd, **kw)
            regs.append(r)
            fills.append((mat, den, use_sie, e, vel))
            for el in np.where(ins)[0]:
                s = slots[el]
                if vf[el] < 1.0 - 1e-8:
                    for w in s:
                        if fills[w[0]][0] == mat:
                            w[0], w[1] = k, vf[el]
                            break
                    else:
                        s.append([k, vf[el]])
                        peak = max(peak, len(s))
                    g.label("partial")
                else:
                    slots[el] = [[k, 1.0]]
        if amb:
            g.discard()
        most = max(len(s) for s in slots)
        mm = g.pick([None, nm, peak])
        dt = 1e-9 * sc
        # zero volume fractions make no material: a step would divide by nothing, so the run ends at once
        deck = {"dynamic_options": {"time_final": 0.5 * dt, "dt_min": dt, "dt_max": dt, "dt_start": dt, "dt_cfl": 0.4, "cycle_stop": 0},
                "mesh_options": mesh, "output_options": F.output_options(), "solver_options": [{"solver": {"method": "dynx_FE", "id": 0}}],
                "boundary_conditions": [F.plane_bc(0, p.origin[0] - 7.7 * p.length[0])], "materials": [F.gas(m) for m in range(nm)]}
        if mm is not None:
            deck["multimaterial_options"] = {"max_num_mats_per_element": mm}
        deck["regions"] = regs
        g.note(F.emit(deck))
        g.label("mats%d" % nm); g.label("most%d" % most)
        r = F.run(B, deck, g, files=files)
        F.ok(g, r)
        s = r.snap(0)
        vol = P.hex_vol(x, conn)
        g.require(s.x.shape == x.shape and np.abs(s.x - x).max() <= 1e-13 * np.abs(x).max(), "the mesh is not the one given")
        g.require((s.conn == conn).all(), "the elements are not the ones given")
        # materials
        emb = {m: [] for m in range(nm)}
        for el, sl in enumerate(slots):
            for f, v in sl:
                emb[fills[f][0]].append((el, f, v))
        for m in range(nm):
            d = s.mats.get(m)
            got = R.match_elements(s, d)
            want = emb[m]
            g.require(len(got) == len(want), "material", m, "is in", len(got), "elements, the regions put it in", len(want))
            order = {el: a for a, el in enumerate(got)}
            for el, f, v in want:
                g.require(el in order, "material", m, "is missing in element", el)
                a = order[el]
                _, den, use_sie, e, _ = fills[f]
                def eq(name, value):
                    w = d["mat_" + name][a]
                    g.require(abs(w - value) <= 1e-11 * abs(value) + 1e-300, "material", m, "element", el, name, "is", w, "the regions give", value)
                eq("volfrac", v)
                eq("den", den)
                eq("mass", den * vol[el] * v)
                if use_sie:
                    eq("sie", e)
                elif v > 0:
                    eq("sie", e / (den * vol[el] * v))
                eq("eroded", 0.0)
                if v > 0 and s.f["mass"] is not None:
                    eq("pres", 0.4 * den * d["mat_sie"][a])
        # element averages and nodes
        mass = np.zeros(len(conn))
        for el, sl in enumerate(slots):
            mass[el] = sum(fills[f][1] * vol[el] * v for f, v in sl)
        g.require((np.abs(s.f["mass"] - mass) <= 1e-11 * (mass + 1e-300)).all(), "element masses")
        nmass = np.zeros(len(x))
        for el, e in enumerate(conn):
            nmass[e] += mass[el] / 8.0
        g.require((np.abs(s.f["node_mass"] - nmass) <= 1e-11 * (nmass + 1e-300)).all(), "nodal masses")
        v = np.zeros_like(x)
        for el, e in enumerate(conn):
            for f, _ in slots[el]:
                u = fills[f][4]
                if u is None:
                    continue
                y = x[e]
                if u["type"] == "cartesian":
                    v[e] = [u["u"], u["v"], u["w"]]
                elif u["type"] == "static":
                    v[e] = 0.0
                elif u["type"] == "tg_vortex":
                    v[e] = np.stack([np.sin(np.pi * y[:, 0]) * np.cos(np.pi * y[:, 1]), -np.cos(np.pi * y[:, 0]) * np.sin(np.pi * y[:, 1]), 0 * y[:, 0]], 1)
                else:
                    w = y.copy()
                    if u["type"] == "radial":
                        w[:, 2] = 0.0
                    n = np.sqrt((w ** 2).sum(1))
                    if ((n < 1e-13) & (n > 1e-15)).any():
                        g.discard()
                    v[e] = u["speed"] * np.where((n > 1e-14)[:, None], w / np.maximum(n, 1e-300)[:, None], 0.0)
        R.close(g, v, s.f["node_vel"], 1e-11 * (1 + np.abs(v).max()), "nodal velocity", 0)
        g.nontrivial(len(fills) > 1 and any(any(f > 0 for f, _ in sl) for sl in slots))

    c.explore("regions", case, 8000, 60000)
    c.finish()

run(main)
