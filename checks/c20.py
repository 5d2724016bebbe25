import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, ref_sgh as R, ref_rz as Z


def tags(p, s):
    out = []
    be = Z.boundary_edges(s.conn)
    for b in p.bcs:
        o = b["boundary_condition"]["surface"]
        if o["type"] == "cylinder":
            on = np.abs(np.hypot(s.x[:, 0] - o["origin"][0], s.x[:, 1] - o["origin"][1]) - o["radius"]) <= 1e-7
        else:
            on = np.abs(s.x[:, "xy".index(o["type"][0])] - o["plane_position"]) <= 1e-7
        out.append((b["boundary_condition"]["velocity_model"], "xy".index(o["type"][0]) if o["type"] != "cylinder" else None, sorted({n for e in be if on[e[0]] and on[e[1]] for n in e})))
    return out


def apply(v, tg):
    for model, a, nodes in tg:
        if model == "reflected":
            v[nodes, a] = 0.0
        else:
            v[nodes] = 0.0


def main():
    c = PyCheck("C20", "random axisymmetric gas-dynamics problems (boxes, polar meshes, quadrilateral meshes from files) with output of every step; each step is repeated by an independent numpy model; totals are conserved; non-trivial: a velocity or energy changes")
    B = F.build(c)

    def steps(g):
        p = P.rz_problem(g)
        p.deck["output_options"]["graphics_iteration_step"] = 1
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mats = R.mats_of(p)
        tiny = p.deck["dynamic_options"]["tiny"]
        prev, changed = None, False
        for k in range(r.nsnaps()):
            s = r.snap(k)
            s.x = s.x[:, :2]
            s.f["node_vel"] = s.f["node_vel"][:, :2]
            live = [s.mats[m] for m in range(p.nm) if m in s.mats and s.mats[m]["_nc"]]
            mass = [d["mat_mass"] for d in live]
            tot = sum(q.sum() for q in mass)
            if k == 0:
                g.require(s.x.shape == p.x.shape and np.abs(s.x - p.x).max() <= 1e-13 * np.abs(p.x).max(), "the mesh is not the one given")
                g.require((s.conn == p.conn).all(), "the elements are not the ones given")
                neigh, nn, tg = R.neighbours(s.conn), Z.node_neighbours(s.conn), tags(p, s)
                q3 = lambda w: np.hstack([w, np.zeros((len(w), 1))])
                full = r.snap(0)
                els = [R.match_elements(full, full.mats.get(m)) for m in range(p.nm)]
                st0 = R.from_snap(s, mats, els)
                M = s.f["node_mass"] * s.x[:, 1]
                # masses of the nodes from the state of the elements
                want = np.zeros(len(s.x))
                w = Z.corner_areas(s.x, s.conn)
                vol = P.quad_vol(s.x, s.conn)
                for q in st0.m:
                    if len(q.el):
                        np.add.at(want, s.conn[q.el], w[q.el] * (q.den * q.vf)[:, None])
                        R.close(g, q.den * q.vf * vol[q.el], q.mass, 1e-11 * q.mass.max(), "material mass", 0)
                R.close(g, want, s.f["node_mass"], 1e-9 * want.max(), "nodal mass", 0)
                g.require(abs(M.sum() - tot) <= 1e-10 * tot, "sum of nodal masses", M.sum(), "sum of material masses", tot)
                ms = mass
            vel2 = (s.f["node_vel"] ** 2).sum(1)
            ke = 0.5 * (M * vel2).sum()
            ie = sum((d["mat_mass"] * d["mat_sie"]).sum() for d in live)
            sc = ke + sum((d["mat_mass"] * np.abs(d["mat_sie"])).sum() for d in live)
            g.require(all(np.array_equal(a, b) for a, b in zip(ms, mass)), "a material mass changed")
            if k == 0:
                e0, sc0 = ke + ie, sc
            elif s.x[:, 1].min() > tiny or p.axis:
                g.require(abs(ke + ie - e0) <= 1e-10 * (sc + sc0), "total energy of output", k, "is", ke + ie, "was", e0)
            vol = P.quad_vol(s.x, s.conn)
            v_ = s.f["volume"] if "volume" in s.f else s.f["vol"]
            g.require((np.abs(vol - v_) <= 1e-10 * vol.max()).all(), "element volume is not the volume of the ring")
            if prev is None:
                prev = s
                continue
            st = R.from_snap(prev, mats, els)
            st.M = M
            amb = False
            for q in range(2 if k == 1 else 1):
                amb = Z.step(st, mats, p.dt, p.rk, neigh, nn, lambda v: apply(v, tg), tiny) or amb
            vs = max(np.abs(prev.f["node_vel"]).max(), np.abs(s.f["node_vel"]).max(), 1e-30)
            cs = max(d["mat_sspd"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
            tol = 1e-8
            if amb:
                g.label("tie")
            else:
                R.close(g, st.v, s.f["node_vel"], tol * (vs + cs), "velocity", k)
                R.close(g, st.x, s.x, tol * np.abs(s.x).max(), "position", k)
                R.close(g, st.mn, s.f["node_mass"], tol * st.mn.max(), "nodal mass per radius", k)
                for m, q in enumerate(st.m):
                    if len(q.el):
                        d = s.mats[m]
                        R.close(g, q.sie, d["mat_sie"], tol * (np.abs(d["mat_sie"]).max() + (vs + cs) ** 2), "energy", k)
                        R.close(g, q.den, d["mat_den"], tol * np.abs(d["mat_den"]).max(), "density", k)
                        R.close(g, q.pres, d["mat_pres"], tol * (np.abs(d["mat_pres"]).max() + d["mat_den"].max() * (vs + cs) ** 2), "pressure", k)
                        R.close(g, q.sspd, d["mat_sspd"], 1e-6 * (np.abs(d["mat_sspd"]).max() + vs), "sound speed", k)
                g.label("checked")
                changed = changed or np.abs(s.f["node_vel"] - prev.f["node_vel"]).max() > 1e-8 * (vs + cs)
            prev = s
        g.nontrivial(changed)
        g.label("rk%d" % p.rk); g.label("mats%d" % p.nm); g.label("axis" if p.axis else "ring")
        if p.mixed:
            g.label("mixed")
        if any(p.directional):
            g.label("directional")
        if any((d["mat_eroded"] > 0.5).any() for d in prev.mats.values() if d["_nc"]):
            g.label("eroded")

    c.explore("one-step-rz", steps, 5000, 60000)
    c.finish()

if __name__ == "__main__":
    run(main)
