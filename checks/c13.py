import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, ref_sgh as R


def main():
    c = PyCheck("C13", "random 3D gas-dynamics problems with 1-6 boundary conditions on planes, cylinders and spheres: every velocity and stress model, any direction, time window and tolerance, overlapping surfaces; each step is repeated by a model that tags the surfaces and applies the conditions itself; non-trivial: a condition acts on at least one node and something moves")
    B = F.build(c)

    def condition(g, p, speed, pscale, T, known):
        """returns the deck entry and the model: dict(dist=fn(x), tol, vel=(model, vars), stress=(model, vars))"""
        o, l = np.array(p.origin), np.array(p.length)
        d = {"solver_id": 0}
        k = g.weighted([5, 2, 2])
        tol = 1e-7
        if k == 0:
            a = g.draw(2)
            pos = float(o[a] + l[a] * g.pick([0.0, 1.0, 0.0, 1.0, g.real(0, 1), -3.3]))
            s = {"type": "xyz"[a] + "_plane", "plane_position": pos}
            dist = lambda x: np.abs(x[:, a] - pos)
        else:
            cen = [float(o[a] + l[a] * g.pick([0.0, 0.5, 1.0, g.real(-0.5, 1.5)])) for a in range(3)]
            rad = float(np.sqrt(sum((l[a] * g.pick([0.0, 0.5, 1.0, g.real(0, 1)])) ** 2 for a in range(3 if k == 2 else 2))))
            s = {"type": "cylinder" if k == 1 else "sphere", "radius": rad}
            z = cen[:]
            q = g.draw(3)
            if q == 0:
                z = [0.0, 0.0, 0.0]
            elif q == 1:
                z[2] = 0.0
                s["origin"] = tuple(cen[:2])
            else:
                s["origin"] = tuple(cen)
            nd_ = 2 if k == 1 else 3
            dist = lambda x: np.abs(np.sqrt(((x[:, :nd_] - np.array(z)[:nd_]) ** 2).sum(1)) - rad)
        if g.chance(1, 2) if k == 0 else g.chance(5, 6):
            tol = float(g.pick([1e-3, 0.1, 0.3, 0.6, g.u(0, 1)]) * max(l))
            s["tolerance"] = tol
        if g.draw(3) == 0:          # the order of the keys under surface is free
            s = dict(reversed(list(s.items())))
        d["surface"] = s
        what = g.weighted([5, 3, 1])
        m = {"dist": dist, "tol": tol, "vel": None, "stress": None}

        def window():
            q = g.draw(3)
            if q == 0:
                return -0.25 * T, 1e9
            if q == 1:
                return float(g.u(0, 1) * T), 1e9
            a = float(g.u(-0.2, 0.8) * T)
            return a, a + float(g.u(0.05, 1) * T)
        if what != 1:
            vm = g.pick(["reflected", "fixed", "constant", "time_varying", "piston"])
            n = g.pick([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -2, 0), (1, 1, 0), (1, -1, 0.5), tuple(g.u(-1, 1) for _ in range(3))])
            n = [float(q) for q in n]
            if np.abs(n).max() < 1e-2:
                n = [0.0, 0.0, 1.0]
            if vm == "fixed":
                vv = []
            elif vm == "constant":
                vv = [g.u(-1, 1) * speed for _ in range(3)]
            elif vm == "reflected":
                vv = n
            elif vm == "time_varying":
                vv = n + [g.u(-1, 1) * speed, g.pick([0.0, g.u(-2, 2) / T])] + list(window())
            else:
                vv = n + [g.u(-1, 1) * speed, g.u(-1, 1) * speed / T, g.u(-1, 1) * speed / T ** 2] + list(window())
            d["velocity_model"] = vm
            if vv:
                d["velocity_bc_global_vars"] = vv
            m["vel"] = (vm, vv)
            g.label("v:" + vm)
        if what != 0:
            sm = g.pick(["constant", "time_varying"])
            sv = [float(g.pick([g.u(-1, 1), g.u(-1, 1), 0.0]) * pscale) for _ in range(6)]
            if sm == "time_varying":
                sv += [g.pick([0.0, g.u(-2, 2) / T])] + list(window())
            d["stress_model"] = sm
            d["stress_bc_global_vars"] = sv
            m["stress"] = (sm, sv)
            g.label("s:" + sm)
        g.label(s["type"])
        if g.draw(3) == 0:
            d = dict(reversed(list(d.items())))
        return {"boundary_condition": d}, m

    def case(g):
        p = P.gas_problem(g, bcs=("free",), lim=3, maxelem=24, regions=2, mars=g.flip(), erosion=False, nmat=g.pick([1, 1, 1, 2]), steps=g.i(2, 6))
        p.deck["output_options"]["graphics_iteration_step"] = 1
        T = p.dt * p.steps
        dens = [r["region"]["density"]["value"] for r in p.deck["regions"]]
        sies = [r["region"]["specific_internal_energy"]["value"] for r in p.deck["regions"]]
        speed, pscale = float(np.sqrt(max(sies))), float(max(dens) * max(sies))
        entries, models = [], []
        for k in range(g.i(1, 6)):
            e, m = condition(g, p, speed, pscale, T, None)
            entries.append(e); models.append(m)
        p.deck["boundary_conditions"] = entries
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        n = r.nsnaps()
        mats = R.mats_of(p)
        prev, act, changed = None, False, False
        t = 0.0
        for k in range(n):
            s = r.snap(k)
            if prev is None:
                neigh = R.neighbours(s.conn)
                els = [R.match_elements(s, s.mats.get(m)) for m in range(p.nm)]
                bf = np.array(R.boundary_faces(s.conn))
                for m in models:
                    dd = m["dist"](s.x)
                    if (np.abs(dd[np.unique(bf)] - m["tol"]) < 1e-9 * max(np.abs(s.x).max(), m["tol"])).any():
                        g.discard()
                    m["faces"] = bf[(dd <= m["tol"])[bf].all(1)]
                    m["nodes"] = np.unique(m["faces"])
                    if len(m["nodes"]):
                        act = True
                        g.label("acts:" + ("v" if m["vel"] else "") + ("s" if m["stress"] else ""))
                prev = s

                def bc(v, t, last=False):
                    """in the order of the deck; last: only the condition that comes last at each node"""
                    for a, m in enumerate(models):
                        if not m["vel"] or not len(m["nodes"]):
                            continue
                        vm, vv = m["vel"]
                        nd = m["nodes"]
                        if last:
                            for m2 in models[a + 1:]:
                                if m2["vel"] and (len(m2["vel"][1]) < 7 or m2["vel"][1][-2] <= t <= m2["vel"][1][-1]):
                                    nd = np.setdiff1d(nd, m2["nodes"])
                        if vm == "fixed":
                            v[nd] = 0.0
                        elif vm == "constant":
                            v[nd] = vv
                        else:
                            u = np.array(vv[:3]) / np.sqrt(sum(q * q for q in vv[:3]))
                            if vm == "reflected":
                                val = 0.0
                            else:
                                ts, te = vv[-2:]
                                if not ts <= t <= te:
                                    continue
                                w = t - ts
                                val = vv[3] * np.exp(-vv[4] * w) if vm == "time_varying" else vv[3] + vv[4] * w + 0.5 * vv[5] * w * w
                            v[nd] += (val - v[nd] @ u)[:, None] * u

                def bf_(x, t):
                    f = np.zeros_like(x)
                    for m in models:
                        if not m["stress"]:
                            continue
                        sm, sv = m["stress"]
                        sg = np.array([[sv[0], sv[5], sv[4]], [sv[5], sv[1], sv[3]], [sv[4], sv[3], sv[2]]])
                        if sm == "time_varying":
                            if not sv[7] <= t <= sv[8]:
                                continue
                            sg = sg * np.exp(-sv[6] * (t - sv[7]))
                        for q in m["faces"]:
                            y = x[q]
                            # outward area vector of the quadrilateral: half the cross product of its diagonals
                            A = 0.5 * np.cross(y[2] - y[0], y[3] - y[1])
                            f[q] += sg @ A / 4.0
                    return f
                # the conditions hold in the initial state already
                v = s.f["node_vel"].copy()
                bc(v, 0.0, True)
                R.close(g, v, s.f["node_vel"], 1e-11 * (speed + np.abs(v).max()), "initial velocity", 0)
                continue
            st = R.from_snap(prev, mats, els)
            amb = False
            for q in range(2 if k == 1 and n > 1 else 1):
                amb = R.step(st, mats, p.dt, p.rk, neigh, bc=bc, bdy_force=bf_, t=t) or amb
                t += p.dt
            vs = max(np.abs(prev.f["node_vel"]).max(), np.abs(s.f["node_vel"]).max(), 1e-30)
            if amb:
                g.label("tie")
            elif not np.isfinite(s.f["node_vel"]).all():
                g.label("not finite")
                break
            else:
                sc = speed + vs
                R.close(g, st.v, s.f["node_vel"], 1e-9 * sc, "velocity", k)
                R.close(g, st.x, s.x, 1e-9 * np.abs(s.x).max(), "position", k)
                for m, q in enumerate(st.m):
                    if len(q.el):
                        d = s.mats[m]
                        R.close(g, q.sie, d["mat_sie"], 1e-9 * (np.abs(d["mat_sie"]).max() + vs ** 2), "energy", k)
                changed = changed or np.abs(s.x - prev.x).max() > 0
                g.label("checked")
            prev = s
        g.nontrivial(act and changed)

    c.explore("conditions", case, 1500, 9000)
    c.finish()

run(main)
