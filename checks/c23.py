import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run, known_findings
from fz import PyCheck, Fail
import numpy as np, fierro as F, problems as P, ref_sgh as R, ref_rz as Z
from c20 import tags as rz_tags, apply as rz_apply


def solids(g, p, rz=""):
    """turn materials of a gas problem into elastic-plastic solids: p.strength, p.elastic; shortens the time step to match"""
    es, stiff = 0.0, 0.0
    dens = [r["region"]["density"]["value"] for r in p.deck["regions"] if "density" in r["region"] and "value" in r["region"]["density"]]
    sies = [r["region"]["specific_internal_energy"]["value"] for r in p.deck["regions"] if "specific_internal_energy" in r["region"]]
    den, sie = dens[0], sies[0]
    p.strength, p.elastic = {}, {}
    which = [m for m in range(p.nm) if not p.void[m]]
    for m in which:
        if m != which[0] and g.chance(1, 3):
            continue
        o = p.deck["materials"][m]["material"]
        S = den * sie
        Gm = S * g.pick([1.0, 0.1, 10.0, 100.0])
        Y = g.pick([1e3 * S, 0.0, Gm * g.logreal(1e-5, 1.0), Gm * g.logreal(1e-4, 0.1), Gm * g.logreal(1e-3, 0.1)])
        if g.chance(1, 3):
            B = S * g.pick([1.0, 10.0, 100.0])
            csm = g.pick([1e-14, 1e-14, np.sqrt(sie) * 0.5])
            p.elastic[m] = (B, Gm, den * g.pick([1.0, 1.0, 0.9]))
            p.csmin[m] = csm
            o["eos_model"] = "linear_elastic_eos"
            o["eos_global_vars"] = [B, Gm, p.elastic[m][2], csm]
            stiff = max(stiff, B / S)
        p.strength[m] = (Gm, Y)
        o["strength_model"] = "hypo_plasticity_strength" + rz
        o["strength_model_type"] = "increment_based"
        o["strength_global_vars"] = [Gm, Y]
        stiff = max(stiff, Gm / S)
    old = p.dt
    dmin = min(dens)
    p.dt = old / np.sqrt(1.0 + stiff * den / dmin / 4.0)
    dyn = p.deck["dynamic_options"]
    for k in ("dt_min", "dt_max", "dt_start"):
        dyn[k] = p.dt
    dyn["time_final"] = p.dt * p.steps - 1e-3 * p.dt
    dyn["tiny"] = 1e-3 * p.dt


def main():
    c = PyCheck("C23", "random problems of elastic-plastic solids and gases, 3D and axisymmetric; each step is repeated by an independent numpy model from the state before it; non-trivial: a stress changes in the step")
    B = F.build(c)

    def steps(g):
        p = P.gas_problem(g, mars=g.chance(2, 3))
        solids(g, p)
        p.deck["output_options"]["graphics_iteration_step"] = 1
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        n = r.nsnaps()
        mats = R.mats_of(p)
        prev, changed, yielded = None, False, False
        E0 = None
        for k in range(n):
            s = r.snap(k)
            ke = 0.5 * (s.f["node_mass"] * (s.f["node_vel"] ** 2).sum(1)).sum()
            ie = sum((d["mat_mass"] * d["mat_sie"]).sum() for d in s.mats.values() if d["_nc"])
            E0 = E0 or (ke + ie, ke + sum((d["mat_mass"] * abs(d["mat_sie"])).sum() for d in s.mats.values() if d["_nc"]))
            g.require(abs(ke + ie - E0[0]) <= 1e-10 * (E0[1] + ke), "total energy of output", k, "is", ke + ie, "was", E0[0])
            for m in range(p.nm):
                d = s.mats.get(m)
                if d is None or not d["_nc"]:
                    continue
                T = d["mat_stress"].reshape(-1, 3, 3)
                if m not in p.strength:
                    g.require((T == 0).all(), "a material without strength has a stress deviator at output", k)
                    continue
                Y = p.strength[m][1]
                eq = np.sqrt(1.5 * (T ** 2).sum(axis=(1, 2)))
                g.require((eq <= Y * (1 + 1e-9) + 1e-30).all(), "equivalent stress", eq.max(), "above the yield stress", Y, "at output", k)
                yielded = yielded or (eq > 0.999 * Y).any()
                sc = np.abs(T).max() + p.strength[m][0] * 1e-6
                g.require(np.abs(T - np.swapaxes(T, 1, 2)).max() <= 1e-9 * sc, "unsymmetric stress at output", k)
                g.require(np.abs(np.trace(T, axis1=1, axis2=2)).max() <= 1e-9 * sc, "stress deviator with a trace at output", k)
            if prev is None:
                neigh = R.neighbours(s.conn)
                prev = s
                tags = R.tags(p, s)
                els = [R.match_elements(s, s.mats.get(m)) for m in range(p.nm)]
                continue
            st = R.from_snap(prev, mats, els)
            amb = False
            for q in range(2 if k == 1 and n > 1 else 1):
                amb = R.step(st, mats, p.dt, p.rk, neigh, bc=lambda v, t: R.apply_planes(v, tags)) or amb
            tol = 1e-9
            vs = max(np.abs(prev.f["node_vel"]).max(), np.abs(s.f["node_vel"]).max(), 1e-30)
            if amb:
                g.label("tie")
            else:
                cs = max(d["mat_sspd"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
                dmax = max(d["mat_den"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
                R.close(g, st.v, s.f["node_vel"], tol * (vs + cs), "velocity", k)
                R.close(g, st.x, s.x, tol * np.abs(s.x).max(), "position", k)
                for m, q in enumerate(st.m):
                    if len(q.el):
                        d = s.mats[m]
                        R.close(g, q.sie, d["mat_sie"], tol * (np.abs(d["mat_sie"]).max() + vs ** 2 + cs ** 2), "energy", k)
                        R.close(g, q.den, d["mat_den"], tol * np.abs(d["mat_den"]).max(), "density", k)
                        R.close(g, q.pres, d["mat_pres"], tol * (np.abs(d["mat_pres"]).max() + dmax * (vs ** 2 + cs ** 2)), "pressure", k)
                        R.close(g, q.sspd, d["mat_sspd"], 1e-6 * (np.abs(d["mat_sspd"]).max() + vs), "sound speed", k)
                        T, T0 = d["mat_stress"].reshape(-1, 3, 3), prev.mats[m]["mat_stress"].reshape(-1, 3, 3)
                        G = p.strength[m][0] if m in p.strength else 0.0
                        R.close(g, q.stress, T, tol * (np.abs(T).max() + np.abs(T0).max() + 1e-3 * G), "stress", k)
                        changed = changed or (G > 0 and np.abs(T - T0).max() > 1e-9 * G)
                g.label("checked")
            prev = s
        g.nontrivial(changed)
        g.label(p.bc); g.label("rk%d" % p.rk)
        if yielded:
            g.label("yielded")
        if p.elastic:
            g.label("linear elastic")
        if p.mixed:
            g.label("mixed")
        if any(p.erode):
            g.label("erode")

    def steps_rz(g):
        p = P.rz_problem(g)
        solids(g, p, "_rz")
        p.deck["output_options"]["graphics_iteration_step"] = 1
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mats = R.mats_of(p)
        tiny = p.deck["dynamic_options"]["tiny"]
        prev, changed, yielded, recorded = None, False, False, False
        full = r.snap(0)
        els = [R.match_elements(full, full.mats.get(m)) for m in range(p.nm)]
        for k in range(r.nsnaps()):
            s = r.snap(k)
            s.x = s.x[:, :2]
            s.f["node_vel"] = s.f["node_vel"][:, :2]
            live = [s.mats[m] for m in range(p.nm) if m in s.mats and s.mats[m]["_nc"]]
            if k == 0:
                neigh, nn, tg = R.neighbours(s.conn), Z.node_neighbours(s.conn), rz_tags(p, s)
                M = s.f["node_mass"] * s.x[:, 1]
            ke = 0.5 * (M * (s.f["node_vel"] ** 2).sum(1)).sum()
            ie = sum((d["mat_mass"] * d["mat_sie"]).sum() for d in live)
            sc = ke + sum((d["mat_mass"] * np.abs(d["mat_sie"])).sum() for d in live)
            if k == 0:
                e0, sc0 = ke + ie, sc
            elif s.x[:, 1].min() > tiny or p.axis:
                g.require(abs(ke + ie - e0) <= 1e-10 * (sc + sc0), "total energy of output", k, "is", ke + ie, "was", e0)
            for m in range(p.nm):
                d = s.mats.get(m)
                if d is None or not d["_nc"]:
                    continue
                T = d["mat_stress"].reshape(-1, 3, 3)
                if m not in p.strength:
                    g.require((T == 0).all(), "a material without strength has a stress deviator at output", k)
                    continue
                Y = p.strength[m][1]
                eq = np.sqrt(1.5 * (T ** 2).sum(axis=(1, 2)))
                g.require((eq <= Y * (1 + 1e-9) + 1e-30).all(), "equivalent stress", eq.max(), "above the yield stress", Y, "at output", k)
                yielded = yielded or (eq > 0.999 * Y).any()
                sc_ = np.abs(T).max() + p.strength[m][0] * 1e-6
                g.require(np.abs(T - np.swapaxes(T, 1, 2)).max() <= 1e-9 * sc_, "unsymmetric stress at output", k)
                g.require((T[:, :2, 2] == 0).all(), "shear out of the plane at output", k)
            if prev is None:
                prev = s
                continue
            vs = max(np.abs(prev.f["node_vel"]).max(), np.abs(s.f["node_vel"]).max(), 1e-30)
            cs = max(d["mat_sspd"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
            dmax = max(d["mat_den"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
            tol = 1e-8

            def compare(g, law):
                st = R.from_snap(prev, mats, els)
                st.M = M
                amb = False
                for q in range(2 if k == 1 else 1):
                    amb = Z.step(st, mats, p.dt, p.rk, neigh, nn, lambda v: rz_apply(v, tg), tiny, law) or amb
                if amb:
                    g.label("tie")
                    return False
                R.close(g, st.v, s.f["node_vel"], tol * (vs + cs), "velocity", k)
                R.close(g, st.x, s.x, tol * np.abs(s.x).max(), "position", k)
                ch = False
                for m, q in enumerate(st.m):
                    if len(q.el):
                        d = s.mats[m]
                        R.close(g, q.sie, d["mat_sie"], tol * (np.abs(d["mat_sie"]).max() + (vs + cs) ** 2), "energy", k)
                        R.close(g, q.den, d["mat_den"], tol * np.abs(d["mat_den"]).max(), "density", k)
                        R.close(g, q.pres, d["mat_pres"], tol * (np.abs(d["mat_pres"]).max() + dmax * (vs + cs) ** 2), "pressure", k)
                        R.close(g, q.sspd, d["mat_sspd"], 1e-6 * (np.abs(d["mat_sspd"]).max() + vs), "sound speed", k)
                        T, T0 = d["mat_stress"].reshape(-1, 3, 3), prev.mats[m]["mat_stress"].reshape(-1, 3, 3)
                        G = p.strength[m][0] if m in p.strength else 0.0
                        R.close(g, q.stress, T, tol * (np.abs(T).max() + np.abs(T0).max() + 1e-3 * G), "stress", k)
                        ch = ch or (G > 0 and np.abs(T - T0).max() > 1e-9 * G)
                g.label("checked")
                return ch
            try:
                changed = compare(g, "jaumann") or changed
            except Fail:
                if not listed:
                    raise
                # the recorded finding: exactly the stress rate it describes; anything else is a violation
                changed = compare(g, "recorded") or changed
                recorded = True
            prev = s
        g.nontrivial(changed)
        g.label("rk%d" % p.rk); g.label("axis" if p.axis else "ring")
        if recorded:
            g.label("recorded finding")
        if yielded:
            g.label("yielded")
        if p.elastic:
            g.label("linear elastic")
        if p.mixed:
            g.label("mixed")

    listed = any(q == "C23" and k == "rz-shear" for q, k, t in known_findings())
    c.explore("one-step", steps, 900, 6000)
    c.explore("one-step-rz", steps_rz, 2400, 20000)
    if any(q["labels"].get("recorded finding") for q in c.parts):
        c.known("rz-shear")
    c.finish()

run(main)
