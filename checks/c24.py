import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, ref_sgh as R


def main():
    c = PyCheck("C24", "random 3D runs with elements that hold two or three materials and pressure relaxation; each step is repeated by an independent numpy model, and sums over the materials of an element are compared; non-trivial: the volume fraction of a material changes")
    B = F.build(c)

    def relaxed(g, geo=False):
        nm = g.pick([2, 2, 3])
        p = P.gas_problem(g, maxelem=24, nmat=nm, mixed=True, erosion=False, steps=g.i(2, 8), mars=g.chance(3, 4))
        for m in range(nm):
            if p.void[m]:
                p.void[m] = False
                p.deck["materials"][m]["material"]["eos_model"] = "gamma_law_gas"
                p.deck["materials"][m]["material"]["eos_global_vars"] = [p.gammas[m], p.csmin[m], 1.0]
        p.deck["output_options"]["graphics_iteration_step"] = 1
        par = (g.pick([0.01, 0.05, 0.2, 0.001, 0.0]), g.pick([0.25, 0.25, 1.0, 0.05, 10.0]))
        how = g.weighted([5, 1, 1])
        mm = p.deck["multimaterial_options"] = {"max_num_mats_per_element": g.pick([3, 3, 4])}
        if how == 0:
            mm.update(mat_equilibration_model="tipton", mat_equilibration_global_vars=list(par))
        elif how == 1:
            mm.update(mat_equilibration_model="no_equilibration", mat_equilibration_global_vars=list(par))
            par = None
        if how == 2 or (how == 0 and g.chance(1, 4)):
            # geometric fractions are all one: relaxing them changes nothing
            mm.update(geo_equilibration_model="tipton", geo_equilibration_global_vars=[0.3, 0.25])
            if how == 2:
                par = None
            g.label("geometric")
        if g.flip():
            p.deck["multimaterial_options"] = dict(reversed(list(mm.items())))
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        n = r.nsnaps()
        mats = R.mats_of(p)
        prev = None
        moved = False
        for k in range(n):
            s = r.snap(k)
            if prev is None:
                neigh = R.neighbours(s.conn)
                prev = s
                tags = R.tags(p, s)
                els = [R.match_elements(s, s.mats.get(m)) for m in range(nm)]
                sums = total(s, els)
                en0 = energy(s)
                continue
            st = R.from_snap(prev, mats, els)
            amb = False
            tight = False
            for q in range(2 if k == 1 and n > 1 else 1):
                amb = R.step(st, mats, p.dt, p.rk, neigh, bc=lambda v, t: R.apply_planes(v, tags), relaxation=par) or amb
            for m in range(nm):
                if len(els[m]):
                    d, d0 = s.mats[m], prev.mats[m]
                    vf = d["mat_volfrac"]
                    if (vf < 0).any() or (vf > 1).any() or np.isnan(vf).any():
                        g.fail("material %d has a volume fraction of %.17g after output %d" % (m, vf[(vf < 0) | (vf > 1) | np.isnan(vf)][0], k))
                    mv = np.abs(vf - d0["mat_volfrac"])
                    moved = moved or mv.max() > 1e-6
                    pure = d0["mat_volfrac"] == 1.0
                    if mv[pure].any():
                        g.fail("the fraction of material %d changed where it fills the element (output %d)" % (m, k))
                    if par is None and mv.any():
                        g.fail("the fraction of material %d changed by %.3g without relaxation of it (output %d)" % (m, mv.max(), k))
            t = total(s, els)
            full = np.abs(sums - 1.0) < 1e-12
            if (np.abs(t - sums)[full] > 1e-9).any():
                g.fail("the fractions of an element add up to %.17g after output %d, and to one at the start" % (t[full][np.argmax(np.abs(t - sums)[full])], k))
            vs = max(np.abs(prev.f["node_vel"]).max(), np.abs(s.f["node_vel"]).max(), 1e-30)
            if p.bc in ("free", "walls") and full.all():
                en = energy(s)
                low = min(d["mat_mass"].min() for d in s.mats.values() if d["_nc"])
                if abs(en - en0) > (1e-10 + 1e-20 / low) * en0:
                    g.fail("total energy changed from %.17g to %.17g by output %d" % (en0, en, k))
                g.label("conserved")
            if amb:
                g.label("tie")
            else:
                tol = 1e-9
                cs = max(d["mat_sspd"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
                R.close(g, st.v, s.f["node_vel"], tol * (vs + cs), "velocity", k)
                R.close(g, st.x, s.x, tol * np.abs(s.x).max(), "position", k)
                for m, q in enumerate(st.m):
                    if len(q.el):
                        d = s.mats[m]
                        R.close(g, q.vf, d["mat_volfrac"] * d["mat_geo_volfrac"], 1e-9, "volume fraction", k)
                        R.close(g, q.sie, d["mat_sie"], 1e-8 * (np.abs(d["mat_sie"]).max() + vs ** 2), "energy", k)
                        R.close(g, q.den, d["mat_den"], 1e-7 * np.abs(d["mat_den"]).max(), "density", k)
                        R.close(g, q.pres, d["mat_pres"], 1e-7 * (np.abs(d["mat_pres"]).max() + d["mat_den"].max() * vs ** 2), "pressure", k)
                        R.close(g, q.sspd, d["mat_sspd"], 1e-6 * (np.abs(d["mat_sspd"]).max() + vs), "sound speed", k)
                g.label("checked")
                if par:
                    g.label("limited" if (st.lim < 1).any() else "unlimited")
            prev = s
        g.nontrivial(moved or par is None)
        g.label("relaxed" if par else "still"); g.label("mats%d" % nm); g.label(p.bc); g.label("rk%d" % p.rk)

    def total(s, els):
        t = np.zeros(len(s.conn))
        for m, e in enumerate(els):
            if len(e):
                t[e] += s.mats[m]["mat_volfrac"] * s.mats[m]["mat_geo_volfrac"]
        return t

    def energy(s):
        return sum((d["mat_mass"] * d["mat_sie"]).sum() for d in s.mats.values() if d["_nc"]) + 0.5 * (s.f["node_mass"] * (s.f["node_vel"] ** 2).sum(1)).sum()

    c.explore("relaxation", relaxed, 900, 6000)
    c.finish()

run(main)
