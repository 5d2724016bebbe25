import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, ref_sgh as R


def main():
    c = PyCheck("C15", "random 3D gas-dynamics problems with output of every step; each step is repeated by an independent numpy model of the scheme from the state before it; non-trivial: a velocity or energy changes in the step")
    B = F.build(c)

    def steps(g):
        p = P.gas_problem(g, mars=g.chance(4, 5))
        p.deck["output_options"]["graphics_iteration_step"] = 1
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        n = r.nsnaps()
        mats = R.mats_of(p)
        # which elements hold a material: by the position of the material file's elements
        prev = None
        changed = False
        for k in range(n):
            s = r.snap(k)
            if prev is None:
                neigh = R.neighbours(s.conn)
                prev = s
                tags = R.tags(p, s)
                els = [R.match_elements(s, s.mats.get(m)) for m in range(p.nm)]
                continue
            st = R.from_snap(prev, mats, els)
            amb = False
            for q in range(2 if k == 1 and n > 1 else 1):
                amb = R.step(st, mats, p.dt, p.rk, neigh, bc=lambda v, t: R.apply_planes(v, tags)) or amb
            tol = 1e-9
            vs = max(np.abs(prev.f["node_vel"]).max(), np.abs(s.f["node_vel"]).max(), 1e-30)
            if amb:
                g.label("tie")
            else:
                cs = max(d["mat_sspd"].max() for w in (s, prev) for d in w.mats.values() if d["_nc"])
                R.close(g, st.v, s.f["node_vel"], tol * (vs + cs), "velocity", k)
                R.close(g, st.x, s.x, tol * np.abs(s.x).max(), "position", k)
                for m, q in enumerate(st.m):
                    if len(q.el):
                        d = s.mats[m]
                        R.close(g, q.sie, d["mat_sie"], tol * (np.abs(d["mat_sie"]).max() + vs ** 2), "energy", k)
                        R.close(g, q.den, d["mat_den"], tol * np.abs(d["mat_den"]).max(), "density", k)
                        R.close(g, q.pres, d["mat_pres"], tol * (np.abs(d["mat_pres"]).max() + d["mat_den"].max() * vs ** 2), "pressure", k)
                        R.close(g, q.sspd, d["mat_sspd"], 1e-6 * (np.abs(d["mat_sspd"]).max()+vs), "sound speed", k)
                g.label("checked")
                changed = changed or np.abs(s.f["node_vel"] - prev.f["node_vel"]).max() > 1e-8 * (vs+cs)
            prev = s
        g.nontrivial(changed)
        g.label(p.bc); g.label("rk%d" % p.rk); g.label("mats%d" % p.nm)
        for w in ("directional", "void", "erode"):
            if any(getattr(p, w)):
                g.label(w)
        if p.mixed:
            g.label("mixed")
        if any((d["mat_eroded"] > 0.5).any() for d in prev.mats.values() if d["_nc"]):
            g.label("eroded")

    c.explore("one-step", steps, 1200, 8000)
    c.finish()

run(main)
