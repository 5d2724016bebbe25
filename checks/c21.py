import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, heat as H, ref_sgh as R


def main():
    c = PyCheck("C21", "random heat conduction problems (meshes, 1-7 overlapping regions with their own temperature, conductivity, specific heat and density, 1-3 materials, tabular properties, moving heat source, constant, convection and radiation surfaces); each step is repeated by an independent numpy model; heat is conserved when nothing crosses the surface; non-trivial: a temperature changes")
    B = F.build(c)

    def steps(g):
        p = H.heat_problem(g)
        g.note(F.emit(p.deck)); g.note(p.files.get("mat.inp", ""))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mod = H.Model(p)
        T, changed = None, False
        for k in range(r.nsnaps()):
            s = r.snap(k)
            g.require((s.conn == p.conn).all() and np.abs(s.x - p.x).max() <= 1e-13 * np.abs(p.x).max(), "the mesh is not the one given or moves")
            R.close(g, mod.mass, s.f["node_mass"], 1e-11 * mod.mass.max(), "nodal mass", k)
            got = s.f["node_temp"]
            if k == 0:
                want = mod.fix(p.T.copy())
                R.close(g, want, got, 1e-11 * want.max(), "temperature", 0)
                cap0 = None
            else:
                T = prev.copy()
                if k == 1 and p.moving:
                    mod.lookup(T)
                for q in range(2 if k == 1 and r.nsnaps() > 2 or k == 1 and p.steps > 1 else 1):
                    T = mod.step(T)
                if mod.amb:
                    g.label("tie")
                    g.discard()
                if not (np.abs(T) < 1e5).all():
                    g.discard()
                lo = min(np.abs(T).max(), np.abs(prev).max())
                R.close(g, T, got, 1e-9 * max(np.abs(T).max(), np.abs(prev).max(), np.abs(T - prev).max()), "temperature", k)
                changed = changed or np.abs(got - prev).max() > 1e-9 * lo
                cap = mod.mass * mod.nodal_cp()
                if not p.bcs and not mod.heated:
                    g.require(abs((cap * (got - prev)).sum()) <= 1e-10 * (cap * (np.abs(got) + np.abs(prev))).sum(), "heat is not conserved in an isolated body at output", k)
                    g.label("conserved")
            prev = got
        g.nontrivial(changed)
        g.label("mats%d" % p.nm); g.label("rk%d" % p.rk)
        if p.moving:
            g.label("source" if mod.heated else "source elsewhere")

    c.explore("one-step-heat", steps, 4000, 50000)
    c.finish()

if __name__ == "__main__":
    run(main)
