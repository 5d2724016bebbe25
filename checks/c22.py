import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, levelset as L, ref_sgh as R

np.seterr(all="ignore")


def main():
    c = PyCheck("C22", "random level set problems in 2D and 3D (meshes, regions with uniform, linear, radial and spherical fields, 1-3 materials with their own front speed, surface conditions); the initial field and every step are compared with an independent model; non-trivial: the field of at least half of the elements is decided and changes")
    B = F.build(c)

    def steps(g):
        p = L.lvl_problem(g)
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mod = L.Model(p)
        prev, changed = None, False
        sc = max(np.abs(p.phi).max(), np.ptp(p.x, axis=0).max())
        for k in range(r.nsnaps()):
            s = r.snap(k)
            if k == 0:
                g.require((s.conn == p.conn).all() and np.abs(s.x[:, :p.dim] - p.x).max() <= 1e-13 * np.abs(p.x).max(), "the mesh is not the one given")
            phi = s.f["level_set"]
            if k == 0:
                R.close(g, p.phi, phi, 1e-11 * sc, "level set", 0)
            else:
                want = prev.copy()
                amb = np.zeros(len(want), bool)
                for q in range(2 if k == 1 and p.steps > 1 else 1):
                    want, G, amb = mod.step(want, p.dt, amb)
                ok = ~amb
                if not np.isfinite(want[ok]).all() or np.abs(want[ok]).max(initial=0) > 1e6 * sc:
                    g.discard()
                R.close(g, want[ok], phi[ok], 1e-9 * sc, "level set", k)
                g.require(np.isfinite(phi).all(), "level set is not a number after output", k)
                if p.rk == 1 and not (k == 1 and p.steps > 1):
                    got = s.f["node_grad_lvlset"][:, :p.dim]
                    R.close(g, G, got, 1e-9 * (np.abs(G).max() + 1e-300), "gradient", k)
                    g.label("gradient")
                changed = changed or (2 * ok.sum() >= len(ok) and np.abs(phi - prev).max() > 1e-6 * p.dt)
                if amb.any():
                    g.label("undecided")
            prev = phi
        g.nontrivial(changed)
        g.label("dim%d" % p.dim); g.label("rk%d" % p.rk); g.label("mats%d" % p.nm)

    c.explore("one-step-level-set", steps, 4000, 50000)
    c.finish()

if __name__ == "__main__":
    run(main)
