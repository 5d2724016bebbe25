import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P


def main():
    c = PyCheck("C16", "random 3D gas-dynamics problems (1-48 hexahedra, plain or distorted, 1-2 materials, 1-5 overlapping regions, walls or free surfaces, 1-3 stage time integration, 2-12 steps); non-trivial: something moves")
    B = F.build(c)

    def totals(s):
        m, v = s.f["node_mass"], s.f["node_vel"]
        out = {"mass": m.sum(), "mom": (m[:, None] * v).sum(0), "ke": 0.5 * (m * (v ** 2).sum(1)).sum(), "absmom": (m * np.abs(v).sum(1)).sum()}
        out["ie"] = sum((d["mat_mass"] * d["mat_sie"]).sum() for d in s.mats.values() if d["_nc"])
        out["absie"] = sum((d["mat_mass"] * np.abs(d["mat_sie"])).sum() for d in s.mats.values() if d["_nc"])
        return out

    def conservation(g):
        p = P.gas_problem(g)
        p.deck["output_options"]["graphics_iteration_step"] = g.pick([1, 2, 3])
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        n = r.nsnaps()
        s0 = r.snap(0)
        t0 = totals(s0)
        free = p.bc == "free"
        for k in range(n):
            s = r.snap(k)
            t = totals(s)
            if not np.isfinite(s.f["node_coords"]).all():
                g.fail("non-finite positions")
            scale = t0["ke"] + t0["absie"] + t["ke"] + t["absie"]
            g.require(abs(t["ke"] + t["ie"] - t0["ke"] - t0["ie"]) <= 1e-11 * scale, "total energy of output", k, "is", t["ke"] + t["ie"], "was", t0["ke"] + t0["ie"])
            g.require(np.array_equal(s.f["node_mass"], s0.f["node_mass"]), "a nodal mass changed")
            for m in s.mats:
                g.require(np.array_equal(s.mats[m]["mat_mass"], s0.mats[m]["mat_mass"]), "a material mass changed")
            mm = sum(d["mat_mass"].sum() for d in s.mats.values() if d["_nc"])
            g.require(abs(mm - t["mass"]) <= 1e-12 * t["mass"], "sum of nodal masses", t["mass"], "sum of material masses", mm)
            if free:
                e = np.sqrt(2 * t["mass"] * scale) + t["absmom"] + t0["absmom"]
                g.require((np.abs(t["mom"] - t0["mom"]) <= 1e-11 * e).all(), "momentum of output", k, t["mom"], "was", t0["mom"])
            vol = P.hex_vol(s.x, s.conn)
            g.require((np.abs(vol - s.f["volume"] if "volume" in s.f else vol - s.f["vol"]) <= 1e-11 * np.abs(vol).max()).all(), "element volume is not the volume of the element")
        last = r.snap(-1)
        moved = np.abs(last.x - s0.x).max() > 0
        g.nontrivial(moved)
        g.label(p.bc); g.label("mats%d" % p.nm)
        a, e, d = r.energies()
        t = totals(last)
        sc = abs(t["ke"]) + abs(t["absie"])
        g.require(abs(d) <= 1e-11 * sc + 1e-300, "the program reports an energy change of", d, "with energies of", sc)
        for what, v in (("KE", t["ke"]), ("IE", t["ie"]), ("TE", t["ke"] + t["ie"])):
            got = e[("KE", "IE", "TE").index(what)]
            g.require(abs(got - v) <= 1e-11 * sc + 6e-15, "printed final", what, got, "but fields give", v)

    c.explore("conservation", conservation, 1200, 8000)
    c.finish()

run(main)
