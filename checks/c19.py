import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, heat as H, levelset as L, ref_sgh as R, ref_rz as Z, timeline as T


np.seterr(all="ignore")


def main():
    c = PyCheck("C19", "random problems of the 3D, axisymmetric, heat conduction and level set solvers, one or two solvers in a row, with random time step bounds, growth, stable-step factors, final times, cycle limits and output intervals; the whole run is repeated by an independent model that picks every step and every output; non-trivial: at least two outputs after the first and two different rules that bound a step")
    B = F.build(c)

    def follow(g, r, p, s, start, limit, step, read, compare):
        """one solver: start(first snapshot) -> state; returns the clock"""
        clk = T.Clock(p.deck, *p.spans[s])
        times = r.times(s)
        g.require(len(times) == r.nsnaps(s), "the list of outputs has", len(times), "times for", r.nsnaps(s), "outputs")
        first = read(0)
        st = start(first)
        k = 0
        g.require(abs(times[0] - clk.t) <= 1.1e-5 * clk.t, "the first output is at", times[0], "the solver starts at", clk.t)
        n = 0
        while clk.stop > 0:
            dt = clk.begin(limit(st))
            n += 1
            if n > 600:
                g.discard()
            ok = step(st, dt)
            if not ok:
                g.label("tie")
                g.discard()
            w, done = clk.end()
            if clk.near:
                g.label("rounding")
                g.discard()
            if w:
                k += 1
                g.require(r.nsnaps(s) > k, "solver", s, "wrote", r.nsnaps(s) - 1, "outputs after the first; an output at time", clk.t, "cycle", clk.cycle, "is missing")
                g.require(abs(times[k] - clk.t) <= 1.1e-5 * clk.t, "output", k, "of solver", s, "is at time", times[k], "expected at", clk.t)
                st = compare(st, read(k), k)
            if done:
                break
        g.require(r.nsnaps(s) == k + 1, "solver", s, "wrote", r.nsnaps(s), "outputs, expected", k + 1, "times", times[:k + 5])
        g.label("cycle limit" if clk.cycle == clk.stop and clk.t < clk.t1 else "final time")
        for w in sorted(clk.why):
            g.label(w)
        return clk, k, st

    def conclude(g, p, got):
        g.nontrivial(sum(k for _, k, _ in got) >= 2 and len(set().union(*[q.why for q, _, _ in got])) >= 2)
        g.label("solvers%d" % len(got))

    def gas(g, rz):
        p = P.rz_problem(g) if rz else P.gas_problem(g, mars=g.chance(1, 3), maxelem=24)
        T.shuffle_times(g, p)
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mats = R.mats_of(p)
        tiny = p.deck["dynamic_options"]["tiny"]
        full = r.snap(0, 0)
        els = [R.match_elements(full, full.mats.get(m)) for m in range(p.nm)]
        neigh = R.neighbours(full.conn)
        got = []
        if rz:
            import c20
            nn = Z.node_neighbours(full.conn)
            M = full.f["node_mass"] * full.x[:, 1]

        def read(s):
            def f(k):
                q = r.snap(k, s)
                if rz:
                    q.x = q.x[:, :2]
                    q.f["node_vel"] = q.f["node_vel"][:, :2]
                return q
            return f
        last = None
        scale = [max(d["mat_sspd"].max() for d in full.mats.values() if d["_nc"]) + np.sqrt(max(d["mat_sie"].max() for d in full.mats.values() if d["_nc"]))]
        for s in range(len(p.spans)):
            sub = type("Q", (), {})()
            sub.bcs = [p.bcs[i] for i in p.bc_of[s]]
            snap0 = read(0)(0)
            if rz:
                sub.__dict__.update({k: v for k, v in p.__dict__.items() if k != "bcs"})
                tg = c20.tags(sub, read(s)(0)) if s == 0 else c20.tags(sub, snap0)
                bc = lambda v: c20.apply(v, tg)
            else:
                tg = R.tags(sub, snap0)
                bc = lambda v, t=0: R.apply_planes(v, tg)

            def start(q):
                st = R.from_snap(q, mats, els)
                if rz:
                    st.M = M
                if s > 0:
                    v = last.v.copy()
                    bc(v)
                    R.close(g, v, st.v, 1e-12 * (np.abs(v).max() + 1e-300), "velocity of the second solver's first output", 0)
                    R.close(g, last.x, st.x, 1e-12 * np.abs(st.x).max(), "position of the second solver's first output", 0)
                    for a, b in zip(last.m, st.m):
                        if len(a.el):
                            R.close(g, a.sie, b.sie, 1e-12 * np.abs(a.sie).max(), "energy of the second solver's first output", 0)
                return st

            def step(st, dt):
                if rz:
                    amb = Z.step(st, mats, dt, p.rk, neigh, nn, bc, tiny)
                    vol = P.quad_vol(st.x, st.conn)
                else:
                    amb = R.step(st, mats, dt, p.rk, neigh, bc=bc, fuzz=p.deck["dynamic_options"]["fuzz"])
                    vol = P.hex_vol(st.x, st.conn)
                return not amb and bool((vol > 0).all()) and bool(np.isfinite(st.v).all()) and all(np.isfinite(q.sspd).all() for q in st.m)

            def compare(st, q, k):
                cs = max(d["mat_sspd"].max() for d in q.mats.values() if d["_nc"])
                scale[0] = vs = max(np.abs(q.f["node_vel"]).max() + cs, scale[0])
                R.close(g, st.v, q.f["node_vel"], 1e-7 * vs, "velocity", k)
                R.close(g, st.x, q.x, 1e-8 * np.abs(q.x).max(), "position", k)
                for m, a in enumerate(st.m):
                    if len(a.el):
                        R.close(g, a.sie, q.mats[m]["mat_sie"], 1e-7 * (np.abs(a.sie).max() + vs ** 2), "energy", k)
                st = R.from_snap(q, mats, els)
                if rz:
                    st.M = M
                return st
            got.append(follow(g, r, p, s, start, lambda st: T.gas_limit(st, p), step, read(s), compare))
            last = got[-1][2]
        conclude(g, p, got)

    def heat(g):
        p = H.heat_problem(g, maxelem=24)
        T.shuffle_times(g, p)
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mod = H.Model(p)
        allsets = mod.sets
        got, last = [], None
        for s in range(len(p.spans)):
            mod.sets = [allsets[i] for i in p.bc_of[s] if i < len(allsets)]

            def start(q):
                Tn = q.f["node_temp"].copy()
                want = mod.fix((p.T if s == 0 else last).copy())
                R.close(g, want, Tn, 1e-11 * want.max(), "first temperature", 0)
                if p.moving:
                    mod.lookup(Tn)
                mod.t = p.spans[s][0]
                return [Tn]

            def step(st, dt):
                st[0] = mod.step(st[0], dt)
                return not mod.amb and bool((np.abs(st[0]) < 1e5).all())

            def compare(st, q, k):
                w = q.f["node_temp"]
                R.close(g, st[0], w, 1e-8 * np.abs(w).max(), "temperature", k)
                return [w.copy()]
            got.append(follow(g, r, p, s, start, lambda st: T.heat_limit(mod), step, lambda k: r.snap(k, s), compare))
            last = got[-1][2][0]
        conclude(g, p, got)

    def level(g):
        p = L.lvl_problem(g, maxelem=24)
        if not all(p.on):
            g.discard()
        d = p.deck["dynamic_options"]
        T.shuffle_times(g, p)
        # a step much longer than the stable one would only make noise
        if d["dt_min"] > 2 * d["dt_cfl"] * T.min_dist(p.x, p.conn).min():
            d["dt_min"] = 1e-3 * d["dt_max"]
        g.note(F.emit(p.deck))
        r = F.ok(g, F.run(B, p.deck, g, files=p.files))
        mod = L.Model(p)
        alltags = mod.tags
        sc = max(np.abs(p.phi).max(), np.ptp(p.x, axis=0).max())
        got, last = [], None
        for s in range(len(p.spans)):
            mod.tags = [alltags[i] for i in p.bc_of[s] if i < len(alltags)]

            def start(q):
                w = q.f["level_set"].copy()
                R.close(g, p.phi if s == 0 else last[0], w, 1e-11 * sc, "first level set", 0)
                return [w, np.zeros(len(w), bool)]

            def step(st, dt):
                st[0], G, st[1] = mod.step(st[0], dt, st[1])
                ok = ~st[1]
                return bool(np.isfinite(st[0][ok]).all() and np.abs(st[0][ok]).max(initial=0) < 1e6 * sc)

            def compare(st, q, k):
                w, ok = q.f["level_set"], ~st[1]
                R.close(g, st[0][ok], w[ok], 1e-8 * sc, "level set", k)
                return [w.copy(), np.zeros(len(w), bool)]
            got.append(follow(g, r, p, s, start, lambda st: T.level_limit(p), step, lambda k: r.snap(k, s), compare))
            last = got[-1][2]
        conclude(g, p, got)

    c.explore("gas", lambda g: gas(g, False), 600, 8000)
    c.explore("gas-rz", lambda g: gas(g, True), 1000, 15000)
    c.explore("heat", heat, 1000, 15000)
    c.explore("level-set", level, 1000, 15000)
    c.finish()

if __name__ == "__main__":
    run(main)
