"""Time stepping and output times as the deck asks for them: an independent model of the cycle loop, and decks that exercise it."""
import copy
import numpy as np


class Clock:
    def __init__(self, deck, t0, t1):
        d, o = deck["dynamic_options"], deck["output_options"]
        self.d, self.t, self.t1 = d, t0, t1
        self.ival, self.every = o.get("graphics_time_step", 1.0), o.get("graphics_iteration_step", 2000000)
        self.fuzz, self.tiny = d.get("fuzz", 1e-16), d.get("tiny", 1e-12)
        self.next, self.dt, self.cycle, self.stop = t0 + self.ival, d["dt_start"], 0, d.get("cycle_stop", 2000000)
        self.why = set()
        self.near = False

    def begin(self, limit):
        """the step to take, from the stable step of every element"""
        d = self.d
        self.before = self.dt
        l = min(max(min(limit, d["dt_max"]), d["dt_min"]), d["dt_max"])
        opts = {"grow": self.dt * 1.1, "stable": l, "dump": max(self.fuzz, self.next - self.t) + self.tiny, "end": self.t1 - self.t + self.tiny}
        self.dt = min(opts.values())
        self.why.update(k for k in opts if opts[k] == self.dt)
        return self.dt

    def end(self):
        """whether the state is written and whether the run ends"""
        self.t += self.dt
        self.cycle += 1
        # a time limit that is met only up to rounding
        for lim in (self.next, self.t1):
            if abs(self.t - lim) < 1e-3 * self.tiny:
                self.near = True
        timed, last = self.t >= self.next, self.t >= self.t1
        w = last or timed or (self.cycle % self.every == 0 and self.cycle > 1) or self.cycle == self.stop
        if timed:
            self.next += self.ival
        if w:
            self.dt = self.before
        return w, last or self.cycle == self.stop


def shuffle_times(g, p, base=None):
    """replaces the fixed steps of a problem by free ones; sets p.spans = [(t0, t1)] per solver"""
    d, o = p.deck["dynamic_options"], p.deck["output_options"]
    dt = base or p.dt
    T = dt * g.pick([1.0, 2.0, 5.0, 8.0, g.real(0.5, 10.0)])
    d["time_final"] = T
    d["dt_start"] = dt * g.pick([1.0, 0.1, 0.3, 0.5, 3.0])
    d["dt_max"] = dt * g.pick([1.0, 0.4, 2.0, 3.0])
    d["dt_min"] = dt * g.pick([1e-3, 1e-6, 0.2, 1.0])
    if d["dt_min"] > d["dt_max"]:
        d["dt_min"] = d["dt_max"]
    d["dt_cfl"] = g.pick([0.4, 0.1, 0.05, 0.02, 0.01, 0.3])
    d["tiny"] = dt * g.pick([1e-3, 1e-5, 1e-7])
    d["fuzz"] = dt * g.pick([1e-12, 1e-9])
    d["cycle_stop"] = g.pick([2000000, 2000000, g.i(1, 12)])
    o["graphics_time_step"] = T * g.pick([10.0, 1.0, 0.5, 0.25, 0.1, g.real(0.1, 1.2)])
    o["graphics_iteration_step"] = g.pick([1000000, 1, 2, 3, g.i(1, 9)])
    ns = 1 if g.chance(2, 3) else 2
    p.spans = [(0.0, T)]
    p.bc_of = [list(range(len(p.deck["boundary_conditions"])))]
    if ns == 2:
        t1 = T * g.pick([0.5, 0.3, g.real(0.1, 0.9)])
        s = p.deck["solver_options"]
        s.append(copy.deepcopy(s[0]))
        s[0]["solver"]["time_end"] = t1
        s[1]["solver"]["id"] = 1
        t2 = T
        k = g.draw(3)
        if k == 1:
            t2 = s[1]["solver"]["time_end"] = t1 + (T - t1) * g.real(0.2, 1.0)
        elif k == 2:
            s[1]["solver"]["time_end"] = 3.0 * T    # the final time is the bound
        p.spans = [(0.0, t1), (t1, t2)]
        bc = p.deck["boundary_conditions"]
        mine = []
        for i in range(len(bc)):
            if g.flip():
                b = copy.deepcopy(bc[i])
                b["boundary_condition"]["solver_id"] = 1
                bc.append(b)
                mine.append(i)
        p.bc_of.append(mine)
    elif g.chance(1, 3):
        t1 = p.deck["solver_options"][0]["solver"]["time_end"] = T * g.real(0.2, 1.0)
        p.spans = [(0.0, t1)]
    return p


def min_dist(x, conn):
    """shortest distance between any two nodes, per element"""
    q = x[conn]
    n = conn.shape[1]
    m = np.full(len(conn), np.inf)
    for i in range(n):
        for j in range(i):
            m = np.minimum(m, np.sqrt(((q[:, i] - q[:, j]) ** 2).sum(1)))
    return m


def gas_limit(st, p):
    d = p.deck["dynamic_options"]
    l = min_dist(st.x, st.conn)
    out = np.inf
    for q in st.m:
        if len(q.el):
            v = d["dt_cfl"] * l[q.el] / (q.sspd + d["fuzz"])
            v = np.where(q.eroded, 1e32, v)
            out = min(out, v.min())
    return out


def heat_limit(mod):
    l = min_dist(mod.p.x, mod.p.conn)
    return min(1.0, (0.3 * l * l / 6.0 * mod.den * mod.cp / mod.k).min())


def level_limit(p):
    d = p.deck["dynamic_options"]
    l = min_dist(p.x, p.conn)
    out = np.inf
    for m in range(p.nm):
        e = p.mat == m
        if e.any():
            v = 1.5 + abs(p.F[m]) + abs(p.kap[m]) / (3.0 * l[e])
            out = min(out, (d["dt_cfl"] * l[e] / (v + d.get("fuzz", 1e-16))).min())
    return out
