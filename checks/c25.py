import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run, known_findings
from fz import PyCheck
import copy
import numpy as np, fierro as F, problems as P


def pair(g, miss=False, small=False):
    """two separate bodies, one beyond the other along an axis, that move towards each other"""
    p = P.Problem()
    a = p.axis = g.i(0, 2)
    # lengths well above the recorded absolute tolerance of 0.01
    s = p.scale = 0.1 if small else g.pick([1.0, 1.0, 3.0, 10.0])
    n = [[g.i(1, 3) for _ in range(3)] for _ in range(2)]
    L = [np.array([k * g.pick([1.0, 0.7, 0.5]) for k in n[b]]) * s for b in range(2)]
    o = [np.array([g.pick([0.0, -1.0, 2.0, g.u(-3, 3)]) for _ in range(3)]) * s, None]
    p.gap = g.pick([0.02, 0.1, 0.3]) * g.u(0.9, 1.1) * s       # no touch at a round time
    o[1] = o[0].copy()
    o[1][a] = o[0][a] + L[0][a] + p.gap
    side = [b for b in range(3) if b != a]
    if miss:
        # the second body is shifted to the side, past the first
        b = g.pick(side)
        d = g.pick([0.05, 0.5]) * s
        o[1][b] = o[0][b] + (L[0][b] + d if g.flip() else -L[1][b] - d)
        side.remove(b)
    for b in side:
        # overlap of a fifth of the smaller side at least; edges of one body are not on edges of the other
        m = min(L[0][b], L[1][b])
        o[1][b] = o[0][b] + g.u(-L[1][b] + 0.2 * m, L[0][b] - 0.2 * m) + 1.2345e-3 * s
    p.x = np.vstack([P.box_nodes(n[b], o[b], L[b]) for b in range(2)])
    p.first = int(np.prod(np.array(n[0]) + 1))
    p.conn = np.vstack([P.box_conn(n[0]), P.box_conn(n[1]) + p.first])
    p.h = min((L[b] / n[b]).min() for b in range(2))
    p.speed = g.pick([0.02, 0.1, 0.3])
    share = g.pick([0.5, 0.5, 1.0, 0.0])
    p.vel = [np.zeros(3), np.zeros(3)]
    p.vel[0][a], p.vel[1][a] = 2 * share * p.speed, -2 * (1 - share) * p.speed
    slide = g.pick([0.0, 0.0, 0.3]) * p.speed
    if not miss:
        p.vel[1][(a + 1) % 3] = slide
    if g.flip():        # the first of the file is above
        p.vel = [-v for v in p.vel]
        p.x[:, a] *= -1.0
        p.conn = p.conn[:, [k ^ (1 << a) for k in range(8)]]     # keeps the elements right-handed
        o = [np.where(np.arange(3) == a, -o[b] - L[b], o[b]) for b in range(2)]
    # contact is between the nodes of one body and the faces of the other: crossed bars have no node that faces the other
    both = [k for k in range(3) if k != a]
    facing = lambda x, b: bool(np.logical_and.reduce([(o[b][k] + 0.05 * s < x[:, k]) & (x[:, k] < o[b][k] + L[b][k] - 0.05 * s) for k in both]).any())
    p.facing = facing(p.x[:p.first], 1) or facing(p.x[p.first:], 0)
    p.boxes = [(o[b] - 0.1 * p.gap, o[b] + L[b] + 0.1 * p.gap) for b in range(2)]
    p.mats, p.fills = [], []
    gas = g.chance(1, 3)
    for m in range(2):
        mm = F.gas(m, g.pick([1.4, 5.0 / 3.0]), 1e-14, list(F.MARS))
        if not gas:
            mm["material"]["eos_model"] = "linear_elastic_eos"
            mm["material"]["eos_global_vars"] = [g.pick([1.0, 0.7]), 0.3, 1.0, 1e-14]
        p.mats.append(mm)
        p.fills.append((1.0, g.pick([1e-6, 0.02]) if gas else 0.0))
    p.label = "gas" if gas else "solid"
    p.dt = 0.1 * p.h / 1.5
    # few steps past the first contact: with a fixed step one that meets deeply does not stay in bounds
    p.steps = min(150, int(p.gap / (2 * p.speed) / p.dt) + g.i(3, 10 if gas else 20))
    p.every = max(1, p.steps // 30)
    p.iters = g.pick([None, None, (500, 100), (50, 200)])
    return p


def deck(p, contact=True, turn=0):
    """turn: the axes are permuted cyclically that many times"""
    t = lambda v: np.roll(np.asarray(v), turn, axis=-1)
    regs = []
    for b in range(2):
        lo, hi = t(p.boxes[b][0]), t(p.boxes[b][1])
        v = t(p.vel[b])
        vol = {"type": "box", "x1": lo[0], "x2": hi[0], "y1": lo[1], "y2": hi[1], "z1": lo[2], "z2": hi[2]}
        regs.append(F.region(b, vol, p.fills[b][0], p.fills[b][1], {"type": "cartesian", "u": v[0], "v": v[1], "w": v[2]}))
    bc = {"boundary_condition": {"solver_id": 0, "surface": {"type": "global"}}}
    if contact:
        bc["boundary_condition"]["stress_model"] = "global_contact"
        if p.iters:
            bc["boundary_condition"]["contact_bc_vars"] = list(p.iters)
    d = {"dynamic_options": {"time_final": p.dt * p.steps - 1e-3 * p.dt, "dt_min": p.dt, "dt_max": p.dt, "dt_start": p.dt, "dt_cfl": 0.4,
                             "cycle_stop": 2000000, "rk_num_stages": 2, "tiny": 1e-3 * p.dt},
         "mesh_options": {"source": "file", "num_dims": 3, "file_path": "mesh.geo"}, "output_options": F.output_options(),
         "solver_options": [{"solver": {"method": "dynx_FE", "id": 0}}], "boundary_conditions": [bc], "materials": copy.deepcopy(p.mats), "regions": regs}
    d["output_options"]["graphics_iteration_step"] = p.every
    return d, {"mesh.geo": P.geo_file(t(p.x), p.conn)}


def main():
    c = PyCheck("C25", "pairs of separate bodies in 3D that approach, meet face to face with any offset, slide or miss each other; total and per-body momentum of every output, runs without contact and with permuted axes compared; non-trivial: the bodies exchange momentum, or come past each other")
    B = F.build(c)

    def go(g, p, sub, **kw):
        d, f = deck(p, **kw)
        g.note("--- " + sub)
        g.note(F.emit(d))
        r = F.ok(g, F.run(B, d, g, files=f, sub=sub))
        return [r.snap(k) for k in range(r.nsnaps())]

    def meet(g):
        p = pair(g)
        ss = go(g, p, "run")
        m = ss[0].f["node_mass"]
        n, a = p.first, p.axis
        mv = [m[:, None] * s.f["node_vel"] for s in ss]
        size = np.abs(mv[0]).sum() + m.sum() * p.speed
        sg = np.sign(p.vel[0][a] - p.vel[1][a])
        body = [q[:n].sum(0) for q in mv]
        first = 0
        for k in range(1, len(ss)):
            d = np.abs(mv[k].sum(0) - mv[0].sum(0)).max()
            if not d <= 1e-10 * size:
                g.fail("total momentum changed by %.3g (of %.3g) by output %d" % (d, size, k))
            pull = sg * (body[k][a] - body[k - 1][a])
            first = first or (k if np.abs(body[k] - body[k - 1]).max() > 1e-10 * size else 0)
            # later, the faces have turned and a pair of bodies that slide may be pushed along the axis either way
            if pull > 1e-10 * size and k <= first + 2:
                g.fail("contact pulls the bodies together: momentum %.3g of %.3g between outputs %d and %d" % (pull, size, k - 1, k))
        hit = [k for k in range(1, len(ss)) if np.abs(body[k] - body[k - 1]).max() > 1e-10 * size]
        # before they touch the bodies do not know of each other: stress-free ones move as they are
        if p.label == "solid":
            fine = lambda k: np.abs(ss[k].f["node_vel"][:n] - p.vel[0]).max() < 1e-10 and np.abs(ss[k].f["node_vel"][n:] - p.vel[1]).max() < 1e-10
            close = lambda s: sg * (s.x[:n, a].max() - s.x[n:, a].min() if sg > 0 else s.x[:n, a].min() - s.x[n:, a].max())
            for k in range(1, len(ss)):
                o = close(ss[k])
                if close(ss[k - 1]) + 2.01 * p.speed * p.dt * (p.every + 1) < -0.0101 and not fine(k):
                    g.fail("the bodies act on each other %.3g apart (output %d)" % (-o, k))
                if p.facing and k + 1 < len(ss) and o > 1e-3 * p.h and p.every == 1 and k not in hit and k + 1 not in hit and not hit[:1]:
                    g.fail("the bodies overlap by %.3g at output %d and nothing pushes them apart" % (o, k))
                if k in hit or o > 0:
                    break
        g.nontrivial(bool(hit))
        g.label(p.label); g.label("axis%d" % a)
        if hit:
            g.label("hit")
        if g.chance(1, 2):
            turn = g.i(1, 2)
            tt = go(g, p, "turned", turn=turn)
            g.require(len(tt) == len(ss), "the run with permuted axes writes %d outputs, not %d" % (len(tt), len(ss)))
            last = (hit[0] if hit else len(ss) - 1) + 2
            for k in range(min(len(ss), last + 1)):
                d = np.abs(np.roll(tt[k].f["node_vel"], -turn, axis=1) - ss[k].f["node_vel"]).max()
                if not d <= 1e-6 * p.speed:
                    g.fail("with permuted axes velocities differ by %.3g (speed %.3g) at output %d, first contact at output %s" % (d, p.speed, k, hit[:1]))
            g.label("turned")

    listed = any(q == "C25" and k == "tolerance" for q, k, t in known_findings())

    def apart(g):
        miss = g.flip()
        small = g.chance(1, 10)
        p = pair(g, miss, small)
        if not miss:
            p.vel = [-v for v in p.vel]      # they go away from each other
        if p.label == "gas":
            p.fills = [(1.0, 1e-6)] * 2      # does not spread
        s1 = go(g, p, "contact")
        s0 = go(g, p, "none", contact=False)
        g.require(len(s1) == len(s0), "%d outputs with contact, %d without" % (len(s1), len(s0)))
        for k, (x, y) in enumerate(zip(s1, s0)):
            d = np.abs(x.f["node_vel"] - y.f["node_vel"]).max()
            if d > 0 and small and listed:
                g.label("acts at a distance")
                break
            if d > 0:
                g.fail("bodies that do not touch move otherwise with contact than without: velocities differ by %.3g at output %d" % (d, k))
            g.require((x.x == y.x).all(), "positions differ with contact at output", k)
        g.nontrivial()
        g.label("past" if miss else "away"); g.label(p.label)

    c.explore("meet", meet, 500, 4000)
    c.explore("apart", apart, 250, 2000)
    if any(q["part"] == "apart" and "acts at a distance" in q["labels"] for q in c.parts):
        c.known("tolerance")
    c.finish()


run(main)
