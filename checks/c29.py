import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, evp as E

np.seterr(all="ignore")
REAL = ["vm-strain", "vm-stress", "vm-pl-strain-rate", "vm-el-strain", "strain", "stress", "pl-strain-rate", "el-strain"]
S6 = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


class Res:
    """what one run wrote: records and the fields of every output on the grid"""


def collect(g, o, p, ref=None):
    r = Res()
    r.vm, r.ss, r.err = (E.table(o, f)[1] for f in ("vm.out", "str_str.out", "err.out"))
    r.f = {}
    h5 = os.path.join(o.dir, "micro_state_evpfft.h5")
    for k in range(0, p.steps + 1):
        get = lambda n, t="<f8": np.fromfile(os.path.join(h5, "TimeStep_%d.%s" % (k, n)), t).reshape(-1, 1)
        if os.path.exists(os.path.join(h5, "TimeStep_%d.phase_id" % k)):
            r.f[k] = {n: get(n) if n[:2] == "vm" else np.hstack([get("%s_%d%d" % (n, i + 1, j + 1)) for i, j in S6]) for n in REAL}
            r.f[k]["phase_id"] = get("phase_id", "<i4")
            for n, v in r.f[k].items():
                g.require(len(v) == np.prod(p.n), n, "of output", k, "has", len(v), "values")
            continue
        P = E.fields(o, k, p.n)
        if not P:
            g.require(k == 0 or k % p.iwstep, "output", k, "is missing")
            continue
        corner, F = [], {n: [] for n in REAL + ["phase_id", "grain_id", "IPFColor"]}
        for q in P:
            if q["nc"] == 0:
                continue
            g.require(q["connectivity"].min() >= 0 and q["connectivity"].max() < q["np"] and len(q["connectivity"]) == 8 * q["nc"], "connectivity of a piece of output", k)
            corner.append(q["Points"][q["connectivity"]].reshape(-1, 8, 3))
            for n in F:
                if n in q:
                    F[n].append(q[n].reshape(q["nc"], -1))
        X = np.concatenate(corner)
        g.require(len(X) == np.prod(p.n), "output", k, "has", len(X), "cells, the grid has", int(np.prod(p.n)))
        if ref is not None:
            Y = ref.f[k]["X"]
            h = abs(np.diff(Y[0], axis=0)).max()
            # every cell is one of the cells of the reference, each exactly once
            d = ((X.mean(1)[:, None] - Y.mean(1)[None]) ** 2).sum(-1)
            to = d.argmin(1)
            g.require(len(set(to)) == len(to) and (abs(X - Y[to]) <= 1e-6 * h + 1e-8 * abs(Y).max()).all(),
                      "cells of output", k, "do not tile the grid: largest distance of a cell from its place", float(np.sqrt(d.min(1).max())), "of cells of size", float(h), "; cells at the same place:", len(to) - len(set(to)))
        else:
            to = np.arange(len(X))
        inv = np.empty(len(X), int)
        inv[to] = np.arange(len(X))
        r.f[k] = {n: np.concatenate(v)[inv] for n, v in F.items() if v}
        r.f[k]["X"] = X[inv]
    return r


def close(g, what, a, b, tol, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    g.require(a.shape == b.shape, what, ": shapes", a.shape, b.shape)
    s = (abs(a).max() if a.size else 0) if scale is None else scale
    bad = ~(abs(a - b) <= tol * np.maximum(s, 1e-300))
    if bad.any():
        d = np.where(bad, np.where(np.isfinite(a - b), abs(a - b), np.inf), -1)
        q = np.unravel_index(np.argmax(d), d.shape)
        g.fail("%s: %r became %r at %r (%d of %d values)" % (what, float(a[q]), float(b[q]), tuple(int(x) for x in q), bad.sum(), bad.size))


# relative noise of a result that is the sum of contributions in another order
NOISE = 1e-6


# of results of other formulas for the same, and of other ends of an iteration
SMALL = 1e-4


def macro(g, what, a, b, tol, mac):
    """str_str.out, four digits: strain, stress, plastic strain, their rates and the invariants"""
    g.require(a.ss.shape == b.ss.shape, what, ": rows of str_str.out", a.ss.shape, b.ss.shape)
    big = abs(a.vm).max(axis=0)
    stress = max(abs(F["stress"]).max() for F in a.f.values())
    for k, (n, s) in enumerate((("strain", big[0]), ("stress", stress), ("plastic strain", big[0]), ("strain-rate", big[2]), ("plastic strain-rate", big[2]))):
        A, B = mac(n, a.ss[:, 6 * k:6 * k + 6]), b.ss[:, 6 * k:6 * k + 6]
        use = np.isfinite(A)
        s = mac(n, np.ones((1, 6)) * s)[0, 0] if "stress" in n or "rate" in n else s
        close(g, what + ": macroscopic " + n, A[use], B[use], 1, 1.1e-4 * abs(A[use]) + max(tol, 3e-6) * max(abs(A[use]).max(), s))


def compare(g, what, a, b, p, fields=lambda n, v: v, colors=True, tol=NOISE, skip1=False, its=True, mac=lambda n, w: w):
    g.require(not its or a.err.shape == b.err.shape and (a.err[:, :2] == b.err[:, :2]).all(), what, ": numbers of iterations differ")
    w = slice(0, 5) if skip1 else slice(0, 6)
    # four digits are written
    macro(g, what, a, b, tol, mac)
    close(g, what + ": vm.out", a.vm[:, w], b.vm[:, w], 1.01e-3 + tol, abs(a.vm[:, w]) + 20 * tol * abs(a.vm[:, [0, 0, 2, 2, 4, 4][w]]).max(axis=0) + np.array([1e-9, 1e-9, 1e-9, 1e-9, 1e-9 * p.scale, 1e-9 * p.scale][w]))
    g.require(sorted(set(a.f) - {0}) == sorted(set(b.f) - {0}), what, ": outputs", sorted(b.f), "for", sorted(a.f))
    for k in a.f:
        if k == 0 and k not in b.f:
            continue
        A, B = a.f[k], b.f[k]
        g.require(not its or sorted(A) == sorted(B), what, ": fields", sorted(B))
        for n in A:
            if n == "X" or not its and n not in B or (n == "IPFColor" and not colors):
                continue
            v = fields(n, A[n])
            if v is None:
                continue
            if n in REAL:
                # voxels of gas have the elastic strain -100
                w = A["el-strain"] if n == "vm-el-strain" else v
                w = w[w != -100] if "el-strain" in n else w
                s = abs(w).max() if w.size else 1
                s = max(s, 1e-9 * (p.scale if "stress" in n else 1) * a.vm[:, 0].max())
                if "rate" in n:
                    s = max(s, 1e-3 * a.vm[max(k - 1, 0), 2])
                close(g, "%s: %s of output %d" % (what, n, k), v, B[n], tol, s)
            elif n == "IPFColor":
                close(g, "%s: colours of output %d" % (what, k), v, B[n], 1, 1 + 1e-9)
            else:
                g.require((v == B[n]).all(), what, ":", n, "of output", k)


def stable(g, m):
    """the same run again with rounding of another order has the same number of iterations unless it is undecided"""


def good(g, r):
    if not (np.isfinite(r.vm).all() and np.isfinite(r.ss).all()) or abs(r.vm[:, 2]).max() > 1e4 * abs(r.vm[0, 2]):
        g.label("diverged")
        g.discard()


def settle(g, p, v):
    """problems the solvers converge for: results then do not depend on the rounding"""
    p.err = g.pick([1e-5, 1e-6, 1e-7])
    p.itmax = 100
    return p


def hear(g, r, p):
    """undecided: an iteration that ends next to its limit"""
    e = r.err[:, 2:4]
    if ((abs(e / p.err - 1) < 2e-3).any()) or (np.bincount(r.err[:, 0].astype(int)) >= p.itmax).any():
        g.label("undecided")
        g.discard()
    it = r.err[:, -1]


def rotation(g):
    """one of the rotations of the grid onto itself: x'_a = s_a x_{pi(a)}"""
    pi = g.perm(3)
    s = [1 - 2 * g.i(0, 1) for k in range(3)]
    Q = np.zeros((3, 3))
    for a in range(3):
        Q[a, pi[a]] = s[a]
    if np.linalg.det(Q) < 0:
        Q[2] *= -1; s[2] *= -1
    return Q, pi, s


def arrange(v, pi, s):
    v = np.transpose(v, list(pi) + list(range(3, v.ndim)))
    for a in range(3):
        if s[a] < 0:
            v = np.flip(v, a)
    return np.array(v, order="C")     # never the array given


def angles(a):
    """Bunge angles of a rotation sample -> crystal"""
    th = np.arccos(np.clip(a[2, 2], -1, 1))
    if np.sin(th) < 1e-9:
        return [np.degrees(np.arctan2(a[0, 1], a[0, 0])), np.degrees(th), 0.]
    return [np.degrees(np.arctan2(a[2, 0], -a[2, 1])), np.degrees(th), np.degrees(np.arctan2(a[0, 2], a[1, 2]))]


def grid(v, n):
    return np.moveaxis(v.reshape((n[2], n[1], n[0]) + v.shape[1:]), [0, 1, 2], [2, 1, 0])


def ungrid(v):
    v = np.moveaxis(v, [0, 1, 2], [2, 1, 0])
    return v.reshape((-1,) + v.shape[3:])


def tensor(v):
    t = np.zeros(v.shape[:-1] + (3, 3))
    for k, (i, j) in enumerate(S6):
        t[..., i, j] = t[..., j, i] = v[..., k]
    return t


def voigt(t):
    return np.stack([t[..., i, j] for i, j in S6], -1)


def main():
    c = PyCheck("C29", "random polycrystals and loads, each run again on another number of ranks, with loops in another order, with the microstructure moved or turned with its axes, with grains and phases renumbered or split, in other units, and by another of the four solvers at vanishing strain; non-trivial: at least two voxels differ by a thousandth of the largest stress")
    B = E.build(c, E.VARIANTS)

    def base(g, **kw):
        p = E.problem(g, maxvox=27, steps=(1, 3), **kw)
        return settle(g, p, None)

    def nontrivial(g, r):
        s = r.f[max(r.f)]["stress"]
        g.nontrivial(np.ptp(s, axis=0).max() > 1e-3 * abs(s).max())

    def first(g, p, v):
        o = E.run(B[v], p, g, sub="a", variant=v)
        E.ok(g, o)
        r = collect(g, o, p)
        good(g, r)
        hear(g, r, p)
        nontrivial(g, r)
        return r

    def ranks(g):
        v = g.pick(E.VARIANTS)
        p = base(g)
        p.vtk = False
        g.label(v)
        # every rank has voxels and frequencies
        fit = [n for n in range(1, 9) if any(n == i * j * k and i <= p.n[0] // 2 + 1 and i <= p.n[0] and j <= p.n[1] and k <= p.n[2] for i in range(1, 9) for j in range(1, 9) for k in range(1, 9))]
        n = g.pick(fit[1:] or fit)
        p.iwstep = g.i(1, 2) if p.steps > 1 else 1
        r = first(g, p, v)
        o = E.ok(g, E.run(B[v], p, g, sub="b", variant=v, ranks=n, order=g.i(0, 4)), "the run on %d ranks" % n)
        g.label("%d ranks" % n)
        q = collect(g, o, p, r)
        compare(g, "on %d ranks" % n, r, q, p)

    def symmetry(g):
        v = g.pick(E.VARIANTS)
        kind = g.pick(["move", "turn", "turn", "grains", "phases", "split", "units"])
        p = base(g, odd=kind == "turn")     # waves of half the length of an even side have no mirror image
        p.vtk = False
        p.igamma = 0
        g.label(v)
        g.label(kind)
        tr = lambda n, w: w
        skip1, tol, colors, mac = False, NOISE, True, lambda n, w: w
        if kind == "move":
            sh = [g.i(0, p.n[a] - 1) for a in range(3)]
            roll = lambda w: np.roll(w, sh, (0, 1, 2))
            q = p.copy(ph=roll(p.ph), gr=roll(p.gr), ang=roll(p.ang))
            tr = lambda n, w: ungrid(roll(grid(w, p.n)))
        elif kind == "turn":
            Q, pi, s = rotation(g)
            for a, b in ((1, 2), (0, 2), (0, 1)):    # of a shear with a given stress, the upper component is the one that adapts
                if p.iudot[a][b] == 0 or p.iudot[b][a] == 0:
                    p.iudot[a][b] = p.iudot[b][a] = 1
                    p.iscau[{(1, 2): 3, (0, 2): 4, (0, 1): 5}[(a, b)]] = 0
            T = lambda t: Q @ t @ Q.T
            q = p.copy(n=[p.n[k] for k in pi], delt=[p.delt[k] for k in pi], ph=arrange(p.ph, pi, s), gr=arrange(p.gr, pi, s), ang=arrange(p.ang, pi, s))
            for w in np.ndindex(*q.n):
                q.ang[w] = angles(E.euler(*np.radians(q.ang[w])) @ Q.T)
            q.udot = T(p.udot)
            d = [p.iudot[k][k] for k in pi]
            q.iudot = [[d[a] if a == b else 1 for b in range(3)] for a in range(3)]
            q.iscau = [p.iscau[k] for k in pi] + [0, 0, 0]
            q.scauchy = T(p.scauchy)
            if p.thermo is not None:
                q.thermo = []
                for e in p.thermo:
                    t = T(np.array([[e[0], e[5], e[4]], [e[5], e[1], e[3]], [e[4], e[3], e[2]]]))
                    q.thermo.append([t[i, j] for i, j in E.IJV])
            colors = False

            def mac(n, w):
                # order 11, 22, 33, 23, 13, 12; of a strain that is not symmetric the lower components are not written
                w = np.where(np.arange(6) > 2, np.nan, w) if n in ("strain", "strain-rate") else w
                return np.stack([w[:, pi[0]], w[:, pi[1]], w[:, pi[2]]] + [s[a] * s[b] * w[:, {3: 3, 2: 4, 1: 5}[pi[a] + pi[b]]] for a, b in ((1, 2), (0, 2), (0, 1))], 1)

            def tr(n, w):
                w = arrange(grid(w, p.n), pi, s)
                if w.shape[-1] == 6:
                    x = tensor(w)
                    w = voigt(np.einsum("ai,bj,...ij->...ab", Q, Q, x)) if not (n == "el-strain") else np.where(abs(w[..., :1]) == 100, w, voigt(np.einsum("ai,bj,...ij->...ab", Q, Q, x)))
                return ungrid(w)
        elif kind == "grains":
            m = g.perm(int(p.gr.max()))
            q = p.copy(gr=np.array(m)[p.gr - 1] + 1)
            if p.thermo is not None:
                q.thermo = [None] * len(p.thermo)
                for k, e in enumerate(p.thermo):
                    q.thermo[m[k]] = e
            tr = lambda n, w: np.array(m)[w.astype(int) - 1] + 1 if n == "grain_id" else w
        elif kind == "phases":
            m = g.perm(len(p.phases))
            ph = [None] * len(m)
            for k, a in enumerate(m):
                ph[a] = p.phases[k]
            q = p.copy(ph=np.array(m)[p.ph - 1] + 1, phases=ph)
            tr = lambda n, w: np.array(m)[w.astype(int) - 1] + 1 if n == "phase_id" else w
            skip1 = True
        elif kind == "split":
            k = g.i(0, len(p.phases) - 1)
            where = np.array([g.i(0, 1) for w in range(p.ph.size)]).reshape(p.ph.shape)
            q = p.copy(phases=p.phases + [p.phases[k]], ph=np.where((p.ph == k + 1) & (where == 1), len(p.phases) + 1, p.ph))
            tr = lambda n, w: None if n == "phase_id" else w
            skip1 = True
        else:
            # EVPFFT stops its iteration of a voxel by a number that has the unit of a stress: known finding
            a, b = 2. ** g.i(-6, 6) if v != "EVPFFT" else 1., 2. ** g.i(-4, 4)
            import copy
            q = p.copy(phases=copy.deepcopy(p.phases), udot=p.udot * b, scauchy=p.scauchy * a, step=p.step / b if p.ictrl == -1 else p.step, delt=[x * (2. if v in ("EVPFFT", "LS-EVPFFT-J2") else 1.) for x in p.delt])     # (the others approach the solution at another pace)
            for x in q.phases:
                if x.gas:
                    continue
                x.c = x.c * a
                if x.iso:
                    x.E *= a
                for m in x.modes:
                    m.tau *= a; m.taub *= a; m.tau1 *= a; m.thet0 *= a; m.thet1 *= a; m.gamd0 *= b
            mac = tr = lambda n, w: w * (a if "stress" in n else b if "rate" in n else 1)
            if any(not x.gas and any(0 < m.tau1 < 1e-4 or m.tau1 == 0 for m in x.modes) for x in p.phases):
                p.iuphard = q.iuphard = 0     # the smallest tau1 the solver computes with is no material constant
        o = E.ok(g, E.run(B[v], q, g, sub="b", variant=v), "the second run")
        r = first(g, p, v)
        t = collect(g, o, q)
        if kind == "units":
            t.vm = t.vm / np.array([1, 1, b, b, a, a])
        compare(g, kind, r, t, p, tr, colors=colors, skip1=skip1, tol=tol, mac=mac)

    def small(g):
        # strains of one in ten million: what is left of the large strains is as small
        p = base(g, thermo=False)
        p.vtk = False
        p.igamma = 0
        F = 2e11 / p.scale        # large numbers: EVPFFT stops its iteration of a voxel by a number with the unit of a stress
        for x in p.phases:
            if not x.gas:
                x.c = x.c * F * 1e4
                if x.iso:
                    x.E *= F * 1e4
                for m in x.modes:
                    m.tau *= F; m.taub *= F; m.tau1 *= F; m.thet0 *= F * 1e4; m.thet1 *= F * 1e4
        p.scale = 2e15
        p.scauchy = p.scauchy * F
        p.step /= 1e4
        p.err = 1e-7
        if any(x.gas for x in p.phases):      # layers of gas take any strain across them without a stress
            p.iudot = [[1] * 3 for k in range(3)]
            p.iscau = [0] * 6
        p.iupdate = 1      # without it the solvers for large strains keep no strain
        v = g.pick(E.VARIANTS[1:])
        g.label(v)
        r = first(g, p, "EVPFFT")
        # fields that are uniform early end the iteration before the mean stress is what was asked for: known finding
        met = lambda r: not (abs((r.ss[:, 6:12] - [p.scauchy[i][j] for i, j in E.IJV])[:, np.array(p.iscau) == 1]) > 1e-4 * abs(r.ss[:, 6:12]).max(axis=1)[:, None]).any()
        if not met(r):
            g.label("stress not reached")
            g.discard()
        o = E.run(B[v], p, g, sub="b", variant=v)
        e = E.table(o, "err.out")[1] if os.path.exists(os.path.join(o.dir, "err.out")) else None
        if e is not None and e.ndim == 2 and len(e) and (not np.isfinite(e).all() or np.bincount(e[:, 0].astype(int)).max() >= p.itmax):
            g.label("diverged")
            g.discard()
        E.ok(g, o, v)
        t = collect(g, o, p)
        hear(g, t, p)
        if not met(t) and np.bincount(t.err[:, 0].astype(int))[1:].min() <= 2:
            g.label("stress not reached")
            g.discard()
        for x in (r, t):
            for k in set(x.err[:, 0]):
                e = x.err[x.err[:, 0] == k][-2:, 2:4]
                if len(e) > 1 and e[0].max() > SMALL / 5:      # an oscillation that passed the limit by chance
                    g.label("stopped by chance")
                    g.discard()
        gas = any(x.gas for x in p.phases)      # what a gas is strained by hardly matters to the iteration
        compare(g, v + " at vanishing strain", r, t, p, lambda n, w: None if n == "IPFColor" or gas and n in ("strain", "vm-strain") else w, colors=False, tol=SMALL, its=False)

    c.explore("small", small, 300, 6000)
    c.explore("ranks", ranks, 300, 6000)
    c.explore("symmetry", symmetry, 700, 12000)
    c.finish()


if __name__ == "__main__":
    run(main)
