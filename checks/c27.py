import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, evp as E

np.seterr(all="ignore")


def near(g, want, got, tol, what, k):
    want, got = np.asarray(want, float), np.asarray(got, float)
    g.require(want.shape == got.shape, what, "of output", k, "has shape", got.shape, "not", want.shape)
    bad = ~(abs(want - got) <= tol)
    if bad.any():
        q = np.unravel_index(np.argmax(np.where(bad, np.where(np.isfinite(got), abs(want - got), np.inf), -1)), bad.shape) if want.shape else ()
        g.fail("%s after step %d: %r at %r, the model has %r (tolerance %g, %d of %d values differ)" % (what, k, float(got[q]), q, float(want[q]), float(np.max(tol)), bad.sum(), bad.size))


def digits(v, n=4):
    v = np.abs(np.asarray(v, float))
    return np.where(v > 0, 10. ** (np.floor(np.log10(np.where(v > 0, v, 1))) - n), 0)


def grid(v, n, comp=()):
    """values of the cells in the order of the file -> [i,j,k]"""
    return np.moveaxis(np.asarray(v).reshape((n[2], n[1], n[0]) + comp), [0, 1, 2], [2, 1, 0])


S6 = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


def field6(P, name, n):
    v = grid(P[name].reshape(len(P[name]) // (1 if P[name].ndim > 1 else 6), 6), n, (6,))
    t = np.zeros(tuple(n) + (3, 3))
    for k, (i, j) in enumerate(S6):
        t[..., i, j] = t[..., j, i] = v[..., k]
    return t


def geometry(g, P, p, m, k):
    """cells: the voxels of the undeformed grid under the average deformation gradient"""
    n = p.n
    F = np.eye(3) + m.actual if k else np.eye(3)
    X = P["Points"]
    I = np.stack(np.meshgrid(*[np.arange(n[a] + 1) for a in range(3)], indexing="ij"), -1) * np.array(p.delt)
    want = I @ F.T
    cell = P["connectivity"].reshape(-1, 8)
    g.require((P["offsets"] == 8 * np.arange(1, m.N + 1)).all() and (P["types"] == 12).all(), "cells of output", k)
    c = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    got = X[cell] - X[0]
    q = 0
    tol = (1e-12 + 1e-7 * abs(m.actual).max()) * (abs(want).max() + 1)
    for kk in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                w = np.array([want[i + a, j + b, kk + d] for a, b, d in c])
                near(g, w, got[q], tol, "corners of cell %r" % ((i, j, kk),), k)
                q += 1
    # colours
    for v, (i, j, kk) in zip(P["IPFColor"], [(i, j, l) for l in range(n[2]) for j in range(n[1]) for i in range(n[0])]):
        if m.solid[i, j, kk]:
            d = np.sort(abs(m.ag[i, j, kk].T[:, 2]))
            if k == 0 or abs(d[2]) > .9998:
                continue
            f, t = min(np.pi / 4, np.arccos(min(1, d[2]))), np.arctan2(d[0], d[1])
            r = 1 - np.sin(1.6 * f)
            w = np.array([r, (1 - r) * np.cos(2 * t), (1 - r) * np.sin(2 * t)])
            w = 255 * w / w.max()
            g.require((abs(w - 0.5 - v) <= .5 + 1e-3 + 2e-2 * (abs(w) < 1e9)).all(), "colour of voxel", (i, j, kk), "is", list(v), "expected", list(w))


def compare(g, o, p, m, k, noise):
    """output of step k against the model"""
    n = p.n
    P = E.fields(o, k, n)
    g.require(len(P) == 1 and P[0]["nc"] == m.N, "pieces of output", k)
    P = P[0]
    ss = max(abs(m.sg).max(), 1e-12 * p.scale) * noise
    es = max(abs(m.dis).max(), abs(m.ept).max()) * noise
    rs = max(abs(m.edotp).max(), m.dvm * 1e-3) * noise
    el = np.einsum("...ijkl,...kl->...ij", E.from66(m.sg66), m.sg)
    el[~m.solid] = -100.
    sym = (m.dis + np.swapaxes(m.dis, -1, -2)) / 2
    near(g, sym, field6(P, "strain", n), es, "strain", k)
    near(g, m.sg, field6(P, "stress", n), ss, "stress", k)
    near(g, m.edotp, field6(P, "pl-strain-rate", n), rs, "plastic strain rate", k)
    near(g, el, field6(P, "el-strain", n), es, "elastic strain", k)
    V = lambda t: np.array([[[E.vm(t[i, j, l]) for l in range(n[2])] for j in range(n[1])] for i in range(n[0])])
    near(g, V(sym), grid(P["vm-strain"], n), es, "equivalent strain", k)
    near(g, V(m.edotp), grid(P["vm-pl-strain-rate"], n), rs, "equivalent plastic strain rate", k)
    near(g, V(el), grid(P["vm-el-strain"], n), es, "equivalent elastic strain", k)
    d = m.sg - np.einsum("...ii->...", m.sg)[..., None, None] / 3 * np.eye(3)
    q = np.sqrt(1.5 * (d * d).sum((-1, -2)))
    near(g, q, grid(P["vm-stress"], n), 3e-7 * q + 2 * ss, "equivalent stress", k)
    near(g, k * m.dt, float(np.ravel(P["TimeValue"])[0]), 1e-12 * k * m.dt, "time", k)
    geometry(g, P, p, m, k)
    near(g, p.ph, grid(P["phase_id"], n), 0, "phase", k)
    near(g, p.gr, grid(P["grain_id"], n), 0, "grain", k)
    return P


def main():
    c = PyCheck("C27", "random polycrystals (grids, phases with gas, crystal symmetries, slip modes, elastic constants, orientations, hardening, thermal strains) under random mixed loads, compared step by step with an independent model of the scheme; non-trivial: at least two voxels differ and slip contributes at least 1% of the strain of the last step, or the load is mixed")
    B = E.build(c)["EVPFFT"]

    def model(g):
        p = E.problem(g)
        try:
            o = E.ok(g, E.run(B, p, g))
            m = E.Model(p)
            tm = None
            noise = 1e-7
            _, V = E.table(o, "vm.out"); _, T = E.table(o, "str_str.out")
            _, R = E.table(o, "err.out")
            g.require(len(V) == len(T) == p.steps, "lines of the macroscopic record", len(V), len(T))
            for k in range(1, p.steps + 1):
                m.step()
                if not np.isfinite(m.sg).all() or not np.isfinite(m.evm):
                    raise E.Noise("divergence")
                if k > 1 and m.hist and abs(m.vel).max() > 1e4 * abs(p.udot).max():
                    raise E.Noise("divergence")
                h = R[R[:, 0] == k]
                g.require(len(h) == m.iters and (h[:, 1] == np.arange(1, m.iters + 1)).all(), "iterations of step", k, ":", len(h), "expected", m.iters)
                near(g, [q[3] for q in m.hist], h[:, 5], 1e-3 * np.array([q[3] for q in m.hist]), "Newton iterations", k)
                near(g, [q[2] for q in m.hist], h[:, 4], 2e-4 * np.array([q[2] for q in m.hist]) + 1e-9 * p.scale * abs(m.dis).max(), "equivalent stress in an iteration", k)
                compare(g, o, p, m, k, noise)
                ss = max(abs(m.sav).max(), 1e-3 * abs(m.sg).max()) * noise
                es, rs = abs(m.actual).max() * noise, max(abs(m.velmacro).max(), m.dvm) * noise
                ps, prs = max(abs(m.epav).max(), abs(m.actual).max() * 1e-3) * noise, max(abs(m.edav).max(), 1e-3 * m.dvm) * noise
                q = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
                want, tol = [], []
                for t, s in ((m.actual, es), (m.sav, ss), (m.epav, ps), (m.velmacro, rs), (m.edav, prs)):
                    want += [t[i, j] for i, j in q]; tol += [s] * 6
                want += [m.evm, m.evmp, m.dvm, m.dvmp, m.svm]; tol += [es, ps, rs, prs, ss]
                want = np.array(want)
                near(g, want, T[k - 1], np.array(tol) + .51 * digits(want) * 1.001 + 1e-6 * abs(want), "macroscopic record (column of str_str.out)", k)
                want = np.array([m.evm, m.evmp, m.dvm, m.dvmp, m.svm, m.svm1]); tol = np.array([es, ps, rs, prs, ss, ss])
                near(g, want, V[k - 1], tol + .51 * digits(want) * 1.001 + 1e-6 * abs(want), "macroscopic record (column of vm.out)", k)
        except E.Noise as e:
            g.label("undecided " + str(e)[:12])
            g.discard()
        # texture
        t = open(os.path.join(o.dir, "tex.out")).read().split("\n")
        rows = np.array([[float(l[9 * a:9 * a + 9]) for a in range(4)] + [int(x) for x in l[36:].split()] for l in t[4:] if l.strip()])
        g.require(len(rows) == m.N, "rows of the texture", len(rows))
        near(g, m.delt, [float(t[2][7 * a:7 * a + 7]) for a in (0, 4, 8)], 6e-4, "cell size in the texture", p.steps)
        a = 0
        for kk in range(p.n[2]):
            for j in range(p.n[1]):
                for i in range(p.n[0]):
                    r = rows[a]; a += 1
                    g.require(tuple(r[4:]) == (i + 1, j + 1, kk + 1, p.gr[i, j, kk], p.ph[i, j, kk]), "row of the texture", r)
                    if m.solid[i, j, kk]:
                        A = E.euler(*np.radians(r[:3]))
                        want = m.ag[i, j, kk].T
                        # an angle near 0 or 180 between the axes is written with one of the two rotations combined
                        tol = 3e-5 if abs(want[2, 2]) < .9999 else 3e-2
                        near(g, want, A, tol, "orientation in the texture of voxel %r" % ((i, j, kk),), p.steps)
        g.label("steps%d" % p.steps)
        for w in ("iupdate", "iuphard", "vtk"):
            if getattr(p, w):
                g.label(w)
        if p.thermo is not None:
            g.label("thermal")
        if not m.solid.all():
            g.label("gas")
        mixed = any(p.iscau)
        if mixed:
            g.label("mixed load")
        pl = m.dvmp > .01 * m.dvm
        if pl:
            g.label("slip")
        g.nontrivial((pl or mixed) and np.ptp(m.sg.reshape(-1, 9), axis=0).max() > 1e-3 * abs(m.sg).max())

    c.explore("reference", model, 3000, 40000)
    c.finish()


if __name__ == "__main__":
    run(main)
