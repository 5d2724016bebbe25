import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run, REPO, SHIM, HARNESS
from fz import PyCheck
import numpy as np, subprocess, struct, math, itertools
from scipy.spatial import ConvexHull

VX = os.path.join(REPO, "legacy/Fierro_V0/src/Voxelizer")


def build(c):
    if os.environ.get("FIERRO_DEV_vx"):
        return [os.environ["FIERRO_DEV_vx"] + s for s in ("/vx", "/vxlib")]
    f = ["clang++", "-std=c++17", "-g1", "-O1", "-Wno-everything", "-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all", "-I" + SHIM, "-I" + VX + "/include"]
    from concurrent.futures import ThreadPoolExecutor
    src = [VX + "/src/stl-to-voxelvtk.cpp", VX + "/src/main.cpp", HARNESS + "/voxelizer.cpp"]
    obj = [os.path.join(c.tmp, "o%d.o" % k) for k in range(3)]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda so: c.sh(f + ["-c", so[0], "-o", so[1]]), zip(src, obj)))
    out = [os.path.join(c.tmp, "vx"), os.path.join(c.tmp, "vxlib")]
    c.sh(f + obj[:2] + ["-o", out[0], "-lpthread"])
    c.sh(f + [obj[0], obj[2]] + ["-o", out[1], "-lpthread"])
    return out


# ------------------------------------------------------------------ solids: lists of triangles with outward orientation
def hull(P):
    P = np.asarray(P, float)
    h = ConvexHull(P)
    c = P[h.vertices].mean(0)
    T = []
    for s in h.simplices:
        a, b, d = P[s]
        T.append((a, d, b) if np.dot(np.cross(b - a, d - a), a - c) < 0 else (a, b, d))
    return np.array(T)


def box(g, lo, hi):
    q = [np.array([(lo, hi)[b][k] for k, b in enumerate(t)], float) for t in itertools.product((0, 1), repeat=3)]
    T = []
    for f in ((0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)):
        a, b, c, d = [q[i] for i in f]
        T += [(a, b, c), (a, c, d)] if g.flip() else [(a, b, d), (b, c, d)]
    return np.array(T)


def revolve(g, prof, n):
    """profile (r, z) from the axis to the axis"""
    T = []
    P = [[np.array([r * math.cos(2 * math.pi * k / n), r * math.sin(2 * math.pi * k / n), z]) for k in range(n)] if r > 0 else [np.array([0.0, 0.0, z])] * n for r, z in prof]
    for a, b in zip(P, P[1:]):
        for k in range(n):
            q = (k + 1) % n
            if not np.array_equal(a[k], a[q]):
                T.append((a[k], a[q], b[k]))
            if not np.array_equal(b[k], b[q]):
                T.append((a[q], b[q], b[k]))
    return np.array(T)


def torus(n, m, R, r):
    P = [[np.array([(R + r * math.cos(2 * math.pi * j / m)) * math.cos(2 * math.pi * i / n), (R + r * math.cos(2 * math.pi * j / m)) * math.sin(2 * math.pi * i / n), r * math.sin(2 * math.pi * j / m)]) for j in range(m)] for i in range(n)]
    T = []
    for i in range(n):
        for j in range(m):
            a, b, c, d = P[i][j], P[(i + 1) % n][j], P[(i + 1) % n][(j + 1) % m], P[i][(j + 1) % m]
            T += [(a, b, c), (a, c, d)]
    return np.array(T)


def ell(g):
    """an L shaped bar"""
    a, b = g.pick([0.5, g.u(0.2, 0.8)]), g.pick([0.5, g.u(0.2, 0.8)])
    h = g.pick([1.0, g.u(0.3, 2)])
    v = [(0, 0), (1, 0), (1, b), (a, b), (a, 1), (0, 1)]
    tri = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]
    L = [np.array([x, y, 0.0]) for x, y in v]
    U = [np.array([x, y, h]) for x, y in v]
    T = [(L[i], L[k], L[j]) for i, j, k in tri] + [(U[i], U[j], U[k]) for i, j, k in tri]
    for i in range(6):
        j = (i + 1) % 6
        T += [(L[i], L[j], U[j]), (L[i], U[j], U[i])]
    return np.array(T)


def rotation(g):
    if g.flip():
        m = np.zeros((3, 3))
        p = g.perm(3)
        for i in range(3):
            m[i, p[i]] = g.pick([1, -1])
        return m if np.linalg.det(m) > 0 else -m
    q = np.array([g.u(-1, 1) for _ in range(4)]) + 1e-3
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def solid(g):
    k = g.pick(["box", "hull", "tetrahedron", "revolved", "torus", "ell", "shell", "two", "lattice"])
    g.label(k)
    grid = lambda: g.pick([0.0, 1.0, 2.0, 3.0, 0.5, g.u(0, 3)])
    if k == "box":
        T = box(g, (0, 0, 0), [g.pick([1.0, 2.0, g.u(0.3, 3)]) for _ in range(3)])
    elif k in ("hull", "tetrahedron", "lattice"):
        for _ in range(8):
            n = 4 if k == "tetrahedron" else g.i(4, 14)
            P = np.array([[grid() if k == "lattice" else g.u(-1, 1) for _ in range(3)] for _ in range(n)])
            try:
                T = hull(P)
                if ConvexHull(P).volume > 1e-3:
                    break
            except Exception:
                pass
        else:
            g.discard()
    elif k == "revolved":
        m = g.i(1, 4)
        z = sorted(g.u(-1, 1) for _ in range(m))
        g.require(True, "")
        prof = [(0.0, z[0] - g.pick([0.0, 0.5, 1.0]))] + [(g.pick([1.0, 0.5, g.u(0.2, 1)]), y) for y in z] + [(0.0, z[-1] + g.pick([0.5, 1.0]))]
        T = revolve(g, prof, g.i(3, 12))
    elif k == "torus":
        T = torus(g.i(3, 10), g.i(3, 8), 1.0, g.u(0.2, 0.6))
    elif k == "ell":
        T = ell(g)
    elif k == "shell":
        T = np.concatenate([box(g, (0, 0, 0), (3, 3, 3)), box(g, (1, 1, 1), (2, 2, g.pick([2, 1.5])))[:, ::-1]])
    else:
        T = np.concatenate([box(g, (0, 0, 0), (1, 1, 1)), box(g, (g.pick([2, 1.5]), g.pick([0, 0.5, 1]), 0), (3, 2, g.pick([1, 2])))])
    if k not in ("box", "shell", "two", "lattice") or g.chance(2, 5):
        T = T @ rotation(g).T
    T = T * g.pick([1.0, 1.0, 10.0, g.logreal(1e-3, 1e3)])
    if g.flip():
        ext = (T.reshape(-1, 3).max(0) - T.reshape(-1, 3).min(0)).max()
        T = T + ext * np.array([g.pick([0.0, -0.5, 1.0, g.u(-2, 2), g.u(-30, 30)]) for _ in range(3)])
    return k, T


def winding(T, X):
    a, b, c = [T[None, :, i] - X[:, None] for i in range(3)]
    la, lb, lc = [np.sqrt((v * v).sum(-1)) for v in (a, b, c)]
    num = (a * np.cross(b, c)).sum(-1)
    den = la * lb * lc + (a * b).sum(-1) * lc + (b * c).sum(-1) * la + (c * a).sum(-1) * lb
    return np.arctan2(num, den).sum(-1) / (2 * math.pi)


def seg(X, p, q):
    d = q - p
    t = np.clip(((X[:, None] - p) * d).sum(-1) / np.maximum((d * d).sum(-1), 1e-300), 0, 1)
    return np.sqrt((((X[:, None] - p) - t[..., None] * d) ** 2).sum(-1))


def distance(T, X):
    a, b, c = T[:, 0], T[:, 1], T[:, 2]
    r = np.minimum(seg(X, a, b), np.minimum(seg(X, b, c), seg(X, c, a)))
    n = np.cross(b - a, c - a)
    l = np.sqrt((n * n).sum(-1))
    n = n / np.maximum(l, 1e-300)[:, None]
    h = ((X[:, None] - a) * n).sum(-1)
    p = X[:, None] - h[..., None] * n
    ins = np.ones(h.shape, bool)
    for u, v in ((a, b), (b, c), (c, a)):
        ins &= (np.cross(v - u, p - u) * n).sum(-1) >= 0
    ins &= l > 0
    return np.where(ins, np.minimum(r, np.abs(h)), r).min(-1)


def write_stl(g, path, T):
    T = T[g.perm(len(T))]
    zero = g.chance(3, 10)
    keep = g.chance(7, 10)
    head = g.pick([b"", b"solid x", b"COLOR=", b"x" * 80])
    b = head[:80].ljust(80, g.pick([b" ", b"\0"])) + struct.pack("<I", len(T))
    for t in T:
        k = 0 if keep else g.i(0, 2)
        t = np.roll(t, k, 0)
        n = np.cross(t[1].astype(float) - t[0], t[2].astype(float) - t[0])
        n = n / (np.linalg.norm(n) or 1.0)
        b += struct.pack("<12fH", *((0, 0, 0) if zero else n), *t.ravel(), g.pick([0, 0, 0x8001]))
    with open(path, "wb") as w:
        w.write(b)
    return b


def read_vtk(g, path):
    L = open(path).read().split("\n")
    tok = " ".join(L[3:]).split()
    o, i = {}, 0
    g.require("vtk DataFile" in L[0] and L[2] == "ASCII", "not a VTK file: %r" % L[:3])
    while i < len(tok):
        w = tok[i]
        if w == "DATASET":
            o["set"], i = tok[i + 1], i + 2
        elif w == "DIMENSIONS":
            o["n"], i = [int(x) for x in tok[i + 1:i + 4]], i + 4
        elif w[1:] == "_COORDINATES":
            k = int(tok[i + 1])
            o[w[0]], i = [float(x) for x in tok[i + 3:i + 3 + k]], i + 3 + k
        elif w == "CELL_DATA":
            o["cells"], i = int(tok[i + 1]), i + 2
        elif w == "SCALARS":
            i += 3 + (tok[i + 3].isdigit())
        elif w == "LOOKUP_TABLE":
            o["v"] = [int(x) for x in tok[i + 2:]]
            break
        else:
            g.require(False, "unexpected word %r" % w)
    return o


def voxelize(g, exe, args):
    try:
        p = subprocess.run([exe] + [str(x) for x in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=g.tmp, timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    except subprocess.TimeoutExpired:
        g.fail("did not end within 60 s")
    out = p.stdout.decode(errors="replace")
    g.require(p.returncode >= 0 and "Sanitizer" not in out and "runtime error" not in out and "SHIM-" not in out, "crashed: " + out[-1500:])
    return p.returncode, out


def p_solid(exes):
    def f(g):
        """cells inside closed surfaces"""
        k, T = solid(g)
        T = T.astype(np.float32)
        ar = np.linalg.norm(np.cross(T[:, 1].astype(float) - T[:, 0], T[:, 2].astype(float) - T[:, 0]), axis=-1)
        D = T.astype(float)
        lo, hi = D.reshape(-1, 3).min(0), D.reshape(-1, 3).max(0)
        n = [g.i(1, 12) for _ in range(3)] if g.flip() else [g.pick([2, 3, 4, 5, 6, 8])] * 3
        write_stl(g, os.path.join(g.tmp, "s.stl"), T)
        org = [g.pick([0.0, 1.0, -2.0, g.u(-5, 5)]) for _ in range(3)]
        given = g.flip()
        ln = [g.pick([1.0, 2.5, 0.001, g.u(0.1, 10)]) for _ in range(3)] if given else [0.0] * 3
        lib = g.chance(2, 5)
        size = np.array(ln) if given else hi - lo
        d = size / n
        args = ["s.stl", "o.vtk"] + n
        if lib:
            args += [repr(x) for x in ln]
            org = [0.0] * 3
        else:
            args += [repr(x) for x in org + ln]
        st, out = voxelize(g, exes[lib], args)
        g.require(st == 0, "refused (%s): %s" % (k, out[-300:]))
        v = read_vtk(g, os.path.join(g.tmp, "o.vtk"))
        g.require(v.get("set") == "RECTILINEAR_GRID" and v["n"] == [x + 1 for x in n] and v["cells"] == n[0] * n[1] * n[2] == len(v.get("v", [])), "grid %s, expected %s cells" % ({a: v[a] for a in v if a not in "XYZv"}, n))
        for a in range(3):
            w = org[a] + d[a] * np.arange(n[a] + 1)
            g.require(np.allclose(v["XYZ"[a]], w, rtol=0, atol=1e-6 * (abs(org[a]) + size[a]) + 2e-7 * (0 if given else abs(D[:, :, a]).max())), "%s coordinates %s, expected %s" % ("XYZ"[a], v["XYZ"[a]], list(w)))
        c = [lo[a] + (hi - lo)[a] / n[a] * (np.arange(n[a]) + 0.5) for a in range(3)]
        X = np.stack(np.meshgrid(c[2], c[1], c[0], indexing="ij"), -1).reshape(-1, 3)[:, ::-1]
        w = winding(D, X)
        far = distance(D, X) > 1e-3 * ((hi - lo) / n).min() + 4e-6 * np.abs(D).max()
        ins = w > 0.5
        got = np.array(v["v"]).astype(bool)
        g.require(set(v["v"]) <= {0, 1}, "values %s" % set(v["v"]))
        g.nontrivial(0 < ins[far].sum() and (far.sum() >= 8))
        bad = np.nonzero(far & (ins != got))[0]
        if len(bad):
            q = bad[0]
            g.fail("%s of %d facets, %s cells: %d of %d cells wrong, the first (%d %d %d) at %s is %s the solid and marked %d" % (k, len(T), n, len(bad), far.sum(), q % n[0], q // n[0] % n[1], q // n[0] // n[1], list(X[q]), "in" if ins[q] else "outside", got[q]))
        if lib:
            o = [float(x) for x in open(os.path.join(g.tmp, "o.lib")).read().split()]
            g.require(np.allclose(o[:3], d, rtol=1e-5), "returned spacing %s, expected %s" % (o[:3], d))
            g.require([int(x) for x in o[3:]] == v["v"], "the returned cells differ from the written ones")
    return f


def p_broken(exes):
    def f(g):
        """files that are no complete binary STL files"""
        k, T = solid(g)
        p = os.path.join(g.tmp, "s.stl")
        b = write_stl(g, p, T.astype(np.float32))
        what = g.pick(["missing", "empty", "short header", "cut", "count", "text"])
        g.label(what)
        if what == "missing":
            os.unlink(p)
        else:
            b = {"empty": b"", "short header": b[:g.i(1, 83)], "cut": b[:84 + g.i(0, len(b) - 85 - 2)], "count": b[:80] + struct.pack("<I", g.pick([len(T) + 1, 2 ** 31, 2 ** 32 - 1, 10 ** 6])) + b[84:],
                 "text": b"solid x\n" + b"facet normal 0 0 1\n outer loop\n vertex 0 0 0\n vertex 1 0 0\n vertex 0 1 0\n endloop\nendfacet\n" * g.i(1, 5) + b"endsolid x\n"}[what]
            with open(p, "wb") as w:
                w.write(b)
        g.nontrivial(True)
        lib = g.chance(2, 5)
        st, out = voxelize(g, exes[lib], ["s.stl", "o.vtk", 3, 4, 5] + ([] if lib else [0.0] * 3) + [0.0] * 3)
        g.require(st != 0, "%s: accepted" % what)
        g.require(not os.path.exists(os.path.join(g.tmp, "o.vtk")), "%s: a grid was written" % what)
    return f


def main():
    c = PyCheck("C32", "closed surfaces (boxes, hulls, tetrahedra, revolved bodies, tori, L bars, shells, separate bodies) anywhere, in any orientation and facet order, written as binary STL and voxelized by the program and the library; oracle: winding number of each cell centre computed from solid angles, centres within a tolerance of the surface left out; damaged files must be refused; non-trivial: material cells and eight decided cells, or a damaged file")
    exes = build(c)
    c.explore("solids", p_solid(exes), quick=2500, thorough=30000, budget=200)
    c.explore("broken", p_broken(exes), quick=500, thorough=4000, budget=60)
    c.finish()


run(main)
