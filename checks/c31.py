import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run, REPO, SHIM, HARNESS
from fz import PyCheck
import numpy as np, subprocess, re, itertools
import fierro as F

FL = os.path.join(REPO, "legacy/Fierro_V0/src")


def build(c):
    if os.environ.get("FIERRO_DEV_mb"):
        return os.environ["FIERRO_DEV_mb"] + "/mesh_builder", os.environ["FIERRO_DEV_mb"] + "/round_trip"
    f = ["clang++", "-std=c++17", "-g1", "-O0", "-Wno-everything", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + SHIM, "-I" + FL + "/Mesh-Builder/include", "-I" + FL + "/Yaml-Serializable/include"]
    from concurrent.futures import ThreadPoolExecutor
    src = [FL + "/Mesh-Builder/src/" + s for s in ("MeshBuilder.cpp", "EnsightIO.cpp", "VtkIO.cpp", "main.cpp")] + [FL + "/Yaml-Serializable/src/Yaml.cpp", HARNESS + "/mesh_builder.cpp"]
    obj = [os.path.join(c.tmp, os.path.basename(s) + ".o" + str(k)) for k, s in enumerate(src)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda so: c.sh(f + ["-c", so[0], "-o", so[1]]), zip(src, obj)))
    a, b = os.path.join(c.tmp, "mesh_builder"), os.path.join(c.tmp, "round_trip")
    lib = [obj[0], obj[1], obj[2], obj[4]]
    c.sh(f + lib + [obj[3], "-o", a])
    c.sh(f + lib + [obj[5], "-o", b])
    return a, b


def lagrange(dim, p):
    """(i, j, k) of the points of a cell in the order of its VTK type"""
    r = range(1, p)
    if dim == 2:
        v = [(0, 0), (p, 0), (p, p), (0, p)]
        e = [(i, 0) for i in r] + [(p, j) for j in r] + [(i, p) for i in r] + [(0, j) for j in r]
        return [(i, j, 0) for i, j in v + e] + [(i, j, 0) for j in r for i in r]
    v = [(0, 0, z) for z in ()]
    for k in (0, p):
        v += [(0, 0, k), (p, 0, k), (p, p, k), (0, p, k)]
    for k in (0, p):
        v += [(i, 0, k) for i in r] + [(p, j, k) for j in r] + [(i, p, k) for i in r] + [(0, j, k) for j in r]
    for i, j in ((0, 0), (p, 0), (0, p), (p, p)):
        v += [(i, j, k) for k in r]
    for i in (0, p):
        v += [(i, j, k) for k in r for j in r]
    for j in (0, p):
        v += [(i, j, k) for k in r for i in r]
    for k in (0, p):
        v += [(i, j, k) for j in r for i in r]
    return v + [(i, j, k) for k in r for j in r for i in r]


def ijk(dim, p):
    return [(i, j, k) for k in range(p + 1 if dim == 3 else 1) for j in range(p + 1) for i in range(p + 1)]


class Desc:
    pass


def description(g, maxn=4, maxp=4):
    d = Desc()
    d.dim = g.pick([3, 2])
    d.kind = g.pick(["Box", "Cylinder"])
    d.p = g.pick([1, 1, 2, 3, maxp])
    d.n = [g.i(1, maxn if d.p < 3 else 2) for _ in range(d.dim)]
    d.length = [g.pick([1.0, 0.5, 2.0, 1.2, 10.0, g.u(0.01, 5)]) for _ in range(d.dim)]
    d.origin = [g.pick([0.0, 0.0, -0.6, 1.0, 3.25, g.u(-4, 4)]) for _ in range(d.dim)]
    d.inner, d.start = 0.0, 0.0
    d.full = False
    if d.kind == "Cylinder":
        d.length[1] = g.pick([90.0, 45.0, 360.0, 360.0, 1.0, 180.0, g.u(1, 359)])
        d.full = d.length[1] == 360.0
        if d.full:
            d.n[1] = max(d.n[1], 3)
        d.inner = g.pick([0.1, 0.01, 1.0, 2.0])
        d.start = g.pick([0.0, 0.0, 30.0, -45.0, 200.0])
    d.full_defaults = g.chance(1, 4)
    return d


def model(d):
    """coordinates of the points of every element, in lattice order; number of points"""
    m = [d.n[a] * d.p for a in range(d.dim)]
    P3 = lambda t: tuple(list(t) + [0] * (3 - len(t)))

    def at(i, j, k):
        q = [d.length[a] * (v / m[a]) for a, v in zip(range(d.dim), (i, j, k))]
        if d.kind == "Cylinder":
            r, th = d.inner + q[0], np.deg2rad(d.start + q[1])
            q[0], q[1] = r * np.cos(th), r * np.sin(th)
        return [q[a] + d.origin[a] for a in range(d.dim)] + [0.0] * (3 - d.dim)
    n = P3(d.n) if d.dim == 3 else (d.n[0], d.n[1], 1)
    els = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                els.append({t: at(i * d.p + t[0], j * d.p + t[1], k * d.p + t[2]) for t in ijk(d.dim, d.p)})
    npts = [v + 1 for v in m]
    if d.full:
        npts[1] -= 1
    return els, int(np.prod(npts))


def text(g, d, out):
    inp = {"type": d.kind}
    keys = ["length", "num_elems", "origin", "p_order"]
    vals = {"length": tuple(d.length), "num_elems": tuple(d.n), "origin": tuple(d.origin), "p_order": d.p}
    if d.kind == "Cylinder":
        keys += ["inner_radius", "start_angle"]
        vals.update(inner_radius=d.inner, start_angle=d.start)
    if d.p == 1 and d.full_defaults:
        keys.remove("p_order")
    if d.kind == "Cylinder" and d.start == 0.0 and d.full_defaults:
        keys.remove("start_angle")
    for k in g.perm(len(keys)):
        inp[keys[k]] = vals[keys[k]]
    items = [("output", out), ("input", inp)]
    if g.flip():
        items.reverse()
    return F.emit(dict(items))


def go(g, binary, args, cwd):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1")
    r = subprocess.run([binary] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=60)
    t = r.stdout.decode("utf8", "replace")
    if "Sanitizer" in t or "runtime error" in t:
        g.fail("sanitizer report\n" + t[-2500:])
    return r.returncode, t


def tokens(g, txt, what):
    m = re.search(what, txt)
    if not m:
        g.fail("no %s in the file\n%s" % (what, txt[:500]))
    return m, txt[m.end():].split()


def compare(g, d, pts, conn, order, tol, what):
    els, npts = model(d)
    g.require(len(pts) == npts, what, ":", len(pts), "points instead of", npts)
    g.require(len(conn) == len(els), what, ":", len(conn), "elements instead of", len(els))
    used = set()
    big = max(1e-30, np.abs(pts).max())
    for e, (c, el) in enumerate(zip(conn, els)):
        g.require(len(c) == len(order), what, ": element", e, "has", len(c), "points instead of", len(order))
        for q, t in zip(c, order):
            g.require(0 <= q < npts, what, ": point number", q)
            used.add(int(q))
            if not (np.abs(np.array(el[t]) - pts[q]) <= tol * big).all():
                g.fail("%s: point %s of element %d is at %s instead of %s" % (what, t, e, pts[q], el[t]))
    g.require(len(used) == npts, what, ": points that no element uses")


def vtk(g, txt):
    m, tk = tokens(g, txt, r"POINTS (\d+) \w+")
    n = int(m.group(1))
    pts = np.array(tk[:3 * n], dtype=float).reshape(-1, 3)
    g.require(tk[3 * n] == "CELLS", "points of the VTK file are followed by", tk[3 * n])
    m, tk = tokens(g, txt, r"CELLS (\d+) (\d+)")
    ne, size = int(m.group(1)), int(m.group(2))
    v = [int(x) for x in tk[:size]]
    conn, k = [], 0
    for _ in range(ne):
        conn.append(v[k + 1:k + 1 + v[k]]); k += 1 + v[k]
    g.require(k == size and tk[size] == "CELL_TYPES", "cell table of the VTK file")
    m, tk = tokens(g, txt, r"CELL_TYPES (\d+)")
    types = [int(x) for x in tk[:ne]]
    return pts, conn, types


def main():
    c = PyCheck("C31", "random descriptions of 2D and 3D boxes and cylinders (orders 1-4, full circles, origins, key order, both file formats), broken descriptions, several meshes per process; non-trivial: order above 1, a cylinder or an origin")
    mb, rt = build(c)

    def nontriv(g, d):
        g.nontrivial(d.p > 1 or d.kind == "Cylinder" or any(d.origin))
        g.label(d.kind); g.label("%dD" % d.dim); g.label("p%d" % d.p)
        if d.full:
            g.label("full circle")

    def files(g):
        d = description(g)
        fmt = g.pick(["VTK", "Ensight"])
        if d.p > 1:
            fmt = "VTK"
        name = g.pick(["mesh", "my_mesh", "m1"])
        out = {"name": name, "file_type": fmt}
        loc = g.chance(1, 3) and fmt == "VTK"
        w = os.path.join(g.tmp, "w"); os.makedirs(w, exist_ok=True)
        if loc:
            out["file_location"] = "sub"; os.makedirs(os.path.join(w, "sub"))
        t = text(g, d, out)
        g.note(t)
        open(os.path.join(w, "in.yaml"), "w").write(t)
        rc, o = go(g, mb, ["in.yaml"], w)
        g.require(rc == 0, "exit status", rc, o[-800:])
        if fmt == "VTK":
            p = os.path.join(w, "sub" if loc else "vtk", name + ".vtk")
            g.require(os.path.exists(p), "no file", p, o[-300:])
            pts, conn, types = vtk(g, open(p).read())
            order = lagrange(d.dim, d.p)
            compare(g, d, pts, conn, order, 1e-5, "VTK file")
            want = {(1, 2): 9, (1, 3): 12, (2, 2): 70, (2, 3): 72}[(min(d.p, 2), d.dim)]
            g.require(all(k == want for k in types), "cell types", types[:5], "instead of", want)
        else:
            b = os.path.join(w, "ensight")
            p = os.path.join(b, "data", name + ".00001.geo")
            g.require(os.path.exists(p), "no file", p)
            L = open(p).read().split("\n")
            k = L.index("coordinates")
            n = int(L[k + 1])
            pts = np.array([float(x) for x in L[k + 2:k + 2 + 3 * n]]).reshape(3, n).T
            k += 2 + 3 * n
            g.require(L[k] == ("hexa8" if d.dim == 3 else "quad4"), "element type", L[k])
            ne = int(L[k + 1])
            conn = [[int(r[a:a + 10]) - 1 for a in range(0, len(r.rstrip()), 10)] for r in L[k + 2:k + 2 + ne]]
            compare(g, d, pts, conn, lagrange(d.dim, 1), 1e-5, "Ensight file")
            case = open(os.path.join(b, name + ".case")).read()
            g.require("data/%s.*****.geo" % name in case and "data/%s.*****.var" % name in case, "the case file names other files\n" + case)
            var = open(os.path.join(b, "data", name + ".00001.var")).read().split("\n")
            g.require(len([1 for r in var[4:] if r.strip()]) == ne, "values in the variable file")
        nontriv(g, d)
        g.label(fmt)

    def round_trip(g):
        w = os.path.join(g.tmp, "w"); os.makedirs(w, exist_ok=True)
        ds = [description(g, 3) for _ in range(g.i(1, 3))]
        names = []
        for k, d in enumerate(ds):
            t = text(g, d, {"name": "mesh", "file_type": "VTK"})
            g.note(t)
            names.append("in%d.yaml" % k)
            open(os.path.join(w, names[-1]), "w").write(t)
        rc, o = go(g, rt, names, w)
        g.require(rc == 0 and o.count("OK") == len(ds) and "ERROR" not in o, "exit status", rc, o[-800:])
        for k, d in enumerate(ds):
            pts, conn, types = vtk(g, open(os.path.join(w, names[k] + ".vtk")).read())
            compare(g, d, pts, conn, lagrange(d.dim, d.p), 1e-5, "VTK text %d" % k)
            tk = open(os.path.join(w, names[k] + ".back")).read().split()
            dim, p = int(tk[0]), int(tk[1])
            g.require(dim == d.dim, "read back with", dim, "dimensions instead of", d.dim)
            g.require(p == d.p, "read back with order", p, "instead of", d.p)
            at = 2
            for what, tol in (("mesh", 1e-12), ("mesh read back", 1e-5)):
                n, m = int(tk[at]), int(tk[at + 1]); at += 2
                g.require(m == d.dim, what, "has", m, "coordinates per point")
                x = np.zeros((n, 3)); x[:, :m] = np.array(tk[at:at + n * m], dtype=float).reshape(n, m); at += n * m
                ne, q = int(tk[at]), int(tk[at + 1]); at += 2
                cn = np.array(tk[at:at + ne * q], dtype=int).reshape(ne, q); at += ne * q
                compare(g, d, x, cn, ijk(d.dim, d.p), tol, what)
                at += ne
            nontriv(g, d)
        g.label("%d in one process" % len(ds))

    def broken(g):
        d = description(g, 3, 3)
        d.full_defaults = False
        w = os.path.join(g.tmp, "w"); os.makedirs(w, exist_ok=True)
        kinds = ["length short", "elems short", "origin short", "length long", "elems long", "dims", "unknown", "missing", "type", "count", "order"] + (["angle", "negative angle"] if d.kind == "Cylinder" else [])
        how = g.pick(kinds)
        cut = lambda v, k: v[:k]
        if how == "length short":
            d.length = cut(d.length, g.i(0, d.dim - 1))
        elif how == "elems short":
            d.n = cut(d.n, g.i(0, d.dim - 1))
        elif how == "origin short":
            d.origin = cut(d.origin, g.i(0, d.dim - 1))
        elif how == "length long":
            d.length = d.length + [1.0] * g.i(1, 2)
        elif how == "elems long":
            d.n = d.n + [1] * g.i(1, 2)
        elif how == "dims":
            k = g.pick([1, 4, 5])
            d.length, d.n, d.origin = (d.length * 3)[:k], (d.n * 3)[:k], (d.origin * 3)[:k]
        elif how == "angle":
            d.length[1] = g.pick([361.0, 450.0, 720.0])
        elif how == "negative angle":
            d.length[1] = -g.pick([1.0, 90.0])
        elif how == "count":
            d.n[g.i(0, d.dim - 1)] = -g.i(0, 3)
        elif how == "order":
            d.p = 0
        t = text(g, d, {"name": "mesh", "file_type": "VTK"})
        if how == "unknown":
            t = t.replace("    type:", "    %s: 3\n    type:" % g.pick(["lenght", "order", "num_points", "num_dims"]))
        elif how == "missing":
            key = g.pick(["length", "num_elems", "origin", "type"])
            t = re.sub(r"(?m)^    %s:.*\n" % key, "", t)
        elif how == "type":
            t = re.sub(r"type: (Box|Cylinder)", "type: " + g.pick(["Sphere", "box", ""]), t)
        g.note(how); g.note(t)
        open(os.path.join(w, "in.yaml"), "w").write(t)
        rc, o = go(g, rt, ["in.yaml"], w)
        g.require(rc == 0 and o.startswith("ERROR "), "a description with", how, "is accepted or ends without an error: status", rc, o[-400:])
        g.nontrivial()
        g.label(how)

    c.explore("files", files, 1500, 12000, budget=200)
    c.explore("round-trip", round_trip, 1500, 12000, budget=200)
    c.explore("broken", broken, 1500, 12000, budget=200)
    c.finish()

run(main)
