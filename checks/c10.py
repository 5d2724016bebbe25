import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import glob, re
import numpy as np, fierro as F, problems as P

ELEM = {"den": ["den"], "pres": ["pres"], "stress": ["stress"], "sie": ["sie"], "sspd": ["sspd"], "mass": ["mass"]}
NODE = {"coords": ["node_coords"], "vel": ["node_vel", "node_accel"], "mass": ["node_mass"]}
GAUSS = {"volume": ["vol"], "vel_grad": ["vel_grad"]}
MAT = {"den": ["mat_den"], "pres": ["mat_pres"], "stress": ["mat_stress"], "sie": ["mat_sie"], "sspd": ["mat_sspd"], "mass": ["mat_mass"],
       "volfrac": ["mat_volfrac", "mat_geo_volfrac"], "eroded": ["mat_eroded"]}
GEOM = {"points", "connectivity", "offsets", "types", "_nc", "_np"}


def numbers(path, skip):
    return [float(w) for l in open(path).read().split("\n")[skip:] for w in l.split()]


def ensight(d, k, what, dims, n, node):
    """a variable of an EnSight gold data file: per element one block, per node three"""
    L = open(os.path.join(d, "ensight/data/Outputs_SGH.%05d.%s" % (k, what))).read().split("\n")
    v = np.array([float(w) for w in L[4:] if w.strip()])
    return v.reshape(3, n).T if node else v


def close5(a, b):
    return (np.abs(a - b) <= 1e-5 * np.abs(b) + 1e-300).all()


def main():
    c = PyCheck("C10", "random gas-dynamics problems (3D and axisymmetric), each run once per output format and once with a random choice of fields; non-trivial: more than one output is written and something moves")
    B = F.build(c)

    def formats(g):
        rz = g.chance(1, 3)
        p = P.rz_problem(g) if rz else P.gas_problem(g)
        dims = 2 if rz else 3
        # materials that fill nothing: their files do not exist
        p.deck["output_options"]["graphics_iteration_step"] = g.pick([1, 2, 3])
        nm = p.nm
        if g.chance(1, 4):
            # one more material before the others, without a region
            for m in p.deck["materials"]:
                m["material"]["id"] += 1
            for q in p.deck["regions"]:
                q["region"]["material_id"] += 1
            import copy
            e = copy.deepcopy(p.deck["materials"][0])
            e["material"]["id"] = 0
            p.deck["materials"].insert(0, e)
            nm += 1
            g.label("unused material")
        g.note(F.emit(p.deck))
        runs = {}
        for f in ("viz_and_state", "viz", "state", "ensight"):
            p.deck["output_options"]["output_file_format"] = f
            runs[f] = F.ok(g, F.run(B, p.deck, g, files=p.files, sub=f))
        full = runs["viz_and_state"]
        n = full.nsnaps()
        times = full.times()
        g.require(len(times) == n, "the time series lists", len(times), "outputs but", n, "were written")

        def tree(r, sub):
            return {os.path.relpath(q, r.d): open(q, "rb").read() for q in sorted(glob.glob(os.path.join(r.d, sub, "**"), recursive=True)) if os.path.isfile(q)}
        for sub, f in (("vtk", "viz"), ("state", "state")):
            a, b = tree(full, sub), tree(runs[f], sub)
            g.require(sorted(a) == sorted(b), "formats", f, "and viz_and_state write other files:", sorted(set(a) ^ set(b))[:4])
            for q in a:
                g.require(a[q] == b[q], "file", q, "differs between the formats", f, "and viz_and_state")
        g.require(not os.path.exists(os.path.join(runs["viz"].d, "state")) and not os.path.exists(os.path.join(runs["state"].d, "vtk")), "files of a format that was not asked for")
        # what the series lists exists, and what exists is listed
        base = os.path.join(full.d, "vtk")
        pvd = open(os.path.join(base, "Fierro.solver0.pvd")).read()
        vtms = re.findall(r'file="([^"]+)"', pvd)
        seen = set()
        for k, q in enumerate(vtms):
            g.require(os.path.exists(os.path.join(base, q)), "the series lists", q, "which does not exist")
            t = open(os.path.join(base, q)).read()
            for w, tm in re.findall(r'file="([^"]+)" time= "\s*([^"]+)"', t):
                g.require(os.path.exists(os.path.join(base, "data", w)), q, "lists", w, "which does not exist")
                g.require(abs(float(tm) - times[k]) <= 1e-5 * abs(times[k]), q, "has the time", tm, "instead of", times[k])
                g.require(w.endswith(".%05d.vtu" % k), q, "lists", w, "of another output")
                seen.add(w)
        have = {os.path.basename(q) for q in glob.glob(os.path.join(base, "data", "*.vtu"))}
        g.require(have == seen, "files the series does not list:", sorted(have - seen)[:4])
        # states and ensight against the graphics files
        sf = full.state_files()
        g.require(len(sf) == n, len(sf), "state files for", n, "outputs")
        ens = runs["ensight"]
        case = open(os.path.join(ens.d, "ensight/Outputs_SGH.case")).read()
        et = [float(w) for w in case.split("time values:")[1].split()]
        g.require(int(re.search(r"number of steps:\s*(\d+)", case).group(1)) == n and len(et) == n and close5(np.array(et), np.array(times)), "the case file lists", et, "instead of", times)
        moved = False
        for k in range(n):
            s = full.snap(k)
            x, v = s.f["node_coords"], s.f["node_vel"]
            g.require(np.array_equal(x[:, :dims], s.x[:, :dims]), "points and node_coords differ")
            moved = moved or np.abs(v).max() > 0
            tm, fm, fn = sf[k]
            rows = np.array([[float(w) for w in l.split()] for l in open(fn).read().split("\n")[2:] if l.strip()])
            g.require(rows.shape == (len(x), 10), "node state file with shape", rows.shape)
            for what, a, b in (("coordinates", rows[:, :3], x), ("velocities", rows[:, 5:8], v), ("radius_2D", rows[:, 3], np.hypot(x[:, 0], x[:, 1])),
                               ("radius_3D", rows[:, 4], np.sqrt((x ** 2).sum(1))), ("speed", rows[:, 8], np.sqrt((v ** 2).sum(1)))):
                g.require((np.abs(a - b) <= 1e-11 * np.abs(b) + 1e-300).all(), "state file: nodal", what, "of output", k)
            rows = np.array([[float(w) for w in l.split()] for l in open(fm).read().split("\n")[2:] if l.strip()]).reshape(-1, 11)
            want = []
            vol = s.f["vol"]
            key = {s.x[q].tobytes(): e for e, q in enumerate(s.conn)}
            last = {}
            for m in range(nm):
                d = s.mats.get(m)
                if d is None or not d["_nc"]:
                    continue
                cm = d["connectivity"].reshape(d["_nc"], -1)
                el = np.array([key[d["points"][q].tobytes()] for q in cm])
                ctr = np.zeros((len(el), 3))
                ctr[:, :] = s.x[s.conn[el]].mean(1)
                want.append(np.column_stack([ctr, np.hypot(ctr[:, 0], ctr[:, 1]), np.sqrt((ctr ** 2).sum(1)), d["mat_den"], d["mat_pres"], d["mat_sie"], d["mat_sspd"], vol[el], d["mat_mass"]]))
                for a, e in enumerate(el):
                    last[e] = (d["mat_den"][a], d["mat_pres"][a], d["mat_sie"][a], d["mat_mass"][a], d["mat_sspd"][a], m, d["mat_eroded"][a])
            want = np.vstack(want)
            g.require(rows.shape == want.shape, "state file with", len(rows), "material points instead of", len(want))
            sc = np.abs(s.x).max()
            tol = 1e-11 * np.abs(want) + 1e-300
            tol[:, :5] += 1e-14 * sc
            bad = ~(np.abs(rows - want) <= tol)
            g.require(not bad.any(), "state file: material points differ in columns", np.where(bad.any(0))[0], "of output", k)
            # averages of the elements
            sums = {w: 0.0 for w in ("den", "pres", "sspd")}
            sums = {w: np.zeros(len(s.conn)) for w in ("den", "pres", "sspd", "mass", "ie")}
            st = np.zeros((len(s.conn), 9))
            for m, d in s.mats.items():
                if d["_nc"]:
                    cm = d["connectivity"].reshape(d["_nc"], -1)
                    el = np.array([key[d["points"][q].tobytes()] for q in cm])
                    f = d["mat_volfrac"] * d["mat_geo_volfrac"]
                    for w in ("den", "pres", "sspd"):
                        np.add.at(sums[w], el, f * d["mat_" + w])
                    np.add.at(sums["mass"], el, d["mat_mass"]); np.add.at(sums["ie"], el, d["mat_mass"] * d["mat_sie"])
                    np.add.at(st, el, f[:, None] * d["mat_stress"].reshape(-1, 9))
            sums["sie"] = sums.pop("ie") / sums["mass"]
            tiny = {"sie": 1e-19 / sums["mass"].min()}      # the program guards that division with a mass of 1e-20
            for w, a in sums.items():
                g.require((np.abs(s.f[w] - a) <= (1e-10 + tiny.get(w, 0.0)) * np.abs(a).max()).all(), "element average of", w, "at output", k)
            g.require((np.abs(s.f["stress"].reshape(-1, 9) - st) <= 1e-10 * np.abs(st).max() + 1e-300).all(), "element average of stress at output", k)
            # ensight
            L = open(os.path.join(ens.d, "ensight/data/Outputs_SGH.%05d.geo" % k)).read().split("\n")
            g.require(int(L[8]) == len(x), "geometry with", L[8], "nodes")
            ex = np.array([float(w) for w in L[9:9 + 3 * len(x)]]).reshape(3, -1).T
            g.require(close5(ex, x), "EnSight coordinates of output", k)
            r = L[9 + 3 * len(x):]
            g.require(r[0] == ("quad4" if rz else "hexa8") and int(r[1]) == len(s.conn), "EnSight element type")
            ec = np.array([[int(w) - 1 for w in l.split()] for l in r[2:] if l.strip()])
            g.require(np.array_equal(ec[:, [0, 1, 3, 2, 4, 5, 7, 6]] if not rz else ec, s.conn), "EnSight elements of output", k)
            lv = np.array([last[e] for e in range(len(s.conn))])
            sp = np.sqrt((v[s.conn].mean(1) ** 2).sum(1))
            for what, b in (("den", lv[:, 0]), ("pres", lv[:, 1]), ("sie", lv[:, 2]), ("mass", lv[:, 3]), ("sspd", lv[:, 4]), ("mat_id", lv[:, 5]), ("eroded", lv[:, 6]), ("vol", vol)):
                a = ensight(ens.d, k, what, dims, len(s.conn), False)
                g.require(len(a) == len(b) and close5(a, b), "EnSight", what, "of output", k)
            a = ensight(ens.d, k, "speed", dims, len(s.conn), False)
            g.require((np.abs(a - sp) <= 1e-5 * sp + 1e-12 * np.abs(v).max()).all(), "EnSight speed of output", k)
            for what, b in (("pos", x), ("vel", v)):
                g.require(close5(ensight(ens.d, k, what, dims, len(x), True), b), "EnSight", what, "of output", k)
        # a choice of fields
        o = p.deck["output_options"]
        o["output_file_format"] = "viz"
        pick = {}
        for cat, names in (("elem", ELEM), ("node", NODE), ("gauss", GAUSS), ("mat", MAT)):
            l = [q for q in names if g.flip()]
            if cat == "node" and "coords" not in l:
                l = ["coords"] + l
            ks = {"elem": "elem_field_outputs", "node": "node_field_outputs", "gauss": "gauss_pt_field_outputs", "mat": "mat_pt_field_outputs"}[cat]
            l = [l[q] for q in g.perm(len(l))]
            if l:
                o[ks] = l
            else:
                o.pop(ks)
            pick[cat] = l
        g.note("fields: %s" % pick)
        r = F.ok(g, F.run(B, p.deck, g, files=p.files, sub="some"))
        g.require(r.nsnaps() == n, r.nsnaps(), "outputs with a choice of fields instead of", n)
        wf = {w for q in pick["elem"] for w in ELEM[q]} | {w for q in pick["node"] for w in NODE[q]} | {w for q in pick["gauss"] for w in GAUSS[q]}
        wm = {w for q in pick["mat"] for w in MAT[q]}
        for k in range(n):
            a, b = r.snap(k), full.snap(k)
            # the mass comes along with the specific energy, whose average it weighs
            g.require({w for w in a.f if w not in GEOM} - ({"mass"} if "sie" in wf else set()) == wf - ({"mass"} if "sie" in wf else set()), "fields in the file:", sorted(w for w in a.f if w not in GEOM), "asked for:", sorted(wf))
            g.require(not wm or sorted(a.mats) == sorted(b.mats), "material files")
            for w in wf | {"points", "connectivity"}:
                g.require(np.array_equal(a.f[w], b.f[w], equal_nan=True), "field", w, "of output", k, "depends on which fields are asked for")
            for m, d in a.mats.items():
                g.require({w for w in d if w not in GEOM} == wm, "material fields in the file:", sorted(w for w in d if w not in GEOM), "asked for:", sorted(wm))
                for w in wm:
                    g.require(np.array_equal(d[w], b.mats[m][w], equal_nan=True), "field", w, "of output", k, "depends on which fields are asked for")
        g.nontrivial(moved and n > 1)
        g.label("rz" if rz else "3D"); g.label("mats%d" % p.nm)
        if p.mixed:
            g.label("mixed")

    c.explore("formats", formats, 1500, 9000)
    c.finish()

run(main)
