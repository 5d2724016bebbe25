"""Builds the multiphysics application from /repo against the serial stand-in of MATAR/Kokkos/Elements in shim/, runs
it on generated decks and reads back what it wrote."""
import glob, os, re, resource, shutil, subprocess
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import REPO, SHIM, JOBS, BuildError

S = os.path.join(REPO, "apps/multiphysics/src")
CPU = 60


def include_dirs():
    d = []
    for base, dirs, files in os.walk(S):
        dirs.sort()
        if any(f.endswith((".hpp", ".h")) for f in files):
            d.append(base)
    return d


def sources():
    out = []
    for base, dirs, files in os.walk(S):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(base, f))
    cm = open(os.path.join(S, "CMakeLists.txt")).read()
    skip = set()
    # a source that no CMakeLists lists is not part of the program
    listed = "".join(open(p).read() for p in glob.glob(os.path.join(S, "**/CMakeLists.txt"), recursive=True))
    for p in out:
        if os.path.basename(p) not in listed and "GLOB" not in listed:
            skip.add(p)
    return [p for p in out if p not in skip and os.path.basename(p) not in ("energy_sgtm.cpp",)]


def groups(srcs):
    g = {}
    for p in srcs:
        r = os.path.relpath(p, S)
        b = os.path.basename(p)
        if r.startswith("Solvers/SGH_solver_3D"):
            k = "contact" if b == "contact.cpp" else "fracture" if b == "fracture.cpp" else "sgh"
        elif r.startswith("Solvers/"):
            k = r.split("/")[1]
        elif r.startswith("input/"):
            k = "input_b" if b in ("parse_regions.cpp", "parse_material_inputs.cpp", "parse_tools.cpp") else "yaml" if b == "Yaml.cpp" else "input_a"
        elif r.startswith("material_models/"):
            k = "matmod"
        else:
            k = "driver" if "/" not in r else "common"
        g.setdefault(k, []).append(p)
    return g


def build(c, name="Fierro", flags=("-O1",), cxx="g++", defs=(), extra_inc=()):
    """unity build per directory; a group that does not compile as one unit is compiled file by file"""
    if os.environ.get("FIERRO_DEV_" + name):   # development only: a program built before
        return os.environ["FIERRO_DEV_" + name]
    inc = ["-I" + SHIM, "-I" + S] + ["-I" + d for d in include_dirs()]
    base = [cxx, "-std=c++17", "-w", "-fpermissive" if cxx == "g++" else "-Wno-everything", "-DHAVE_KOKKOS=1"] + list(flags) + list(defs) + inc
    d = os.path.join(c.tmp, name + ".d")
    os.makedirs(d, exist_ok=True)
    gs = groups(sources())

    def comp(src, obj):
        r = subprocess.run(base + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode("utf8", "replace")

    def one(k):
        u = os.path.join(d, k + ".cpp")
        open(u, "w").write("".join('#include "%s"\n' % p for p in gs[k]))
        o = os.path.join(d, k + ".o")
        rc, t = comp(u, o)
        if rc == 0:
            return [o]
        objs = []
        for n, p in enumerate(gs[k]):
            o = os.path.join(d, "%s_%d.o" % (k, n))
            rc, t = comp(p, o)
            if rc:
                raise BuildError("%s\n%s" % (p, t[-4000:]))
            objs.append(o)
        return objs
    with ThreadPoolExecutor(JOBS) as ex:
        objs = [o for l in ex.map(one, sorted(gs, key=lambda k: -len(gs[k]))) for o in l]
    out = os.path.join(c.tmp, name)
    c.sh([cxx] + list(flags) + objs + ["-o", out])
    shutil.rmtree(d, True)
    return out


# ------------------------------------------------------------------------------------------------ decks
def num(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return str(v)


def emit(o, ind=0):
    sp = "    " * ind
    out = ""
    for k, v in o.items():
        if isinstance(v, dict):
            out += "%s%s:\n%s" % (sp, k, emit(v, ind + 1))
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], dict):
            out += "%s%s:\n" % (sp, k)
            for item in v:
                (kk, vv), = item.items()
                out += "%s    - %s:\n%s" % (sp, kk, emit(vv, ind + 3))
        elif isinstance(v, tuple):
            out += "%s%s: [%s]\n" % (sp, k, ", ".join(num(x) for x in v))
        elif isinstance(v, list):
            out += "%s%s:\n%s" % (sp, k, "".join("%s    - %s\n" % (sp, num(x)) for x in v))
        else:
            out += "%s%s: %s\n" % (sp, k, num(v))
    return out


ALL_ELEM = ["den", "pres", "stress", "sie", "sspd", "mass"]
ALL_NODE = ["coords", "vel", "mass", "force"]
ALL_GAUSS = ["volume", "vel_grad"]
ALL_MAT = ["den", "pres", "stress", "sie", "sspd", "mass", "volfrac", "eroded"]


def output_options(**kw):
    d = {"timer_output_level": "thorough", "output_file_format": "viz_and_state", "graphics_time_step": 1e30, "graphics_iteration_step": 1000000,
         "elem_field_outputs": ALL_ELEM, "node_field_outputs": ALL_NODE, "gauss_pt_field_outputs": ALL_GAUSS, "mat_pt_field_outputs": ALL_MAT}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def box_mesh(n, origin=(0., 0., 0.), length=(1., 1., 1.)):
    return {"source": "generate", "num_dims": len(n), "type": "box", "origin": tuple(origin), "length": tuple(length), "num_elems": tuple(n)}


def plane_bc(axis, pos, model="reflected", vars=None, solver_id=0, **kw):
    if vars is None:
        vars = [1 if a == axis else 0 for a in range(3)]
    b = {"solver_id": solver_id, "surface": {"type": "xyz"[axis] + "_plane", "plane_position": pos}, "velocity_model": model}
    if vars:
        b["velocity_bc_global_vars"] = list(vars)
    b.update(kw)
    return {"boundary_condition": b}


def walls(origin, length, model="reflected", axes=(0, 1, 2), sides=(0, 1)):
    out = []
    for a in axes:
        for s in sides:
            out.append(plane_bc(a, origin[a] + s * length[a], model))
    return out


MARS = [1.0, 1.0, 1.333, 1.333, 0.0, 1.0]


def gas(id=0, gamma=1.4, csmin=1e-14, mars=MARS, **kw):
    m = {"id": id, "eos_model_type": "decoupled", "eos_model": "gamma_law_gas", "eos_global_vars": [gamma, csmin, 1.0]}
    if mars is not None:
        m["dissipation_model"] = "MARS"
        m["dissipation_global_vars"] = list(mars)
    m.update(kw)
    return {"material": m}


def uni(v):
    return {"type": "uniform", "value": v}


def region(mat=0, volume=None, den=None, sie=None, vel=None, volfrac=1.0, solver_id=0, **kw):
    r = {"volume": volume or {"type": "global"}, "solver_id": solver_id, "material_id": mat}
    if den is not None:
        r["density"] = uni(den) if not isinstance(den, dict) else den
    if sie is not None:
        r["specific_internal_energy"] = uni(sie) if not isinstance(sie, dict) else sie
    if vel is not None:
        r["velocity"] = vel if isinstance(vel, dict) else {"type": "cartesian", "u": vel[0], "v": vel[1], "w": vel[2]}
    if volfrac is not None:
        r["volume_fraction"] = uni(volfrac) if not isinstance(volfrac, dict) else volfrac
    r.update(kw)
    return {"region": r}


# ------------------------------------------------------------------------------------------------ running
class Snap:
    """one output time: .t (5 digits), point coordinates, connectivity, fields by name, per-material dictionaries"""
    pass


_DA = re.compile(r"<DataArray([^>]*)>(.*?)</DataArray>", re.S)


def read_vtu(path):
    txt = open(path).read()
    out = {}
    m = re.search(r'NumberOfPoints="(\d+)" NumberOfCells="(\d+)"', txt)
    out["_np"], out["_nc"] = int(m.group(1)), int(m.group(2))
    sect = "points"
    for m in _DA.finditer(txt):
        a = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        nm = a.get("Name", "points")
        v = np.array(m.group(2).split(), dtype=float)
        nc = int(a.get("NumberOfComponents", "1"))
        if nc > 1:
            v = v.reshape(-1, nc)
        if a.get("type", "").startswith("Int"):
            v = v.astype(int)
        out[nm] = v
    return out


class Run:
    def __init__(self, rc, out, d):
        self.rc, self.out, self.d = rc, out, d

    @property
    def finished(self):
        return self.rc == 0 and "**** End of main ****" in self.out

    def times(self, solver=0):
        p = os.path.join(self.d, "vtk", "Fierro.solver%d.pvd" % solver)
        return [float(x) for x in re.findall(r'timestep="\s*([^"]+)"', open(p).read())]

    def nsnaps(self, solver=0):
        return len(glob.glob(os.path.join(self.d, "vtk/data", "Fierro.solver%d.fields.*.vtu" % solver)))

    def solvers(self):
        """solvers that wrote output"""
        return sorted({int(re.search(r"solver(\d+)\.fields", p).group(1)) for p in glob.glob(os.path.join(self.d, "vtk/data", "Fierro.solver*.fields.*.vtu"))})

    def state_names(self):
        return [os.path.basename(p) for p in glob.glob(os.path.join(self.d, "state/*.txt"))]

    def snap(self, k, solver=0, mats=True):
        n = self.nsnaps(solver)
        if k < 0:
            k += n
        b = os.path.join(self.d, "vtk/data", "Fierro.solver%d." % solver)
        s = Snap()
        s.f = read_vtu(b + "fields.%05d.vtu" % k)
        s.x = s.f["points"]
        nn = s.f["connectivity"].size // max(1, s.f["_nc"])
        s.conn = s.f["connectivity"].reshape(-1, nn)
        s.mats = {}
        if mats:
            for p in sorted(glob.glob(b + "mat*.%05d.vtu" % k)):
                s.mats[int(re.search(r"mat(\d+)\.\d+\.vtu$", p).group(1))] = read_vtu(p)
        return s

    def state_files(self):
        key = lambda p: float(re.search(r"_t_([0-9.e+-]+)\.txt$", p).group(1))
        a = sorted(glob.glob(os.path.join(self.d, "state/mat_pt_state_t_*.txt")), key=key)
        return [(key(p), p, p.replace("mat_pt_state", "node_state")) for p in a]

    def energies(self):
        m = re.search(r"Time=0: *KE = ([^,]+), IE = ([^,]+), TE = (\S+)", self.out)
        e = re.search(r"Time=End: *KE = ([^,]+), IE = ([^,]+), TE = (\S+)", self.out)
        d = re.search(r"total energy change = (\S+)", self.out)
        f = lambda m: tuple(float(x) for x in m.groups()) if m else None
        return f(m), f(e), float(d.group(1)) if d else None


def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


_n = 0


def run(binary, deck, g, env=None, name="deck.yaml", files=None, args=None, sub=None):
    """runs the program in a fresh directory below the worker's scratch directory"""
    global _n
    _n += 1
    d = os.path.join(g.tmp, sub or "r%d" % _n)
    os.makedirs(d)
    txt = deck if isinstance(deck, str) else emit(deck)
    open(os.path.join(d, name), "w").write(txt)
    for f, t in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), "w" if isinstance(t, str) else "wb").write(t)
    e = {k: v for k, v in os.environ.items() if not k.startswith("SHIM_")}
    e.update(env or {})
    with open(os.path.join(d, "stdout.txt"), "wb") as o:
        r = subprocess.run([binary] + (args if args is not None else [name]), cwd=d, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT, env=e, preexec_fn=_limits)
    return Run(r.returncode, open(os.path.join(d, "stdout.txt"), errors="replace").read(), d)


def ok(g, r, what="the run"):
    if not r.finished:
        g.fail("%s did not finish: exit status %s\n%s" % (what, r.rc, r.out[-1500:]))
    return r
