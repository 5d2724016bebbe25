"""Problems, runner and reference model for the crystal plasticity solvers (EVPFFT and its variants)."""
import os, glob, itertools, subprocess, resource, struct, re
import numpy as np
from vf import REPO, SHIM

SRC = os.path.join(REPO, "apps/micromechanics")
VARIANTS = ("EVPFFT", "LS-EVPFFT", "LSNP-EVPFFT", "LS-EVPFFT-J2")
IJV = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def build(c, variants=("EVPFFT",), defs=(), flags=("-O1",), tag=""):
    from concurrent.futures import ThreadPoolExecutor
    dev = os.environ.get("FIERRO_DEV_evp")
    if dev and not defs:
        return {v: os.path.join(dev, v) for v in variants}
    f = ["g++", "-std=c++17", "-w"] + list(flags) + ["-DHAVE_KOKKOS=1", "-DUSE_FFTW"] + list(defs)
    f += ["-I" + os.path.join(os.path.dirname(SHIM), "micro"), "-I" + SHIM]
    jobs, objs = [], {v: [] for v in variants}
    for v in variants:
        d = os.path.join(SRC, v, "src")
        srcs = sorted(glob.glob(d + "/*.cpp"), key=lambda p: -os.path.getsize(p))
        for s in srcs:
            o = os.path.join(c.tmp, "%s%s_%s.o" % (v, tag, os.path.basename(s)[:-4]))
            objs[v].append(o)
            jobs.append(f + ["-I" + d, "-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(c.sh, jobs))
    out = {}
    for v in variants:
        out[v] = os.path.join(c.tmp, v + tag + "_bin")
        c.sh(f + objs[v] + ["-o", out[v], "-lpthread"])
    return out


# ---------------------------------------------------------------------------------------------------------- problems
def euler(ph, th, tm):
    """sample -> crystal, Bunge angles in radians"""
    c1, s1, c, s, c2, s2 = np.cos(ph), np.sin(ph), np.cos(th), np.sin(th), np.cos(tm), np.sin(tm)
    z1 = np.array([[c1, s1, 0], [-s1, c1, 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    z2 = np.array([[c2, s2, 0], [-s2, c2, 0], [0, 0, 1]])
    return z2 @ x @ z1


def voigt4(c):
    C = np.zeros((3, 3, 3, 3))
    for a, (i, j) in enumerate(IJV):
        for b, (k, l) in enumerate(IJV):
            for p, q in {(i, j), (j, i)}:
                for r, s in {(k, l), (l, k)}:
                    C[p, q, r, s] = c[a, b]
    return C


B6 = np.zeros((6, 3, 3))
B6[0][0, 0], B6[0][1, 1] = -2 ** -.5, 2 ** -.5
B6[1][0, 0] = B6[1][1, 1] = -6 ** -.5
B6[1][2, 2] = 2 * 6 ** -.5
for _n, (_i, _j) in ((2, (1, 2)), (3, (0, 2)), (4, (0, 1))):
    B6[_n][_i, _j] = B6[_n][_j, _i] = 2 ** -.5
B6[5] = np.eye(3) * 3 ** -.5


def to6(t):
    return np.einsum("...ij,nij->...n", t, B6)


def from6(v):
    return np.einsum("...n,nij->...ij", v, B6[:v.shape[-1]])


def to66(C):
    return np.einsum("...ijkl,nij,mkl->...nm", C, B6, B6)


def from66(c):
    return np.einsum("...nm,nij,mkl->...ijkl", c, B6, B6)


CUBIC = {"fcc": [((a, b, c), d) for (a, b, c), ds in {(1, 1, 1): [(0, 1, -1), (1, 0, -1), (1, -1, 0)], (-1, 1, 1): [(0, 1, -1), (1, 0, 1), (1, 1, 0)],
                                                   (1, -1, 1): [(0, 1, 1), (1, 0, -1), (1, 1, 0)], (1, 1, -1): [(0, 1, 1), (1, 0, 1), (1, -1, 0)]}.items() for d in ds],
         "bcc": [(d, n) for n, ds in {(1, 1, 1): [(0, 1, -1), (1, 0, -1), (1, -1, 0)], (-1, 1, 1): [(0, 1, -1), (1, 0, 1), (1, 1, 0)],
                                      (1, -1, 1): [(0, 1, 1), (1, 0, -1), (1, 1, 0)], (1, 1, -1): [(0, 1, 1), (1, 0, 1), (1, -1, 0)]}.items() for d in ds],
         "cube": [((1, 0, 0), (0, 1, 0)), ((1, 0, 0), (0, 0, 1)), ((0, 1, 0), (1, 0, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0)), ((0, 0, 1), (0, 1, 0))],
         "112": [((1, 1, 2), (1, 1, -1)), ((-1, 1, 2), (-1, 1, -1)), ((1, -1, 2), (1, -1, -1)), ((1, 1, -2), (1, 1, 1)), ((1, 2, 1), (1, -1, 1)), ((2, 1, 1), (-1, 1, 1))]}
HEX = {"basal": [((0, 0, 0, 1), (2, -1, -1, 0)), ((0, 0, 0, 1), (-1, 2, -1, 0)), ((0, 0, 0, 1), (-1, -1, 2, 0))],
       "prism": [((1, 0, -1, 0), (-1, 2, -1, 0)), ((0, -1, 1, 0), (2, -1, -1, 0)), ((-1, 1, 0, 0), (-1, -1, 2, 0))],
       "pyra": [((1, 0, -1, 1), (-1, 2, -1, 0)), ((0, 1, -1, 1), (2, -1, -1, 0)), ((-1, 1, 0, 1), (-1, -1, 2, 0)), ((-1, 0, 1, 1), (-1, 2, -1, 0)),
                ((1, 0, -1, 1), (-1, -1, 2, 3)), ((1, 0, -1, 1), (-2, 1, 1, 3)), ((1, 0, -1, -1), (2, -1, -1, 3))]}


class Phase:
    gas = False


def phase(g, scale, plastic=True, j2=None):
    """a crystal: deformation modes and elastic constants"""
    p = Phase()
    p.kind = g.pick(["CUB", "CUB", "ORT", "HEX", "TRI"])
    p.cdim = [1.0, 1.0, 1.0] if p.kind == "CUB" else [g.u(.8, 1.3) for k in range(3)] if p.kind == "ORT" else [1.0, 1.0, g.u(1.3, 1.9)]
    p.style = g.pick(["", "", "IC", "lower"])
    fam = HEX if p.kind in ("HEX", "TRI") else CUBIC
    p.modes = []
    nm = g.pick([1, 1, 2, 3])
    for k in range(nm):
        s = list(fam[g.pick(sorted(fam))])
        if p.kind == "ORT":
            s = list(CUBIC["cube"])
        if g.chance(1, 4):
            s = s[:g.i(1, len(s))]
        m = Phase()
        m.sys = s
        m.tau = scale * g.logreal(1e-3, 6e-3)
        m.taub = m.tau * (g.u(.6, 1.5) if g.chance(1, 2) else 1)
        m.n = g.pick([1, 2, 3, 5, 8, 10, 12]) if plastic else 1
        m.gamd0 = g.logreal(.2, 3.) if plastic else 1e-30
        m.tau1 = g.pick([0.0, m.tau * g.u(.1, 1)])
        m.thet1 = g.pick([0.0, m.tau * g.u(.1, 3)])
        m.thet0 = m.thet1 + (0 if g.chance(1, 5) else m.tau * g.u(1, 200))
        m.tw = 0.0
        p.modes.append(m)
    p.use = sorted(g.subset(range(nm), 3, 4)) or [nm - 1]
    p.h = [[1.0 if a == b and g.flip() else round(g.u(.2, 1.8), 3) for b in range(nm)] for a in range(nm)]
    p.hself = [round(g.u(.5, 1.5), 3) for a in range(nm)]
    p.iso = g.chance(1, 3)
    if p.iso:
        p.E, p.nu = scale * g.u(.5, 2), g.u(-.2, .45)
        mu, la = p.E / 2 / (1 + p.nu), p.E * p.nu / (1 + p.nu) / (1 - 2 * p.nu)
        c = np.diag([2 * mu] * 3 + [mu] * 3)
        c[:3, :3] += la
    else:
        t = g.pick(["cub", "ort", "any"])
        if t == "cub":
            a = scale * g.u(1, 2); b = a * g.u(.2, .7); d = (a - b) / 2 * g.u(.5, 3)
            c = np.diag([a - b] * 3 + [d] * 3); c[:3, :3] += b
        else:
            d = np.array([g.u(1, 2) for k in range(3)] + [g.u(.3, .9) for k in range(3)])
            c = np.diag(d)
            for i, j in itertools.combinations(range(6), 2):
                if t == "any" or j < 3:
                    c[i, j] = c[j, i] = g.u(-.25, .35) * min(d[i], d[j])
            c *= scale
    p.c = np.array([[float("%.10g" % v) for v in r] for r in c])
    return p


def crystal_files(p):
    name = {"": p.kind, "IC": p.kind + {"CUB": "IC", "ORT": "HORHOMBIC", "HEX": "AGONAL", "TRI": "GONAL"}[p.kind], "lower": p.kind.lower()}[p.style]
    s = "*Material\n%s    crysym\n %.17g %.17g %.17g   cdim\n%d   nmodesx\n%d   nmodes\n%s  mode(i)\n" % (name, *p.cdim, len(p.modes), len(p.use), " ".join(str(k + 1) for k in p.use))
    for k, m in enumerate(p.modes):
        s += "MODE%d slip\n %d %d %d %.17g %.17g 0   modex,nsmx,nrsx,gamd0x,twshx,isectwx\n" % (k + 1, k + 1, len(m.sys), m.n, m.gamd0, m.tw)
        s += " %.17g %.17g %.17g %.17g %.17g   tau0xf\n" % (m.tau, m.taub, m.tau1, m.thet0, m.thet1)
        s += " %.17g " % p.hself[k] + " ".join("%.17g" % v for v in p.h[k]) + "   hself\n"
        for n, b in m.sys:
            s += "  " + " ".join("%d" % v for v in n) + "    " + " ".join("%d" % v for v in b) + "\n"
    e = "%d  iso\n" % (1 if p.iso else 0)
    if p.iso:
        e += "%.17g %.17g\n" % (p.E, p.nu)
    else:
        e += "".join(" ".join("%.17g" % v for v in r) + "\n" for r in p.c)
    return s, e


def vectors(p, n, b):
    if p.kind in ("HEX", "TRI"):
        r = p.cdim[2] / p.cdim[0]
        sn = np.array([n[0], (n[0] + 2. * n[1]) / 3 ** .5, n[3] / r])
        sb = np.array([1.5 * b[0], (b[0] / 2. + b[1]) * 3 ** .5, b[3] * r])
    else:
        sn, sb = np.array(n) / np.array(p.cdim), np.array(b) * np.array(p.cdim)
    sn, sb = sn / np.linalg.norm(sn), sb / np.linalg.norm(sb)
    return np.where(abs(sn) < 1e-3, 0, sn), np.where(abs(sb) < 1e-3, 0, sb)


class Problem:
    thermo = None
    igamma, xc0 = 0, 1.0
    vtk = False
    h5 = None           # (unit of the angles, ranks of the two arrays of numbers)
    gas = ()

    def writ(self, steps=None, variant="EVPFFT"):
        np_ = variant == "LSNP-EVPFFT"   # the solver with a frame: without one, and with periodic conditions
        nph = len(self.phases)
        nsys = max([sum(len(p.modes[k].sys) for k in p.use) for p in self.phases if not p.gas] or [1])
        nmod = max([len(p.modes) for p in self.phases if not p.gas] or [1])
        files = {}
        s = "%d %d %d %d    NPHMX, NMODMX, NTWMMX, NSYSMX\n%d %d %d   grid\n%s%d   phases\n%.17g %.17g %.17g   delt\n* microstructure\ntexture.txt\n" % (nph, nmod, 1, nsys, *self.n, "0 0 0   frame\n" if np_ else "", nph, *self.delt)
        for k, p in enumerate(self.phases):
            s += "*phase\n%d   igas\n* files\n" % (1 if p.gas else 0)
            if p.gas:
                s += "dummy\ndummy\n"
            else:
                s += "plastic%d.txt\nelastic%d.txt\n" % (k, k)
                files["plastic%d.txt" % k], files["elastic%d.txt" % k] = crystal_files(p)
        I, S = self.iudot, self.iscau
        if np_:
            s += "* operator\n%d   igamma\n* scale\n%.17g   xc0\n" % (self.igamma, self.xc0)
        s += "*test conditions\n* boundary conditions\n"
        if np_:
            s += "0   ibc\n"
        s += "".join(" %d %d %d   iudot\n" % tuple(r) for r in I) + " |\n"
        s += "".join(" %.17g %.17g %.17g  udot\n" % tuple(r) for r in self.udot) + " |\n"
        s += " %d %d %d  iscau\n %d %d\n %d\n |\n" % (S[0], S[5], S[4], S[1], S[3], S[2])
        q = self.scauchy
        s += " %.17g %.17g %.17g\n %.17g %.17g\n %.17g\n* other\n" % (q[0][0], q[0][1], q[0][2], q[1][1], q[1][2], q[2][2])
        s += "%.17g   tdot\n%d  ictrl\n*run\n%d\n%.17g\n%d\n0\n0\n%d\n%d\n%d\n%d %d\n" % (self.step, self.ictrl, steps or self.steps, self.err, self.itmax, self.iupdate, self.iuphard, self.iwtex, self.iwfields, self.iwstep)
        if self.thermo is None:
            s += "0\ndummy\n"
        else:
            s += "1\nthermo.txt\n"
            files["thermo.txt"] = "".join(" ".join("%.17g" % v for v in r) + "   grain\n" for r in self.thermo)
        n1, n2, n3 = self.n
        if self.vtk:
            t = "# vtk DataFile Version 3.0\nlattice\nASCII\nDATASET STRUCTURED_POINTS\nDIMENSIONS %d %d %d\nPOINT_DATA %d\nSCALARS d float\nLOOKUP_TABLE default\n" % (n1, n2, n3, n1 * n2 * n3)
            t += "\n".join(" ".join("%d" % (self.ph[i, j, k] - 1) for i in range(n1)) for k in range(n3) for j in range(n2)) + "\n"
        else:
            t = "".join("%.17g %.17g %.17g %d %d %d %d %d\n" % (*self.ang[i, j, k], i + 1, j + 1, k + 1, self.gr[i, j, k], self.ph[i, j, k]) for k in range(n3) for j in range(n2) for i in range(n1))
        if self.h5:
            unit, ranks = self.h5
            v = np.ascontiguousarray(np.transpose(self.ang, (2, 1, 0, 3)))
            files["texture.txt/Data.Angles"] = (np.radians(v) if unit else v).astype("<f8").tobytes()
            files["texture.txt/Data.Angles.rank"] = "4"
            for n, a, r in (("Grains", self.gr, ranks[0]), ("Phases", self.ph, ranks[1])):
                files["texture.txt/" + n] = np.ascontiguousarray(np.transpose(a, (2, 1, 0))).astype("<i4").tobytes()
                files["texture.txt/" + n + ".rank"] = "%d" % r
        else:
            files["texture.txt"] = t
        files["in.txt"] = s
        return files

    @property
    def tdot(self):
        return self.step / vm(self.udot) if self.ictrl == 0 else self.step

    def copy(self, **kw):
        q = Problem()
        q.__dict__.update(self.__dict__)
        q.__dict__.update(kw)
        return q


def vm(t):
    d = (t + t.T) / 2
    d = d - np.trace(d) / 3 * np.eye(3)
    return float(np.sqrt(2 / 3. * (d * d).sum()))


def problem(g, size=4, maxvox=40, gas=True, plastic=True, steps=(1, 6), thermo=True, update=True, mixed=True, odd=False):
    p = Problem()
    p.n = [g.i(1, size) for k in range(3)]
    if g.chance(1, 6):
        p.n[g.i(0, 2)] = g.i(1, 8)
    if odd:
        p.n = [k - 1 + k % 2 for k in p.n]
    if np.prod(p.n) == 1:
        p.n[g.i(0, 2)] = 3 if odd else 2
    if np.prod(p.n) > maxvox:
        g.discard()
    p.delt = [1., 1., 1.] if g.flip() else [g.u(.5, 2) for k in range(3)]
    scale = g.pick([1., 1000., 2e5])
    p.scale = scale
    p.phases = [phase(g, scale, plastic) for k in range(g.pick([1, 1, 2, 3]))]
    if gas and g.chance(1, 5):
        q = Phase(); q.gas = True
        p.phases.insert(g.i(0, len(p.phases)), q)
    ng = g.pick([1, 2, 3, 6, 1000])
    gang = [[g.u(0, 360), g.u(5, 175), g.u(0, 360)] for k in range(min(ng, int(np.prod(p.n))))]
    if g.chance(1, 8):
        gang[0] = [0., 0., 0.]
    gph = [g.i(1, len(p.phases)) for k in gang]
    p.gr = np.zeros(p.n, int); p.ph = np.zeros(p.n, int); p.ang = np.zeros(list(p.n) + [3])
    perm = g.chance(1, 3)   # phases independent of the grains
    for q in np.ndindex(*p.n):
        k = g.i(0, len(gang) - 1)
        p.gr[q], p.ang[q] = k + 1, gang[k]
        p.ph[q] = g.i(1, len(p.phases)) if perm else gph[k]
    if g.chance(1, 8):
        p.vtk = True
        p.gr = p.ph.copy(); p.ang[:] = 0
    elif g.chance(1, 5):
        p.h5 = (g.i(0, 1), (g.pick([4, 3]), g.pick([4, 3])))
    solid = [q for q in np.ndindex(*p.n) if not p.phases[p.ph[q] - 1].gas]
    if 4 * len(solid) < 3 * np.prod(p.n):
        g.discard()
    # loading
    rate = g.logreal(.1, 10.)
    p.iudot = [[1] * 3 for k in range(3)]
    p.iscau = [0] * 6
    if mixed and g.chance(2, 3):
        d = g.pick([(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)][:1] + [(0, 1), (0, 2), (1, 2)])
        if g.chance(1, 10):
            d = (0, 1, 2)
        for k in d:
            p.iudot[k][k] = 0
            p.iscau[k] = 1
        for v in (3, 4, 5):
            if g.chance(1, 3):
                i, j = IJV[v]
                # the component known is the lower one: see known findings
                p.iudot[i][j] = 0
                p.iscau[v] = 1
    p.udot = np.array([[float("%.6g" % (rate * (g.u(-1, 1) if i == j or g.flip() else 0))) for j in range(3)] for i in range(3)])
    if g.chance(1, 3):
        p.udot = (p.udot + p.udot.T) / 2
    if vm(p.udot) < .05 * rate:
        p.udot = np.diag([-.5 * rate, -.5 * rate, rate])
    p.scauchy = np.zeros((3, 3))
    tau = min([m.tau for q in p.phases if not q.gas for k in q.use for m in [q.modes[k]]])
    for v in range(6):
        i, j = IJV[v]
        if p.iscau[v]:
            p.scauchy[i, j] = p.scauchy[j, i] = 0 if g.chance(2, 3) else tau * g.u(-.5, .5)
        elif g.chance(1, 3):
            p.scauchy[i, j] = p.scauchy[j, i] = tau * g.u(-1, 1)   # not used
    # one step is a part of the strain at yield
    p.ictrl = g.pick([-1, -1, 0])
    dstrain = tau / scale * g.u(.1, 1.2)
    p.step = float("%.6g" % (dstrain / rate if p.ictrl == -1 else dstrain))
    p.steps = g.i(*steps)
    p.err = g.pick([1e-3, 1e-5, 1e-6, 1e-7])
    p.itmax = g.pick([1, 5, 30, 50])
    p.iupdate = int(update and g.chance(1, 2))
    p.iuphard = int(g.chance(2, 3))
    p.iwtex, p.iwfields, p.iwstep = 1, 1, 1
    if thermo and g.chance(1, 10):
        p.thermo = [[g.u(-1, 1) * dstrain for k in range(6)] for q in range(int(p.gr.max()))]
    return p


# ------------------------------------------------------------------------------------------------------------ runner
def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


class Out:
    pass


def run(binary, p, g, sub="r", ranks=1, order=0, files=None, variant="EVPFFT", args=(), timeout=150):
    d = os.path.join(g.tmp, sub)
    os.makedirs(d, exist_ok=True)
    for f, t in (files or p.writ(variant=variant)).items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "wb") as h:
            h.write(t if isinstance(t, bytes) else t.encode())
    env = dict(os.environ, SHIM_RANKS=str(ranks), SHIM_ORDER=str(order))
    try:
        r = subprocess.run([binary, "-f", "in.txt"] + list(args) + (["-m", "2"] if p is not None and p.vtk else ["-m", "1", "-e", "/Data/Angles", "-g", "Grains", "-p", "/Phases", "-u", "%d" % p.h5[0]] if p is not None and p.h5 else []), cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=_limits)
        rc, out = r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode("latin1")
    o = Out()
    o.rc, o.out, o.dir = rc, out, d
    return o


def ok(g, o, what="the run"):
    g.require(o.rc == 0, what, "failed:", o.rc, o.out[-1500:])
    return o


def table(o, name):
    with open(os.path.join(o.dir, name)) as f:
        L = f.read().split("\n")
    return L[0].strip().split(","), np.array([[float(v) for v in l.split(",")] for l in L[1:] if l.strip()])


def fields(o, k, n):
    """the fields of output k over the whole grid (pieces of all ranks)"""
    fs = sorted(glob.glob(os.path.join(o.dir, "pvtu/MicroState_%05d/*.vtu" % k)))
    pieces = []
    for f in fs:
        b = open(f, "rb").read()
        cut = b.index(b"<AppendedData")
        start = b.index(b"_", cut) + 1
        h = b[:cut].decode("latin1")
        np_, nc = int(re.search(r'NumberOfPoints="(\d+)"', h).group(1)), int(re.search(r'NumberOfCells="(\d+)"', h).group(1))
        P = {"np": np_, "nc": nc, "file": f}
        for a in re.findall(r"<DataArray [^>]*>", h):
            at = dict(re.findall(r'(\w+)="([^"]*)"', a))
            off = start + int(at["offset"])
            ln, = struct.unpack("<Q", b[off:off + 8])
            ty = {"Float64": "<f8", "Int32": "<i4", "Int64": "<i8", "UInt8": "<u1", "UInt64": "<u8", "UInt32": "<u4", "Float32": "<f4"}[at["type"]]
            raw = b[off + 8: off + 8 + ln]
            if len(raw) != ln:
                raise AssertionError("the data of %s are cut" % at["Name"])
            v = np.frombuffer(raw, ty)
            nc_ = int(at.get("NumberOfComponents", 1))
            P[at["Name"]] = v.reshape(-1, nc_) if nc_ > 1 else v
        pieces.append(P)
    return pieces


# ------------------------------------------------------------------------------------------------------------- model
class Noise(Exception):
    """the outcome depends on the rounding"""


class Model:
    def __init__(s, p):
        s.p = p
        n = s.n = list(p.n)
        s.N = int(np.prod(n))
        nt = tuple(n)
        s.solid = np.array([not q.gas for q in p.phases])[p.ph - 1]
        # slip systems, padded with inactive ones
        P = len(p.phases)
        sys_ = []
        for q in p.phases:
            S = []
            if not q.gas:
                for k in q.use:
                    m = q.modes[k]
                    for nn, b in m.sys:
                        S.append((vectors(q, nn, b), m, k))
            sys_.append(S)
        M = s.M = max(1, max(len(S) for S in sys_))
        dn, db = np.zeros((P, M, 3)), np.zeros((P, M, 3))
        par = {k: np.ones((P, M)) for k in ("tau", "taub", "tau1", "t0", "t1", "n")}
        par["g0"] = np.zeros((P, M))
        hard = np.zeros((P, M, M))
        for a, S in enumerate(sys_):
            q = p.phases[a]
            for i, ((sn, sb), m, k) in enumerate(S):
                dn[a, i], db[a, i] = sn, sb
                t1, h0 = (m.tau1, m.thet0) if m.tau1 > 1e-6 else (1e-6, m.thet1)
                for nm, v in (("tau", m.tau), ("taub", m.taub), ("tau1", t1), ("t0", h0), ("t1", m.thet1), ("n", m.n), ("g0", m.gamd0)):
                    par[nm][a, i] = v
                for j, (_, mj, kj) in enumerate(S):
                    hard[a, i, j] = q.h[k][kj] if i != j else q.hself[k]
        s.act = np.array([[i < len(S) for i in range(M)] for S in sys_])[p.ph - 1]
        s.dn, s.db = dn[p.ph - 1], db[p.ph - 1]
        s.par = {k: v[p.ph - 1] for k, v in par.items()}
        s.hard = hard[p.ph - 1]
        s.crss = np.stack([s.par["tau"], s.par["taub"]], -1)
        s.gacc = np.zeros(nt)
        ag = np.zeros(nt + (3, 3))
        C = np.zeros(nt + (3, 3, 3, 3))
        cc = [np.zeros((3, 3, 3, 3)) if q.gas else voigt4(q.c) for q in p.phases]
        for q in np.ndindex(*nt):
            if s.solid[q]:
                a = euler(*np.radians(p.ang[q]))
                ag[q] = a.T
                C[q] = np.einsum("ai,bj,ck,dl,abcd->ijkl", a, a, a, a, cc[p.ph[q] - 1])
        s.ag = ag
        s.cg66 = to66(C)
        s.C = C
        s.sg66 = np.zeros_like(s.cg66)
        s.sg66[s.solid] = np.linalg.inv(s.cg66[s.solid])
        s.c066 = s.cg66.mean((0, 1, 2))
        s.c0, s.s0 = from66(s.c066), from66(np.linalg.inv(s.c066))
        s.wph1 = (p.ph == 1).mean()
        s.dvm = vm(p.udot)
        s.dt = p.tdot
        s.evm = s.dvm * s.dt
        s.delt = np.array(p.delt, float)
        s.dis = np.zeros(nt + (3, 3))
        s.macro_t = np.zeros((3, 3))
        s.macro = p.udot * s.dt
        s.ept = np.zeros(nt + (3, 3))
        if p.thermo is not None:
            for q in np.ndindex(*nt):
                e = p.thermo[p.gr[q] - 1]
                s.ept[q] = [[e[0], e[5], e[4]], [e[5], e[1], e[3]], [e[4], e[3], e[2]]]
        s.edotp = np.zeros(nt + (3, 3))
        s.gamdot = np.zeros(nt + (M,))
        s.xkin = np.zeros(nt + (M,))
        s.sg = np.einsum("...ijkl,kl->...ij", C, s.macro)
        s.green()
        s.k = 0
        s.idsim = [p.iudot[a][a] for a in range(3)] + [p.iudot[i][j] * p.iudot[j][i] for i, j in IJV[3:]]

    def green(s):
        n = s.n
        f = [np.fft.fftfreq(n[a]) * n[a] for a in range(3)]
        f = [np.where(2 * v == -n[a], -v, v) / (s.delt[a] * n[a]) for a, v in enumerate(f)]
        X = np.stack(np.meshgrid(*f, indexing="ij"), -1)
        nrm = np.linalg.norm(X, axis=-1)
        X = X / np.where(nrm > 0, nrm, 1)[..., None]
        A = np.einsum("ijkl,...j,...l->...ik", s.c0, X, X)
        A[0, 0, 0] = np.eye(3)
        G = -np.einsum("...pi,...q,...j->...pqij", np.linalg.inv(A), X, X)
        for a in range(3):
            if n[a] % 2 == 0:
                ix = [slice(None)] * 3
                ix[a] = n[a] // 2
                G[tuple(ix)] = -s.s0
        G[0, 0, 0] = 0
        s.G = G

    def schmid(s):
        t = np.einsum("...i,...j->...ij", s.dn, s.db)
        t = (t + np.swapaxes(t, -1, -2)) / 2
        t = np.einsum("...ia,...jb,...sab->...sij", s.ag, s.ag, t)
        s.sch = to6(t)[..., :5]

    def local(s, thermo1):
        """the stress of every voxel: augmented Lagrangian, Newton's method"""
        ix = s.solid
        c0, dt = s.c066, s.dt
        lam, sg = to6(s.sg[ix]), to6(s.sg[ix])
        st = to6((s.dis + np.swapaxes(s.dis, -1, -2))[ix] / 2)
        ept = to6(s.ept[ix])
        S = s.sg66[ix]
        sch, crss, par = s.sch[ix], s.crss[ix], {k: v[ix] for k, v in s.par.items()}
        xk = s.xkin[ix]
        act = s.act[ix]
        nrm = np.sqrt((s.sg[ix] ** 2).sum((-1, -2)))
        n = len(lam)
        todo = np.ones(n, bool)
        its = np.zeros(n, int)
        ed, eq, gam = np.zeros((n, 6)), np.zeros((n, 6)), np.array(s.gamdot[ix])
        d1 = np.zeros(n)
        while todo.any() and its.max() < 100:
            t = todo
            its[t] += 1
            old = sg[t].copy()
            D = np.zeros((t.sum(), 6, 6))
            e = np.zeros((t.sum(), 6))
            if not thermo1:
                r = np.einsum("...sn,...n->...s", sch[t], sg[t][:, :5]) - xk[t]
                cr = np.where(r < 0, crss[t][..., 1], crss[t][..., 0])
                r = np.where(act[t], r / cr, 0)
                m = par["n"][t]
                r1 = par["g0"][t] * m * abs(r) ** (m - 1) / cr
                r2 = par["g0"][t] * abs(r) ** m * np.copysign(1, r)
                gam[t] = r2
                e[:, :5] = np.einsum("...sn,...s->...n", sch[t], r2)
                D[:, :5, :5] = np.einsum("...sn,...sm,...s->...nm", sch[t], sch[t], r1)
            q = ept[t] + e * dt + np.einsum("...nm,...m->...n", S[t], sg[t])
            res = sg[t] - lam[t] + (q - st[t]) @ c0.T
            J = np.eye(6) + np.einsum("nk,...km->...nm", c0, S[t] + D * dt)
            if not (np.isfinite(J).all() and np.isfinite(res).all()):
                raise Noise("overflow")
            sg[t] = sg[t] - np.linalg.solve(J, res[..., None])[..., 0]
            ed[t], eq[t] = e, q
            d1[t] = ((sg[t] - old) ** 2).sum(-1)
            err = d1 / np.where(nrm > 0, nrm, 1e-300)
            if (abs(err[t] / 1e-7 - 1) < 1e-6).any():
                raise Noise("convergence of the stress of a voxel")
            todo = todo & ~(err <= 1e-7)
        if todo.any():
            raise Noise("stress of a voxel does not converge")
        s.maxits = max(s.maxits, its.max())
        s.sg = np.zeros_like(s.sg)
        s.sg[ix] = from6(sg)
        s.edotp[ix] = from6(ed)
        s.gamdot[ix] = gam
        w = 1. / s.N
        return ((sg - lam) ** 2).sum() * w, ((eq - st) ** 2).sum() * w, its.sum() * w

    def smacro(s):
        p = s.p
        s.sav = s.sg.mean((0, 1, 2))
        one = (p.ph == 1)
        s.sav1 = s.sg[one].sum(0) / s.N / s.wph1 if one.any() else np.zeros((3, 3))
        dd = np.zeros((3, 3))
        for v, (i, j) in enumerate(IJV):
            if not s.idsim[v]:
                dd[i, j] = sum(s.s0[i, j, k, l] * p.iscau[u] * (p.scauchy[k, l] - s.sav[k, l]) for u, (k, l) in enumerate(IJV))
        s.dd = dd
        s.acc = s.acc + dd

        def dev(t):
            x = to6(t)[:5]
            return np.sqrt(1.5 * (x * x).sum())
        s.svm, s.svm1 = dev(s.sav), dev(s.sav1)

    def step(s):
        p, dt = s.p, s.dt
        s.k += 1
        th = p.thermo is not None
        old = s.dis.copy()
        s.dis = s.dis + p.udot * dt
        if s.k == 1 or p.iupdate:
            s.schmid()
        s.dd, s.acc = np.zeros((3, 3)), np.zeros((3, 3))
        s.maxits = 0
        s.hist = []
        es = ee = 2 * p.err
        it = 0
        while it < p.itmax and (es > p.err or ee > p.err):
            it += 1
            F = np.fft.fftn(s.sg, axes=(0, 1, 2))
            F = np.einsum("...ijkl,...kl->...ij", s.G, F)
            # the transform back is one of a real field
            s.dis = s.dis + s.dd + c2r(F, s.n)
            es, ee, avg = s.local(th and s.k == 1)
            s.smacro()
            if s.evm > 0:
                ee /= s.evm
            if s.svm > 0:
                es /= s.svm
            s.hist.append((ee, es, s.svm, avg))
            for e in (es, ee):
                if abs(e - p.err) < 1e-6 * p.err:
                    raise Noise("convergence")
            if not np.isfinite(es + ee) or es > 1e6:
                raise Noise("divergence")
        s.iters = it
        if th and s.k == 1:
            sc = np.einsum("...sn,...n->...s", s.sch, to6(s.sg)[..., :5])
            s.xkin = np.where(s.act, sc, 0)
        s.vel = (s.dis - old) / dt
        s.actual = s.macro + s.acc
        s.velmacro = (s.actual - s.macro_t) / dt
        s.evm, s.dvm = vm(s.actual), vm(s.velmacro)
        s.macro_t = s.actual
        s.macro = s.macro_t + p.udot * dt
        s.ept = s.ept + s.edotp * dt
        s.epav, s.edav = s.ept.mean((0, 1, 2)), s.edotp.mean((0, 1, 2))
        s.evmp, s.dvmp = np.sqrt(2 / 3. * (s.epav ** 2).sum()), np.sqrt(2 / 3. * (s.edav ** 2).sum())
        if p.iupdate and (not th or s.k > 1):
            s.orient()
            d = (p.udot + p.udot.T) / 2
            s.delt = s.delt * (1 + np.diag(d) * dt * np.array([1, 1, p.n[2] > 1]))
        if p.iuphard and (not th or s.k > 2):
            s.harden()

    def orient(s):
        dt = s.dt
        om = (s.p.udot - s.p.udot.T) / 2
        rl = (s.vel - np.swapaxes(s.vel, -1, -2)) / 2
        n = np.einsum("...ij,...sj->...si", s.ag, s.dn)
        b = np.einsum("...ij,...sj->...si", s.ag, s.db)
        ds = np.einsum("...si,...sj,...s->...ij", b, n, s.gamdot)
        rs = (ds - np.swapaxes(ds, -1, -2)) / 2
        w = (om + rl - rs) * dt
        v = np.stack([w[..., 2, 1], w[..., 0, 2], w[..., 1, 0]], -1)
        a = np.linalg.norm(v, axis=-1)
        if (abs(a / 1e-6 - 1) < 1e-6)[s.solid].any():
            raise Noise("rotation")
        t = np.tan(a / 2) / np.where(a > 1e-6, a, 1)
        v = v * t[..., None]
        q = (v * v).sum(-1)
        T = np.zeros(v.shape[:-1] + (3, 3))
        T[..., 2, 1], T[..., 0, 2], T[..., 1, 0] = v[..., 0], v[..., 1], v[..., 2]
        T[..., 1, 2], T[..., 2, 0], T[..., 0, 1] = -v[..., 0], -v[..., 1], -v[..., 2]
        R = np.eye(3) + 2 * (T + T @ T) / (1 + q)[..., None, None]
        s.ag = np.where(s.solid[..., None, None], R @ s.ag, s.ag)

    def harden(s):
        dt = s.dt
        g = abs(s.gamdot) * s.act * dt
        dg = g.sum(-1)
        dtau = np.einsum("...ij,...j->...i", s.hard, g)
        q = s.par
        G, D = s.gacc[..., None], dg[..., None]
        f = abs(q["t0"] / q["tau1"])
        ok = abs(q["tau1"]) > 1e-4 * q["tau"]
        f = np.where(f > 0, f, 1)
        ei, edl = np.exp(-G * f), np.exp(-D * f)
        voce = -(f * q["tau1"] - q["t1"]) / f * ei * (edl - 1) - q["t1"] / f * ei * (edl * ((G + D) * f + 1) - (G * f + 1))
        voce = q["t1"] * D + np.where(ok, voce, 0)
        voce = np.where(abs(q["t0"]) > 1e-4 * q["tau"], voce, 0)
        inc = np.where(D > 0, dtau * voce / np.where(D > 0, D, 1), 0) * s.act
        s.crss = s.crss + inc[..., None] * s.solid[..., None, None]
        s.gacc = s.gacc + dg * s.solid


def c2r(F, n):
    """real transform back from the non-redundant half (first index), like a complex-to-real transform"""
    h = F[:n[0] // 2 + 1]
    h = np.moveaxis(h, 0, 2)           # the last axis transformed is the halved one
    r = np.fft.irfftn(h, s=(n[1], n[2], n[0]), axes=(0, 1, 2))
    return np.moveaxis(r, 2, 0)
