import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
from vf import run
from fz import PyCheck
import xml.etree.ElementTree as ET

APPS = ["EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT"]
LONG = {"f": "infile", "m": "micro-filetype", "e": "euler-angles", "g": "feature-ids", "p": "phase-ids", "u": "euler-unit", "h": "help"}


def prefixes(name):
    """every way to shorten a long option that stays clear"""
    out = [name]
    for k in range(1, len(name)):
        if sum(n.startswith(name[:k]) for n in LONG.values()) == 1:
            out.append(name[:k])
    return out


def main():
    c = PyCheck("C28", "random command lines of the four micromechanics programs (short, joined, clustered, long, shortened options, repeated options, other words, every combination of required options, mistakes) against a model of what they mean; random grids and attributes written as XDMF and read back with an XML parser; non-trivial: at least three options, or at least one attribute")
    exe = {}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for a in APPS:
        src = os.path.join(vf.REPO, "apps/micromechanics", a, "src")
        exe[a] = os.path.join(c.tmp, "cmd_" + a)
        c.sh(["g++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + src, os.path.join(here, "harness/cmdline.cpp"),
              src + "/command_line_args.cpp", src + "/XdmfUniformGridWriter.cpp", "-o", exe[a]])

    def call(a, args):
        e = {k: v for k, v in os.environ.items() if k != "POSIXLY_CORRECT"}
        r = subprocess.run([exe[a]] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
        return r.returncode, r.stdout, r.stderr.decode(errors="replace")

    def word(g):
        return g.pick(["a", "fft.in", "./x y.in", "/a/b/c.txt", "=", "a=b", "-", "-f", "--help", "é", "1", "x" * 300, "--", "%s%n", "f.in", "DataContainers/Euler Angles"])

    def line(g):
        a = g.pick(APPS)
        g.label(a)
        args, want, bad, seen = [], {"f": "", "e": "", "g": "", "p": "", "m": 0, "u": -1}, None, 0
        need = g.pick([0, 1, 2])
        plan = []
        if need:
            plan = list("f") if need == 1 else list("feugpm")
        for _ in range(g.i(0, 4)):
            plan.insert(g.i(0, len(plan)), g.pick(list("fmegpu") + ["word"]))
        if g.chance(1, 8) and plan:
            plan.insert(g.i(0, len(plan)), g.pick(["h", "bad", "ambiguous", "flagvalue"]))
        if g.chance(1, 6) and plan:
            del plan[g.i(0, len(plan) - 1)]
        end = False
        for n, o in enumerate(plan):
            last = n == len(plan) - 1
            if end or o == "word":
                w = g.pick(["word", "", "x.in", "-", "1", "infile"])
                args.append(w)
                continue
            if o == "h":
                args.append(g.pick(["-h"] + ["--" + q for q in prefixes("help")]))
                bad = bad or "help"
                continue
            if o == "bad":
                args.append(g.pick(["-x", "--inputfile", "--no-such", "-z9", "--help=1", "--Infile=a", "-1"]))
                bad = bad or "unknown option"
                continue
            if o == "ambiguous":
                args.append(g.pick(["--e", "--euler", "--euler-=1"]))
                bad = bad or "ambiguous"
                continue
            if o == "flagvalue":
                # the value of the cluster's last option
                args.append("-h" + g.pick(["f", "m"]) + "x")
                bad = bad or "help"
                continue
            v = g.pick(["0", "1", "2", "1", "1", "-1", "01", "+1", "7"]) if o in "mu" else word(g)
            form = g.draw(4)
            if form == 0:
                args += ["-" + o, v]
            elif form == 1 and v:
                args.append("-" + o + v)
            elif form == 2:
                args.append("--" + g.pick(prefixes(LONG[o])) + "=" + v)
            elif form == 3:
                args += ["--" + g.pick(prefixes(LONG[o])), v]
            else:
                args += ["-" + o, v]
            if last and form in (0, 3, 4) and g.chance(1, 8):
                args.pop()
                bad = bad or "no value"
                continue
            seen += 1
            want[o] = int(v) if o in "mu" else v
            if g.chance(1, 30):
                args.append("--")
                end = True
        if bad is None:
            if want["f"] == "":
                bad = "no input file"
            elif want["m"] == 1 and ("" in (want["e"], want["g"], want["p"]) or want["u"] == -1):
                bad = "incomplete HDF5 description"
        g.note(a, args)
        g.label(bad or "accepted")
        rc, out, err = call(a, args)
        g.require("Sanitizer" not in err and "runtime error" not in err, "memory error", err[:800])
        if bad:
            g.require(rc == 1, "exit status", rc, "although the command line has to be refused:", bad)
            t = out.decode(errors="replace")
            for o, n in LONG.items():
                g.require("-%s, --%s" % (o, n) in t, "the help does not tell of", n)
        else:
            g.require(rc == 0, "exit status", rc, "on a correct command line; output", out[:200])
            got = dict((l.split(" ", 1) + [""])[:2] for l in out.decode().splitlines())
            for o in "fegp":
                g.require(bytes.fromhex(got[o]) == want[o].encode(), "option", LONG[o], "is", bytes.fromhex(got[o]), "instead of", want[o])
            for o in "mu":
                g.require(int(got[o]) == want[o], "option", LONG[o], "is", got[o], "instead of", want[o])
        g.nontrivial(seen >= 3)

    def xdmf(g):
        a = g.pick(APPS)
        n = [g.pick([1, 2, 8, g.i(1, 300), g.i(1, 100000)]) for _ in range(3)]
        grid = g.pick(["Grid", "mesh 1", "EVPFFT", "é"])
        at = []
        for _ in range(g.i(0, 5)):
            t = g.pick(["int", "float", "double", "Int", "UInt"])
            at.append([g.pick(["grain", "stress 11", "vm", "Ü", "a" * 200]), g.pick(["Scalar", "Vector", "Tensor"]), t, g.pick(["4", "8", "2"]), g.pick(["a.h5:/TimeStep_%d/stress" % g.i(0, 99), "micro.h5:/x"])])
        p = os.path.join(g.tmp, "o%d.xdmf" % os.getpid())
        if os.path.exists(p):
            os.remove(p)
        args = ["--xdmf", p] + [str(v) for v in n] + [grid] + [v for q in at for v in q]
        g.note(a, args)
        g.label(a)
        rc, out, err = call(a, args)
        g.require(rc == 0 and not err, "the writer ended with", rc, err[:800])
        root = ET.fromstring(open(p, "rb").read().split(b"]>\n", 1)[1])
        g.require(root.tag == "Xdmf" and root.get("Version") == "2.2", "not an XDMF file")
        gr = root.findall("./Domain/Grid")
        g.require(len(gr) == 1 and gr[0].get("Name") == grid and gr[0].get("GridType") == "Uniform", "the grid is wrong")
        gr = gr[0]
        top = gr.findall("Topology")
        g.require(len(top) == 1 and top[0].get("TopologyType") == "3DCoRectMesh" and [int(v) for v in top[0].get("Dimensions").split()] == [v + 1 for v in n], "the topology is wrong")
        geo = gr.findall("Geometry")
        g.require(len(geo) == 1 and geo[0].get("Type") == "ORIGIN_DXDYDZ", "the geometry is wrong")
        it = geo[0].findall("DataItem")
        g.require([[int(v) for v in q.text.split()] for q in it] == [[0, 0, 0], [1, 1, 1]] and all(q.get("Dimensions") == "3" for q in it), "origin and spacing are wrong")
        got = gr.findall("Attribute")
        g.require(len(got) == len(at), "the file has", len(got), "attributes instead of", len(at))
        for q, w in zip(got, at):
            t, pr = {"int": ("Int", "4"), "float": ("Float", "4"), "double": ("Float", "8")}.get(w[2], (w[2], w[3]))
            d = q.findall("DataItem")
            g.require(q.get("Name") == w[0] and q.get("AttributeType") == w[1] and q.get("Center") == "Cell" and len(d) == 1, "attribute", w[0], "is wrong")
            d = d[0]
            g.require(d.get("Format") == "HDF" and d.get("NumberType") == t and d.get("Precision") == pr and [int(v) for v in d.get("Dimensions").split()] == n and d.text.strip() == w[4],
                      "the data of attribute", w[0], "are wrong:", ET.tostring(d))
        g.nontrivial(len(at) > 0)

    c.explore("command-line", line, 12000, 200000)
    c.explore("xdmf", xdmf, 3000, 40000)
    c.finish()

if __name__ == "__main__":
    run(main)
