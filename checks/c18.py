import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run
from fz import PyCheck
import numpy as np, fierro as F, problems as P, heat as H

TOL = 1e-12


def compare(g, a, b, what):
    """all fields of all outputs, relative to the largest value of each field"""
    g.require(b.finished, what, "did not finish: exit status", b.rc, b.out[-1500:])
    sa, sb = a.solvers(), b.solvers()
    g.require(sa == sb, what, "wrote output of other solvers", sb, sa)
    for sid in sa:
        g.require(a.times(sid) == b.times(sid), what, "wrote outputs at other times")
        for k in range(a.nsnaps(sid)):
            u, v = a.snap(k, sid), b.snap(k, sid)
            g.require(sorted(u.mats) == sorted(v.mats), what, "wrote other materials at output", k)
            for nm, x, y in [("mesh", u.f, v.f)] + [("material %d" % m, u.mats[m], v.mats[m]) for m in u.mats]:
                g.require(sorted(x) == sorted(y), what, "wrote other fields at output", k)
                for f in x:
                    if isinstance(x[f], int):
                        g.require(x[f] == y[f], what, "wrote another number of", nm, "items at output", k)
                        continue
                    g.require(x[f].shape == y[f].shape, what, ":", nm, f, "has another size at output", k)
                    if not x[f].size:
                        continue
                    with np.errstate(invalid="ignore"):
                        d = np.where((x[f] == y[f]) | (np.isnan(x[f]) & np.isnan(y[f])), 0.0, np.abs(x[f] - y[f]))
                    tol = TOL * np.nanmax(np.abs(x[f])) if np.isfinite(x[f]).any() else 0.0
                    if f == "stress" or f == "mat_stress":
                        tol += 1e-300
                    if not (d <= tol).all():
                        w = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
                        g.fail(what, "changes", nm, f, "at output", k, "place", tuple(int(q) for q in w), ":", x[f][w], "becomes", y[f][w])
    g.require(sorted(a.state_names()) == sorted(b.state_names()), what, "wrote other state files")


def main():
    c = PyCheck("C18", "random decks of every solver, each run in sequential order and again with reversed, permuted and concurrent loop iterations, with separate host and device copies of all data, and under the thread, address and undefined-behaviour sanitizers; all outputs are compared field by field; non-trivial: the run takes steps and something changes")
    B = F.build(c)
    SP = F.build(c, "FierroSplit", defs=("-DSHIM_SPLIT",))
    TS = F.build(c, "FierroTsan", flags=("-O1", "-g", "-fsanitize=thread"))
    AS = F.build(c, "FierroAsan", flags=("-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))
    tsenv = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_bugs=1", "SHIM_THREADS": "4"}

    def part(make):
        def f(g):
            p = make(g)
            g.note(F.emit(p.deck))
            a = F.ok(g, F.run(B, p.deck, g, files=p.files))
            modes = [("a reversed order of loop iterations", B, {"SHIM_ORDER": "1"}), ("a permuted order of loop iterations", B, {"SHIM_ORDER": str(g.i(2, 1000))}),
                     ("separate host and device copies", SP, {}), ("a concurrent run under the thread sanitizer", TS, tsenv)]
            if g.chance(1, 4):
                modes.append(("a run under the address and undefined-behaviour sanitizers", AS, {"ASAN_OPTIONS": "detect_leaks=0"}))
            if g.chance(1, 4):
                modes.append(("a concurrent run", B, {"SHIM_THREADS": str(g.i(2, 5))}))
            for what, b, env in modes:
                r = F.run(b, p.deck, g, env, files=p.files)
                if "WARNING: ThreadSanitizer" in r.out:
                    g.fail("data race", r.out[r.out.index("WARNING: ThreadSanitizer"):][:2500])
                compare(g, a, r, what)
                g.label(what.split(" ")[1])
            sid = a.solvers()[-1]
            u, v = a.snap(0, sid), a.snap(-1, sid)
            g.nontrivial(a.nsnaps(sid) > 1 and any(not np.array_equal(u.f[f], v.f[f]) for f in u.f if not isinstance(u.f[f], int) and u.f[f].shape == v.f[f].shape))
        return f

    def small(p, g):
        p.deck["output_options"]["graphics_iteration_step"] = g.pick([1, 2, 5])
        return p

    c.explore("gas", part(lambda g: small(P.gas_problem(g, maxelem=24, steps=g.i(2, 6)), g)), 300, 4000, budget=150)
    c.explore("gas-rz", part(lambda g: small(P.rz_problem(g, steps=g.i(2, 6)), g)), 300, 4000, budget=150)
    c.explore("heat", part(lambda g: small(H.heat_problem(g, maxelem=24, steps=g.i(2, 6)), g)), 150, 3000, budget=80)
    c.finish()

if __name__ == "__main__":
    run(main)
