import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run, known_findings
from fz import PyCheck
import copy, glob
import fierro as F, problems as P, heat, levelset

LETTERS = "abcdefghijklmnopqrstuvwxyz_"
# keys whose values are one of a list of words
WORDS = ("method", "source", "type", "output_file_format", "timer_output_level", "velocity_model", "temperature_model", "stress_model",
         "eos_model_type", "eos_model", "strength_model_type", "strength_model", "dissipation_model", "erosion_model", "level_set_type", "mat_equilibration_model", "geo_equilibration_model")
LISTS = ("elem_field_outputs", "node_field_outputs", "gauss_pt_field_outputs", "mat_pt_field_outputs")
NUMBERS_SKIP = ("file_path",)


def mappings(o, path=()):
    """every mapping of the deck with the path to it"""
    yield path, o
    for k, v in o.items():
        if isinstance(v, dict):
            yield from mappings(v, path + (k,))
        elif isinstance(v, (list, tuple)):
            for i, q in enumerate(v):
                if isinstance(q, dict):
                    (kk, vv), = q.items()
                    yield from mappings(vv, path + (k, i, kk))


def misspelt(g, w, known):
    """a word close to w"""
    k = g.weighted([3, 3, 2, 2, 1])
    i = g.i(0, len(w) - 1)
    if k == 0:
        r = w[:i] + w[i + 1:]
    elif k == 1:
        r = w[:i] + g.pick(LETTERS) + w[i:]
    elif k == 2:
        r = w[:i] + g.pick(LETTERS) + w[i + 1:]
    elif k == 3:
        r = w.upper() if w != w.upper() else w.lower()
    else:
        r = g.pick(["nonsense", w + "s", w + "_2"])
    return r if r and r != w and r not in known and not r.startswith("_") else "nonsense"


def problem(g):
    k = g.weighted([4, 3, 2, 2])
    p = (P.gas_problem, P.rz_problem, heat.heat_problem, levelset.lvl_problem)[k](g)
    p.kind = ("gas", "rz", "heat", "levelset")[k]
    g.label(p.kind)
    if p.kind == "gas" and g.chance(1, 3):
        mm = p.deck["multimaterial_options"] = {}
        for w in g.pick([("mat",), ("geo",), ("mat", "geo")]):
            mm[w + "_equilibration_model"] = "tipton"
            mm[w + "_equilibration_global_vars"] = [0.01, 0.25]
    return p


def written(r):
    return [q for q in glob.glob(os.path.join(r.d, "**"), recursive=True) if q.endswith((".vtu", ".vtm", ".pvd")) and "/vtk/" in q or "/state/" in q and q.endswith(".txt")]


def main():
    c = PyCheck("C08", "random decks of all solvers with one fault put in at a random place; non-trivial: every deck with a fault; decks without one are taken")
    B = F.build(c)

    def refuse(g, p, deck, what):
        g.note("--- " + what)
        g.note(F.emit(deck))
        r = F.run(B, deck, g, files=p.files)
        g.require(r.rc not in (-24, -9), "the program hangs on a deck with", what)
        g.require(r.rc != 0, "the program ends as if all was well for a deck with", what)
        g.require(not written(r), "the program writes results for a deck with", what)
        g.require("SHIM-BOUNDS" not in r.out and r.rc != -11, "the program reads or writes outside of its arrays for a deck with", what, "\n" + r.out[-300:])
        g.nontrivial()
        return r

    def key(g):
        p = problem(g)
        ms = list(mappings(p.deck))
        path, m = g.pick(ms)
        d = copy.deepcopy(p.deck)
        t = d
        for q in path:
            t = t[q]
        k = g.pick(list(t))
        new = misspelt(g, k, VALID)
        at = ".".join(str(q) for q in path) or "top level"
        if g.flip() or not path:
            items = list(t.items()); pos = g.i(0, len(items))
            items.insert(pos, (new, 1))
            what = "the unknown entry %s in %s" % (new, at)
        else:
            items = [(new if a == k else a, b) for a, b in t.items()]
            what = "%s misspelt as %s in %s" % (k, new, at)
        t.clear(); t.update(items)
        g.label("in " + ".".join(str(q) for q in path if not isinstance(q, int)))
        refuse(g, p, d, what)

    def word(g):
        p = problem(g)
        d = copy.deepcopy(p.deck)
        places = [(path, k) for path, m in mappings(d) for k in m if k in WORDS or k in LISTS]
        path, k = g.pick(places)
        t = d
        for q in path:
            t = t[q]
        if k in LISTS:
            l = list(t[k]); i = g.i(0, len(l) - 1); old = l[i]; l[i] = misspelt(g, old, VALID); t[k] = l
            new = l[i]
        else:
            old = str(t[k]); t[k] = new = misspelt(g, old, VALID)
        g.label(k + (" of " + str(path[-1]) if k == "type" else ""))
        refuse(g, p, d, "%s: %s instead of %s in %s" % (k, new, old, ".".join(str(q) for q in path)))

    def required(g):
        p = problem(g)
        d = copy.deepcopy(p.deck)
        places = [(path, k) for path, m in mappings(d) for k in m if (path and path[-1], k) in REQUIRED]
        path, k = g.pick(places)
        t = d
        for q in path:
            t = t[q]
        del t[k]
        g.label(str(path and path[-1]) + "." + k)
        refuse(g, p, d, "%s left out of %s" % (k, ".".join(str(q) for q in path)))

    listed = any(q == "C08" and k == "no-number" for q, k, t in known_findings())

    def number(g):
        p = problem(g)
        d = copy.deepcopy(p.deck)
        d["dynamic_options"]["cycle_stop"] = 0      # nothing is to be computed
        num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
        places = [(path, k) for path, m in mappings(d) for k in m if num(m[k]) or isinstance(m[k], (list, tuple)) and m[k] and num(m[k][0])]
        path, k = g.pick(places)
        t = d
        for q in path:
            t = t[q]
        bad = g.pick(["nonsense", "abc", "x1", "none", "one"])
        vector = isinstance(t[k], tuple)
        if isinstance(t[k], (list, tuple)):
            l = list(t[k]); l[g.i(0, len(l) - 1)] = bad; t[k] = type(t[k])(l)
        else:
            t[k] = bad
        g.label("%s.%s" % (path[-1] if path else "", k))
        what = "%s: %s in %s" % (k, bad, ".".join(str(q) for q in path))
        if vector or not listed:
            refuse(g, p, d, what)
        else:
            # recorded: text that is no number counts as zero
            r = F.run(B, d, g, files=p.files)
            g.require(r.rc != -24, "the program hangs on a deck with", what)
            if r.rc == 0:
                g.label("taken as zero")
            g.nontrivial()

    def sound(g):
        """the decks without a fault are taken"""
        p = problem(g)
        p.deck["dynamic_options"]["cycle_stop"] = 0
        g.note(F.emit(p.deck))
        r = F.run(B, p.deck, g, files=p.files)
        g.require(r.rc == 0, "a deck without fault is refused:", r.out[-500:])
        g.nontrivial()

    c.explore("sound", sound, 80, 500)
    c.explore("number", number, 200, 2000)
    if any(q.get("labels", {}).get("taken as zero") for q in c.parts):
        c.known("no-number")
    def contradiction(g):
        p = problem(g)
        d = copy.deepcopy(p.deck)
        nm, ns = len(d["materials"]), len(d["solver_options"])
        two = d["mesh_options"]["num_dims"] == 2
        out = lambda n: g.pick([n, n + 1, -1, n + 100])
        mat = lambda: g.pick(d["materials"])["material"]

        def region_mat():
            g.pick(d["regions"])["region"]["material_id"] = v = out(nm)
            return "material %d of a region" % v

        def region_solver():
            g.pick(d["regions"])["region"]["solver_id"] = v = out(ns)
            return "solver %d of a region" % v

        def bc_solver():
            g.pick(d["boundary_conditions"])["boundary_condition"]["solver_id"] = v = out(ns)
            return "solver %d of a boundary condition" % v

        def mat_id():
            mat()["id"] = v = out(nm)
            return "id %d of a material" % v

        def mat_twice():
            d["materials"].append(copy.deepcopy(g.pick(d["materials"])))
            return "a material given twice"

        def solver_id():
            g.pick(d["solver_options"])["solver"]["id"] = v = out(ns)
            return "id %d of a solver" % v

        def solver_twice():
            d["solver_options"].append(copy.deepcopy(g.pick(d["solver_options"])))
            return "a solver given twice"

        def time_end():
            g.pick(d["solver_options"])["solver"]["time_end"] = -1.0
            return "a negative end of a solver"

        def density():
            l = [r["region"] for r in d["regions"] if "density" in r["region"]]
            if not l:
                g.discard()
            g.pick(l)["density"] = F.uni(-g.real(0.1, 2.0))
            return "a negative density"

        def no_eos_vars():
            m = mat(); m["eos_model"] = "gamma_law_gas"; m["eos_model_type"] = "decoupled"; m.pop("eos_global_vars", None)
            return "an equation of state without parameters"

        def no_eos():
            m = mat(); m["eos_global_vars"] = [1.4, 1e-14, 1.0]; m.pop("eos_model", None)
            return "parameters of no equation of state"

        def no_diss():
            m = mat(); m["dissipation_global_vars"] = list(F.MARS); m.pop("dissipation_model", None)
            return "parameters of no dissipation model"

        def no_diss_vars():
            m = mat(); m["dissipation_model"] = "MARS_rz" if two else "MARS"; m.pop("dissipation_global_vars", None)
            return "a dissipation model without parameters"

        def few_diss():
            m = mat(); m["dissipation_model"] = "MARS_rz" if two else "MARS"; m["dissipation_global_vars"] = [1.0] * g.pick([1, 3, 5, 11])
            return "%d parameters of a dissipation model" % len(m["dissipation_global_vars"])

        def dim_diss():
            m = mat(); m["dissipation_model"] = g.pick(["MARS", "directional_MARS"]) + ("" if two else "_rz"); m["dissipation_global_vars"] = list(F.MARS)
            return "the dissipation model %s" % m["dissipation_model"]

        def dim_strength():
            m = mat(); m["strength_model_type"] = "increment_based"; m["strength_model"] = "hypo_plasticity_strength" + ("" if two else "_rz"); m["strength_global_vars"] = [1.0] * 5
            return "the strength model %s" % m["strength_model"]

        def state_based():
            mat()["strength_model_type"] = "state_based"
            return "a strength model type that is not there"

        def contact_vars():
            g.pick(d["boundary_conditions"])["boundary_condition"]["contact_bc_vars"] = [10] * g.pick([1, 3])
            return "a wrong number of contact variables"

        def equil_vars():
            d["multimaterial_options"] = {g.pick(["mat", "geo"]) + "_equilibration_global_vars": [0.1]}
            return "one equilibration parameter"

        def no_materials():
            del d["materials"]
            return "no materials"

        def mesh_both():
            if d["mesh_options"]["source"] != "generate":
                g.discard()
            d["mesh_options"]["file_path"] = "mesh.vtk"
            return "a file for a generated mesh"

        def no_path():
            if d["mesh_options"]["source"] != "file":
                g.discard()
            del d["mesh_options"]["file_path"]
            return "no file for a mesh from a file"

        def many():
            k = g.pick(["velocity", "temperature", "stress"])
            g.pick(d["boundary_conditions"])["boundary_condition"][k + "_bc_global_vars"] = [1.0] * 101
            return "101 variables of a boundary condition"

        def voxels():
            g.pick(d["regions"])["region"]["volume"] = {"type": "voxel_file"}
            return "no file for a volume from a file"

        def not_voxels():
            g.pick(d["regions"])["region"]["volume"]["file_path"] = "some.vtk"
            return "a file for a volume without file"

        f = g.pick([region_mat, region_solver, bc_solver, mat_id, mat_twice, solver_id, solver_twice, time_end, density, no_eos_vars, no_eos, no_diss, no_diss_vars, few_diss,
                    dim_diss, dim_strength, state_based, contact_vars, equil_vars, no_materials, mesh_both, no_path, many, voxels, not_voxels])
        g.label(f.__name__)
        refuse(g, p, d, f())

    def text(g):
        """decks the YAML reader cannot read, or that are not there"""
        p = problem(g)
        t = F.emit(p.deck)
        k = g.i(0, 2)
        if k == 0:
            what = "a line indented by a tab"
            l = t.split("\n"); i = g.pick([j for j, q in enumerate(l) if q.startswith("  ")]); l[i] = "\t" + l[i]; t = "\n".join(l)
        elif k == 1:
            what, t = "nothing in it", g.pick(["", "\n", "# nothing\n", "---\n"])
        else:
            what, t = "no file", None
        g.label(what)
        g.note(what + "\n" + (t or ""))
        r = F.run(B, t or "", g, files=p.files, args=["other.yaml"] if t is None else None)
        g.require(r.rc != -24, "the program hangs on a deck with", what)
        g.require(r.rc != 0, "the program ends as if all was well for a deck with", what)
        g.require(r.rc != -11, "the program crashes on a deck with", what)
        g.require(not written(r), "the program writes results for a deck with", what)
        g.nontrivial()

    c.explore("text", text, 200, 3000)
    c.explore("contradiction", contradiction, 1500, 20000)
    c.explore("key", key, 2000, 30000)
    c.explore("word", word, 2000, 30000)
    c.explore("required", required, 800, 6000)
    c.finish()


# words decks may contain: a misspelling must not be another of them
VALID = set("""
MARS MARS_rz basic box cartesian constant contact_bc_vars convection coords coupled curvature_velocity cycle_stop cylinder decoupled den density
device directional_MARS directional_MARS_rz dissipation_global_vars dissipation_model dt_cfl dt_max dt_min dt_start dynx_FE dynx_FE_rz
elem_field_outputs ending_angle ensight eos_global_vars eos_model eos_model_type erode_density_val erode_tension_val eroded erosion_model evolve_front
file file_path fixed force fracture fuzz gamma_law_gas gauss_pt_field_outputs generate geo_equilibration_global_vars geo_equilibration_model global
global_contact grad_level_set graphics_iteration_step graphics_time_step heat_flux_bc_global_vars heat_flux_model host host_ann_strength
host_user_defined_eos hypo_elastic_plastic_strength hypo_elastic_plastic_strength_rz hypo_plasticity_strength hypo_plasticity_strength_rz id
increment_based inner_radius internal_energy length level_set level_set_type linear_elastic_eos mass mat_equilibration_global_vars
mat_equilibration_model mat_pt_field_outputs material_id max_num_mats_per_element method mie_gruneisen_eos no_dissipation no_eos no_equilibration
no_erosion no_level_set no_strength no_tabular_model node_field_outputs none normal_velocity num_angular_elems num_dims num_elems num_radial_elems
origin outer_radius output_file_format part_id piston plane_position polar polynomial_order preload_contact pres qstatx_FE radial radial_linear
radiation radius radius1 radius2 reflected rk_num_stages scale_x scale_y scale_z sie slope small solver_id source specific_heat
specific_internal_energy speed sphere spherical spherical_linear sspd starting_angle state state_based static strength_global_vars strength_model
strength_model_type stress stress_bc_global_vars stress_model surface tabular_model temp temperature temperature_bc_global_vars temperature_dependent
temperature_model tg_vortex thermal_conductivity thermal_global_vars thorough thrmex_FE time_end time_final time_initial time_varying
timer_output_level tiny tipton tolerance type u uniform use_moving_heat_source user_defined user_defined_eos user_defined_strength v value vel
vel_grad velocity velocity_bc_global_vars velocity_model viz viz_and_state void volfrac volume volume_fraction voxel_file vtu_file w x1 x2 x_linear
x_plane y1 y2 y_linear y_plane z1 z2 z_linear z_plane
""".split())
REQUIRED = {("solver", "method"), ("solver", "id"), ("mesh_options", "source"), ("mesh_options", "num_dims"), ("boundary_condition", "solver_id"), ("boundary_condition", "surface"),
            ("dynamic_options", "time_final"), ("dynamic_options", "cycle_stop"), ("region", "material_id"), ("region", "volume"), ("material", "id"),
            ("multimaterial_options", "mat_equilibration_global_vars"), ("multimaterial_options", "geo_equilibration_global_vars")}
REQUIRED |= {(k, "type") for k in ("volume", "velocity", "density", "specific_internal_energy", "temperature", "specific_heat", "thermal_conductivity", "level_set", "volume_fraction")}

run(main)
