import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import run, REPO, SHIM, HARNESS
from fz import PyCheck
import subprocess, math, copy, glob, re

FL = os.path.join(REPO, "legacy/Fierro_V0/src")
BIG = 1.7976931348623157e308


def build(c):
    if os.environ.get("FIERRO_DEV_sp"):
        return os.environ["FIERRO_DEV_sp"] + "/sp"
    f = ["clang++", "-std=c++17", "-g1", "-O0", "-Wno-everything", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + SHIM]
    f += ["-I" + FL + d for d in ("/Parallel-Solvers", "/Parallel-Solvers/Simulation_Parameters", "/Yaml-Serializable/include", "/Mesh-Builder/include", "/Voxelizer/include")]
    from concurrent.futures import ThreadPoolExecutor
    src = [HARNESS + "/sim_params.cpp", FL + "/Voxelizer/src/stl-to-voxelvtk.cpp", FL + "/Yaml-Serializable/src/Yaml.cpp"]
    obj = [os.path.join(c.tmp, os.path.basename(s) + ".o") for s in src]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda so: c.sh(f + ["-c", so[0], "-o", so[1]]), zip(src, obj)))
    exe = os.path.join(c.tmp, "sp")
    c.sh(f + obj + ["-o", exe, "-lpthread"])
    return exe


def num(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    return repr(x) if isinstance(x, float) else str(x)


def shuffled(g, o):
    o = list(o)
    return [o[k] for k in g.perm(len(o))]


def emit(g, o, ind=0):
    sp = "  " * ind
    if isinstance(o, dict):
        keys = shuffled(g, o)
        out = ""
        for k in keys:
            v = o[k]
            if isinstance(v, (dict, list)) and v:
                out += "%s%s:\n%s" % (sp, k, emit(g, v, ind + 1))
            elif isinstance(v, (list, tuple)):
                out += "%s%s: [%s]\n" % (sp, k, ", ".join(num(x) for x in v))
            else:
                out += "%s%s: %s\n" % (sp, k, num(v))
        return out
    out = ""
    for v in o:
        if isinstance(v, dict):
            t = emit(g, v, ind + 1)
            out += sp + "- " + t[2 * (ind + 1):]
        else:
            out += "%s- %s\n" % (sp, num(v))
    return out


class Deck:
    """a deck (d) and the values the solver must see (e)"""


def some(g, d, e, pre, table, prob=3):
    """gives some of the fields of a table {name: (default, values)}"""
    for k, (dflt, gen) in table.items():
        v = dflt
        if g.chance(1, prob):
            v = d[k] = gen()
        if v is not None:
            e[pre + k] = v


def flag(g):
    return lambda: g.flip()


def pos(g):
    return lambda: g.pick([1.0, 0.5, 2.5e-3, 1e-7, 40.0, 7.2e10, g.logreal(1e-6, 1e6)])


def real(g):
    return lambda: g.pick([0.0, 1.0, -1.0, 0.25, -3.5e-4, 1e9, g.u(-10, 10)])


def count(g, hi=50):
    return lambda: g.i(0, hi)


def volume(g, e, pre, bounded=False):
    t = g.pick(["box", "sphere", "cylinder"] + ([] if bounded else ["global"]))
    v = {"type": t}
    e[pre + ".type"] = t
    ex = {"radius1": 0.0, "radius2": 0.0, "orig_x": 0.0, "orig_y": 0.0, "orig_z": 0.0}
    size = None
    if t == "box":
        for a in "xyz":
            lo = g.pick([0.0, -1.0, g.u(-2, 2)])
            v[a + "1"], v[a + "2"] = lo, lo + g.pick([1.0, 0.5, g.u(0.01, 3)])
            e[pre + "." + a + "1"], e[pre + "." + a + "2"] = v[a + "1"], v[a + "2"]
        size = (v["x2"] - v["x1"]) * (v["y2"] - v["y1"]) * (v["z2"] - v["z1"])
    elif t in ("sphere", "cylinder"):
        r1 = g.pick([0.0, 0.0, 0.3, g.u(0, 2)])
        r2 = r1 + g.pick([1.0, 0.1, g.u(0.01, 2)])
        if r1 or g.flip():
            v["radius1"] = r1
        v["radius2"] = r2
        ex["radius1"], ex["radius2"] = r1, r2
        size = math.pi * (r2 ** 2 - r1 ** 2) if t == "cylinder" else 4. / 3. * math.pi * (r2 ** 3 - r1 ** 3)
        if t == "sphere" and g.chance(1, 3):
            for a in "xyz":
                v["orig_" + a] = ex["orig_" + a] = g.u(-1, 1)
    for k, x in ex.items():
        e[pre + "." + k] = x
    return v, size


def surface(g, e, pre):
    t = g.pick(["x_plane", "y_plane", "z_plane", "cylinder", "sphere"])
    s = {"type": t}
    e[pre + ".type"] = t
    if t.endswith("plane") or g.flip():
        s["plane_position"] = real(g)()
    if t.endswith("plane"):
        e[pre + ".plane_position"] = s["plane_position"]
        e[pre + ".index"] = "xyz".index(t[0])
    some(g, s, e, pre + ".", {"use_limits": (False, flag(g)), "surface_limits_sl": (-BIG, real(g)), "surface_limits_su": (BIG, real(g)), "surface_limits_tl": (-BIG, real(g)), "surface_limits_tu": (BIG, real(g))}, 4)
    return s


MAT = ["elastic_modulus", "poisson_ratio", "density", "initial_temperature", "thermal_conductivity", "specific_internal_energy_rate", "modulus_density_slope", "modulus_initial", "q1", "q2", "q1ex", "q2ex"]
DFLT = {"elastic_modulus": 2e11, "poisson_ratio": 0.3, "density": 7850., "initial_temperature": 293., "thermal_conductivity": 10., "specific_internal_energy_rate": 1.,
        "modulus_density_slope": 2e11, "modulus_initial": 0., "q1": 1., "q2": 0., "q1ex": 1., "q2ex": 0.}


def material(g, k, mid):
    m, f = {"id": mid}, {}
    some(g, m, f, "", {n: (DFLT[n], pos(g)) for n in MAT}, 4)
    some(g, m, f, "", {"SIMP_modulus": (True, flag(g)), "linear_cell_modulus": (False, flag(g)), "maximum_limiter": (False, flag(g)), "num_eos_state_vars": (0, count(g, 9)), "num_strength_state_vars": (0, count(g, 9)),
                       "eos_model": ("ideal_gas", lambda: g.pick(["ideal_gas", "user_defined", "constant"])),
                       "strength_model": ("none", lambda: g.pick(["none", "user_defined", "vumat", "evp", "evpfft", "ls_evpfft", "lsnp_evpfft"])),
                       "strength_type": ("none", lambda: g.pick(["none", "hypo", "hyper"])),
                       "strength_run_location": ("device", lambda: g.pick(["device", "host"])), "eos_run_location": ("device", lambda: g.pick(["device", "host"]))})
    if f["linear_cell_modulus"]:
        f["SIMP_modulus"] = False
    x = [12e-6] * 3 + [0.] * 3
    if g.chance(1, 5):
        x = m["expansion_coefficients"] = [g.u(0, 1e-4) for _ in range(6)]
    lists = {"expansion_coefficients": x}
    own = {"id": mid}
    for n in ("eos", "strength"):
        v = [g.pick([1.4, 1e-14, 5. / 3., g.u(-5, 5)]) for _ in range(g.i(0, 4))]
        if v:
            m[n + "_global_vars"] = v
        f["num_%s_global_vars" % n] = len(v)
        lists_own = v
        own[n] = v
    for n, v in lists.items():
        f[n + ".size"] = len(v)
        for j, y in enumerate(v):
            f["%s.%d" % (n, j)] = y
    return m, f, own


TOPO = {"minimize_compliance": ("Strain_Energy_Minimize_TopOpt", ["Elasticity"], False, True), "maximize_compliance": ("Strain_Energy_Minimize_TopOpt", ["Elasticity"], True, True),
        "minimize_thermal_resistance": ("Heat_Capacity_Potential_Minimize_TopOpt", ["Heat_Conduction"], False, True), "maximize_thermal_resistance": ("Heat_Capacity_Potential_Minimize_TopOpt", ["Heat_Conduction"], True, True),
        "minimize_kinetic_energy": ("Kinetic_Energy_Minimize_TopOpt", ["SGH", "Dynamic_Elasticity"], False, False), "maximize_kinetic_energy": ("Kinetic_Energy_Minimize_TopOpt", ["SGH", "Dynamic_Elasticity"], True, False),
        "minimize_internal_energy": ("Internal_Energy_Minimize_TopOpt", ["SGH"], False, False), "maximize_internal_energy": ("Internal_Energy_Minimize_TopOpt", ["SGH"], True, False),
        "multi_objective": ("Multi_Objective", None, False, False)}
SHAPE = {k: (v[0].replace("TopOpt", "ShapeOpt"), ["SGH"], v[2], v[3]) for k, v in TOPO.items() if "energy" in k}
COMP = {"x": 0, "y": 1, "z": 2, "xx": 0, "yy": 1, "zz": 2, "xy": 3, "xz": 4, "yz": 5}
CONS = {"mass": ("Mass_Constraint", ["Inertial"]), "moment_of_inertia": ("Moment_of_Inertia_Constraint", ["Inertial"]), "center_of_mass": ("Center_of_Mass_Constraint", ["Inertial"]), "displacement": ("Displacement_Constraint", ["Elasticity"])}
FIELDS = "processor_id element_id material_id element_switch design_density element_density sound_speed speed velocity pressure SIE volume mass user_vars stress strain displacement displaced_mesh temperature temperature_gradient heat_flux".split()
DEFFIELDS = {"SGH": "velocity element_density pressure SIE volume mass sound_speed", "Dynamic_Elasticity": "velocity element_density pressure volume mass", "Elasticity": "displacement displaced_mesh strain",
             "Heat_Conduction": "temperature heat_flux", "Thermo_Elastic": "displacement displaced_mesh strain temperature heat_flux", "Inertial": ""}


def module(g, typ, mids, e, pre):
    m = {"type": typ, "material_id": g.pick(mids)}
    e[pre + ".type"], e[pre + ".material_id"], e[pre + ".requires_conditions"] = typ, m["material_id"], typ != "Inertial"
    some(g, m, e, pre + ".", {"replace_import_bcs": (False, flag(g))}, 5)
    nb = g.i(0, 2)
    if nb:
        m["boundary_conditions"] = []
    for b in range(nb):
        kb = "%s.bcs.%d" % (pre, b)
        t = g.pick("displacement displacement_x displacement_y displacement_z temperature velocity reflected fixed_position pressure acceleration contact".split())
        x = {"type": t, "surface": surface(g, e, kb + ".surface")}
        e[kb + ".type"] = t
        some(g, x, e, kb + ".", {"value": (0., real(g)), "u": (0., real(g)), "v": (0., real(g)), "w": (0., real(g))})
        m["boundary_conditions"].append(x)
    e[pre + ".bcs.size"] = nb
    nl = g.i(0, 2)
    if nl:
        m["loading_conditions"] = []
    for b in range(nl):
        kb = "%s.loads.%d" % (pre, b)
        t = g.pick(["surface_traction", "surface_heat_flux", "body_force"])
        x = {"type": t}
        e[kb + ".type"] = t
        if t == "body_force":
            x["volume"], _ = volume(g, e, kb + ".volume")
        else:
            x["surface"] = surface(g, e, kb + ".surface")
        if t == "surface_heat_flux":
            x["flux_value"] = e[kb + ".flux_value"] = real(g)()
            x["specification"] = e[kb + ".specification"] = g.pick(["normal", "coordinated"])
        else:
            for a in "xyz":
                x["component_" + a] = e[kb + "." + a] = real(g)()
        m["loading_conditions"].append(x)
    e[pre + ".loads.size"] = nl
    if typ in ("Elasticity", "Thermo_Elastic", "Heat_Conduction"):
        some(g, m, e, pre + ".", {"equilibrate_matrix_flag": (False, flag(g)), "direct_solver_flag": (False, flag(g)), "multigrid_timers": (False, flag(g)), "muelu_parameters_xml_file": (False, flag(g)),
                                  "xml_parameters_file_name": ("MueLu_Thermal_3D_Params.xml" if typ == "Heat_Conduction" else "elasticity3D.xml", lambda: g.pick(["a.xml", "params/b.xml"]))}, 4)
    if typ == "Heat_Conduction":
        some(g, m, e, pre + ".", {"thermal_flag": (False, flag(g)), "flux_max_flag": (False, flag(g))})
    if typ in ("Elasticity", "Thermo_Elastic"):
        some(g, m, e, pre + ".", {"strain_max_flag": (False, flag(g)), "modal_analysis": (False, flag(g)), "anisotropic_lattice": (False, flag(g)), "num_modes": (10, count(g)), "smallest_modes": (True, flag(g)),
                                  "largest_modes": (False, flag(g)), "convergence_tolerance": (1e-18, pos(g)), "constant_pressure": (0., pos(g))})
        p = e[pre + ".constant_pressure"]
        e[pre + ".constant_stress_flag"] = p != 0
        if p:
            for k in range(6):
                e["%s.constant_stress.%d" % (pre, k)] = p if k < 3 else 0.
            if typ == "Elasticity" and g.flip():
                m["pressure_vessel_flag"] = True
        if typ == "Elasticity":
            e[pre + ".pressure_vessel_flag"] = "pressure_vessel_flag" in m
    if typ == "Inertial":
        for k, a in enumerate("xyz"):
            on = g.flip()
            x = real(g)() if on else 0.
            if on:
                m["inertia_center_" + a] = x
            e["%s.enable.%d" % (pre, k)], e["%s.center.%d" % (pre, k)] = on, x
    return m


def deck(g, tmp):
    D = Deck()
    d, e = {}, {}
    D.kind = g.pick(["explicit", "implicit"])
    ex = D.kind == "explicit"
    dims = 3
    # mesh
    if g.flip():
        dims = g.pick([3, 2])
        o = {"mesh_file_name": g.pick(["m.geo", os.path.join(tmp, "m.geo")]), "mesh_file_format": g.pick(["ensight", "tecplot", "vtk", "ansys_dat", "abaqus_inp"])}
        p = "input_options."
        e[p + "mesh_file_name"], e[p + "mesh_file_format"] = os.path.join(os.path.realpath(tmp), "m.geo"), o["mesh_file_format"]
        if "/" in o["mesh_file_name"]:
            e[p + "mesh_file_name"] = o["mesh_file_name"]
        some(g, o, e, p, {"p_order": (2, lambda: g.i(1, 4)), "unit_scaling": (1., pos(g)), "topology_optimization_restart": (False, flag(g)), "shape_optimization_restart": (False, flag(g)), "zero_index_base": (False, flag(g))})
        t = "hex8"
        if dims == 2 or g.flip():
            t = o["element_type"] = g.pick(["hex8", "hex20", "hex32"] if dims == 3 else ["quad4", "quad8", "quad12"])
        e[p + "element_type"] = t
        f = o["mesh_file_format"]
        e[p + "words_per_line"] = {"ansys_dat": 4, "ensight": 1}.get(f, 3)
        e[p + "elem_words_per_line"] = 11 if f == "ansys_dat" else int("".join(x for x in t if x.isdigit()))
        e["unit_scaling"] = e[p + "unit_scaling"]
        d["input_options"] = o
        e["has_input"], e["has_mesh"] = True, False
    else:
        d["mesh_generation_options"] = {"type": "Box", "origin": [0, 0, 0], "length": [1.5, 1., 1.], "num_elems": [g.i(1, 9), 3, 2]}
        e["unit_scaling"], e["has_input"], e["has_mesh"] = 1., False, True
    if dims != 3 or g.flip():
        d["num_dims"] = dims
    e["num_dims"] = dims
    some(g, d, e, "", {"num_gauss_points": (2, lambda: g.i(1, 5)), "nodal_density_flag": (True, flag(g)), "gravity_flag": (False, flag(g))}, 4)
    gv = [9.81, 0, 0]
    if g.chance(1, 4):
        gv = d["gravity_vector"] = [real(g)() for _ in range(3)]
    e["gravity_vector.size"] = 3
    for k in range(3):
        e["gravity_vector.%d" % k] = gv[k]
    # materials
    nm = g.i(1, 3)
    mids = [0] + g.subset([1, 2, 5, 17])[:nm - 1]
    mids = shuffled(g, mids)
    d["materials"], fields = [], {}
    e["materials.size"] = e["material.size"] = len(mids)
    for k, mid in enumerate(mids):
        m, f, own = material(g, k, mid)
        d["materials"].append(m)
        fields[mid] = f
        p = "materials.%d" % k
        for n, v in f.items():
            e[p + "." + n] = v
        e[p + ".id"], e[p + ".found.density"] = mid, f["density"]
        for n in ("eos", "strength"):
            e["%s.%s_global_vars.size" % (p, n)] = len(own[n])
            for j, v in enumerate(own[n]):
                e["%s.%s_global_vars.%d" % (p, n, j)] = e["%s.%s_table.%d" % (p, n, j)] = v
    for n in ("eos", "strength"):
        e["max_num_%s_state_vars" % n] = max(f["num_%s_state_vars" % n] for f in fields.values())
    # regions
    nr = g.i(0, 3)
    if nr:
        d["regions"] = []
    rids = shuffled(g, [0, 1, 2, 7])
    for k in range(nr):
        p = "regions.%d" % k
        en_ = g.pick(["sie", "ie"])
        v, size = volume(g, e, p + ".volume", en_ == "ie")
        r = {"id": rids[k], "volume": v, "material_id": g.pick(mids), "den": pos(g)()}
        e[p + ".id"], e[p + ".material_id"], e[p + ".f.den"] = r["id"], r["material_id"], r["den"]
        x = r[en_] = g.pick([0.0, 1.0, 0.25, g.u(0, 5)])
        s = x if en_ == "sie" else x / (r["den"] * size)
        e[p + ".sie"], e[p + ".f.sie"], e[p + ".f.extensive"], e[p + ".ie"], e[p + ".found.sie"] = s, s, en_ == "ie", None, s
        for a in "uvw":
            w = None
            if g.flip():
                w = r[a] = real(g)()
            e["%s.%s" % (p, a)], e["%s.f.%s" % (p, a)] = w, w or 0.
        vt = "cartesian"
        if g.chance(1, 3):
            vt = r["velocity"] = g.pick(["cartesian", "radial", "spherical", "radial_linear", "spherical_linear", "tg_vortex"])
        e[p + ".f.velocity"] = vt
        d["regions"].append(r)
    e["regions.size"] = e["mat_fill.size"] = nr
    # modules
    types = g.subset(["SGH", "Dynamic_Elasticity", "Elasticity", "Heat_Conduction", "Thermo_Elastic", "Inertial"])
    types = shuffled(g, types)
    mods = [module(g, t, mids, e, "modules.%d" % k) for k, t in enumerate(types)]
    if mods:
        d["fea_module_parameters"] = mods
    if "Inertial" not in types:
        types = types + ["Inertial"]
        p = "modules.%d" % (len(types) - 1)
        e[p + ".type"], e[p + ".material_id"], e[p + ".requires_conditions"], e[p + ".bcs.size"], e[p + ".loads.size"] = "Inertial", 0, False, 0, 0
        for k in range(3):
            e["%s.enable.%d" % (p, k)], e["%s.center.%d" % (p, k)] = False, 0.
        mods = mods + [{"material_id": 0}]
    e["modules.size"] = len(types)
    for k, m in enumerate(mods):
        p = "modules.%d" % k
        for n, v in fields[m["material_id"]].items():
            e[p + ".material." + n] = v
        e[p + ".material.id"], e[p + ".find"], e[p + ".has"] = m["material_id"], k, True
    # optimisation
    funcs, multi = [], []
    o = {}
    process = g.pick(["none", "topology_optimization", "shape_optimization"])
    objective = "none"
    maximize = normalized = False
    rol = {"penalty": ("initial_constraint_penalty", 10., pos(g)), "step": ("step_tolerance", 1e-5, pos(g)), "grad": ("gradient_tolerance", 1e-5, pos(g)), "constraint": ("constraint_tolerance", 1e-5, pos(g)),
           "limit": ("iteration_limit", 100, lambda: g.i(1, 50)), "sublimit": ("subproblem_iteration_limit", 20, lambda: g.i(1, 50))}
    for k, (n, v, gen) in rol.items():
        e["rol." + k] = v
    e["rol.algorithm"] = "Trust Region"
    has = lambda need: any(t in types for t in need)
    if process != "none":
        table = TOPO if process[0] == "t" else SHAPE
        ok = [k for k, v in table.items() if v[1] is None or has(v[1])]
        if not ok:
            process = "none"
    if process != "none" or g.chance(1, 3):
        o["optimization_objective"] = "none"
        if process != "none":
            objective = o["optimization_objective"] = g.pick(ok)
            o["optimization_process"] = process
            f = table[objective]
            maximize, normalized = f[2], f[3]
            funcs.append((f[0], "OBJECTIVE", [], f[1]))
            if objective == "multi_objective":
                o["multi_objective_modules"] = []
                for _ in range(g.i(1, 3)):
                    ok2 = [k for k in ("minimize_compliance", "minimize_thermal_resistance") if has(TOPO[k][1])]
                    if not ok2:
                        del o["multi_objective_modules"]
                        break
                    t = g.pick(ok2)
                    w = g.u(0, 1)
                    multi.append((len(funcs), w))
                    o["multi_objective_modules"].append({"type": t, "weight_coefficient": w})
                    funcs.append((TOPO[t][0], "MULTI_OBJECTIVE_TERM", [], TOPO[t][1]))
        cons = []
        for _ in range(g.i(0, 3)):
            ok2 = [k for k in CONS if (has(CONS[k][1]) or process == "none") and (process[0] != "s" or k in ("mass", "moment_of_inertia"))]
            t = g.pick(ok2)
            x = {"type": t, "relation": "equality", "value": real(g)()}
            args = [x["value"]]
            if t in ("moment_of_inertia", "center_of_mass"):
                x["component"] = g.pick(list(COMP)) if t[0] == "m" else g.pick(["x", "y", "z"])
                args.append(COMP[x["component"]])
            cons.append(x)
            if process != "none":
                funcs.append((CONS[t][0] + ("_TopOpt" if process[0] == "t" else "_ShapeOpt"), "EQUALITY_CONSTRAINT", args, CONS[t][1]))
        if cons:
            o["constraints"] = cons
        outer = g.pick(["", "", "retain_outer_shell", "variable_outer_shell"])
        if outer:
            o[outer] = True
        if g.flip():
            r = {}
            for k, (n, v, gen) in rol.items():
                if g.flip():
                    r[n] = e["rol." + k] = gen()
            if not r or g.flip():
                r["subproblem_algorithm"] = g.pick(["trust_region", "line_search"])
                e["rol.algorithm"] = {"t": "Trust Region", "l": "Line Search"}[r["subproblem_algorithm"][0]]
            o["rol_params"] = r
        nb = g.i(0, 2)
        if nb:
            o["volume_bound_constraints"] = []
        for k in range(nb):
            p = "bounds.%d" % k
            v, _ = volume(g, e, p + ".volume")
            x = {"id": g.i(0, 9), "volume": v}
            e[p + ".id"] = x["id"]
            lo, hi = g.pick([0., 0.25, 1., g.u(0, 1)]), g.pick([1., 0.5, 0.75, g.u(0, 1)])
            for n, val, dflt in (("lower", lo, 0.), ("upper", hi, 1.)):
                if g.flip():
                    x[n + "_density_bound"] = val
                e["%s.%s" % (p, n)] = val if n + "_density_bound" in x else dflt
            o["volume_bound_constraints"].append(x)
        nb2 = g.i(0, 2)
        if nb2:
            o["objective_regions"] = [volume(g, e, "objective_regions.%d" % k)[0] for k in range(nb2)]
    else:
        nb = nb2 = 0
    e["bounds.size"], e["objective_regions.size"] = nb, nb2
    T = {"method_of_moving_asymptotes": (False, flag(g)), "simp_penalty_power": (3., pos(g)), "thick_condition_boundary": (True, flag(g)), "optimization_output_freq": (200, count(g)), "disable_forward_solve_output": (False, flag(g)),
         "density_epsilon": (0.001, pos(g)), "minimum_density": (0., pos(g)), "maximum_density": (1., pos(g)), "shell_density": (1., pos(g)), "objective_normalization_constant": (0., pos(g)), "num_solve_checkpoints": (10, count(g)),
         "use_solve_checkpoints": (True, flag(g)), "use_gradient_tally": (False, flag(g)), "optimization_parameters_xml_file": (False, flag(g)), "check_objective_gradient": (False, flag(g)), "use_simpson": (False, flag(g)),
         "xml_parameters_file_name": ("optimization_parameters.xml", lambda: "o.xml"), "max_coord_move_length": (1., pos(g)), "density_filter": ("none", lambda: g.pick(["none", "helmholtz_filter"])), }
    if o:
        some(g, o, e, "opt.", T, 5)
        d["optimization_options"] = o
    else:
        for k, (v, _) in T.items():
            e["opt." + k] = v
    if e["opt.use_solve_checkpoints"]:
        e["opt.use_gradient_tally"] = True
    e["opt.process"], e["opt.objective"], e["opt.maximize_flag"], e["opt.normalized_objective"], e["opt.structure"] = process, objective, maximize, normalized, "linear"
    e["opt.retain_outer_shell"], e["opt.variable_outer_shell"] = o.get("retain_outer_shell", False), o.get("variable_outer_shell", False)
    e["topology_on"], e["shape_on"] = process[0] == "t", process[0] == "s"
    e["functions.size"] = len(funcs)
    mine = {k: [] for k in range(len(types))}
    for k, (mod, typ, args, need) in enumerate(funcs):
        p = "functions.%d" % k
        e[p + ".module"], e[p + ".type"], e[p + ".arguments.size"] = mod, typ, len(args)
        for j, a in enumerate(args):
            e["%s.arguments.%d" % (p, j)] = a
        if need is not None:
            fea = next(types.index(t) for t in need if t in types)
            e[p + ".fea"] = fea
            mine[fea].append(k)
    for k, v in mine.items():
        e["fea_functions.%d.size" % k] = len(v)
        for j, x in enumerate(v):
            e["fea_functions.%d.%d" % (k, j)] = x
    e["multi.modules.size"] = e["multi.weights.size"] = len(multi)
    for k, (i, w) in enumerate(multi):
        e["multi.modules.%d" % k], e["multi.weights.%d" % k] = i, w
    # output
    q = {}
    e1 = {}
    some(g, q, e1, "", {"timer_output_level": ("standard", lambda: g.pick(["standard", "thorough"])), "output_file_format": ("vtk", lambda: g.pick(["vtk", "pvtu", "none"])), "include_default_output_fields": (True, flag(g)),
                        "write_initial": (True, flag(g)), "write_final": (True, flag(g)), "max_num_user_output_vars": (0, count(g)), "convert_to_vtk": (False, flag(g)), "convert_to_tecplot": (False, flag(g)),
                        "output_file_location": ("vtk/", lambda: g.pick(["out/", "a/b"])), "restart_file": (False, flag(g)), "optimization_restart_file": (False, flag(g)), "restart_step_interval": (100000, count(g)),
                        "optimization_restart_step_interval": (0, count(g))}, 4)
    fields_ = set()
    if g.flip():
        fields_ = set(g.subset(FIELDS))
        if fields_:
            q["output_fields"] = shuffled(g, sorted(fields_))
    extra = set()
    if e1["include_default_output_fields"]:
        for t in types:
            extra |= set(DEFFIELDS[t].split())
    for k, v in e1.items():
        e["output_options." + k] = v
    dens = {"design_density"} if process[0] == "t" and e1["include_default_output_fields"] else set()
    e["output_options.output_fields"] = "".join(x + "," for x in sorted(fields_ | extra | dens))
    if ex:
        for k, v in e1.items():
            e["explicit_output." + k] = v
        dens = dens if e1["optimization_restart_file"] else set()
        e["explicit_output.output_fields"] = "".join(x + "," for x in sorted(fields_ | extra | dens))
        some(g, q, e, "explicit_output.", {"graphics_step": (0.25, pos(g)), "graphics_dt_ival": (0.25, pos(g)), "graphics_cyc_ival": (1000000, count(g))})
        e["explicit_output.graphics_time"], e["explicit_output.graphics_times0"], e["explicit_output.graphics_id"] = e["explicit_output.graphics_dt_ival"], 0., 0
        y = {}
        some(g, y, e, "dyn.", {"cycle_stop": (2000000, count(g, 5000)), "time_initial": (0., pos(g)), "time_final": (1., pos(g)), "dt_min": (1e-8, pos(g)), "dt_max": (1e-2, pos(g)), "dt_start": (1e-5, pos(g)), "dt_cfl": (0.4, pos(g)),
                               "fuzz": (1e-16, pos(g)), "tiny": (1e-12, pos(g)), "small": (1e-8, pos(g)), "print_cycle": (20, count(g)), "rk_num_stages": (2, lambda: g.i(1, 4)), "rk_num_bins": (None, lambda: g.i(0, 5)),
                               "time_value": (None, pos(g)), "output_time_sequence_level": ("high", lambda: g.pick(["none", "low", "high", "extreme"]))}, 4)
        e.setdefault("dyn.rk_num_bins", e["dyn.rk_num_stages"])
        e.setdefault("dyn.time_value", e["dyn.time_initial"])
        e["dyn.dt"] = e["dyn.dt_start"]
        if y:
            d["dynamic_options"] = y
    if q:
        d["output_options"] = q
    D.d, D.e, D.types, D.tmp, D.mids = d, e, types, tmp, mids
    return D


def read(g, exe, tmp, D, text, points="-"):
    open(os.path.join(tmp, "m.geo"), "w").close()
    p = os.path.join(tmp, "deck.yaml")
    open(p, "w").write(text)
    g.note("deck.yaml", text)
    r = subprocess.run([exe, D.kind[0], "deck.yaml", points], cwd=tmp, capture_output=True, text=True, timeout=60, errors="replace")
    g.require(r.returncode == 0, "the reader crashed: " + (r.stderr or r.stdout)[-1500:])
    out = r.stdout.split("\n=====")[0].strip().split("\n")
    line = next((l for l in reversed(out) if l.startswith(("OK", "CONFIG", "OTHER"))), "")
    full = r.stdout
    return line.split(" ")[0], full


def compare(g, D, tmp):
    seen = {}
    for l in open(os.path.join(tmp, "deck.yaml.1")):
        k, _, v = l.rstrip("\n").partition(" ")
        seen[k] = v
    for k, v in D.e.items():
        g.require(k in seen, "nothing read for %s" % k)
        s = seen[k]
        if v is None:
            g.require(s == "s:none", "%s is %s, not unset" % (k, s))
        elif isinstance(v, str):
            g.require(s == "s:" + v, "%s is %s, not %s" % (k, s[2:], v))
        else:
            x = float("nan") if s.startswith("s:") else float(s)
            g.require(abs(x - float(v)) <= 4e-15 * abs(float(v)), "%s is %s, not %r" % (k, s, v))


def p_valid(exe):
    def f(g):
        D = deck(g, g.tmp)
        D.d = {k: D.d[k] for k in shuffled(g, D.d)}
        text = emit(g, D.d)
        g.label(D.kind)
        g.label("mesh file" if D.e["has_input"] else "generated mesh")
        g.label(D.e["opt.process"])
        if D.e["opt.process"] != "none":
            g.label("objective " + D.e["opt.objective"])
        g.nontrivial(len(D.types) > 1 and len(D.d) > 3)
        st, out = read(g, exe, g.tmp, D, text)
        g.require(st == "OK", "a complete deck was rejected: " + out[-600:])
        compare(g, D, g.tmp)
    return f


def p_broken(exe):
    def f(g):
        D = deck(g, g.tmp)
        d = copy.deepcopy(D.d)
        opt = d.get("optimization_options", {})
        faults = []
        word = None
        F = lambda name, fn, w=None: faults.append((name, fn, w))
        if "input_options" in d:
            F("no mesh", lambda: d.pop("input_options"), "input_options")
            F("two meshes", lambda: d.update(mesh_generation_options={"type": "Box", "origin": [0, 0, 0], "length": [1, 1, 1], "num_elems": [1, 1, 1]}), "input_options")
            F("missing file", lambda: d["input_options"].update(mesh_file_name="nothere.geo"), "nothere.geo")
            F("element of other dimension", lambda: d["input_options"].update(element_type="quad4" if D.e["num_dims"] == 3 else "hex8"), "lement type")
            F("unknown format", lambda: d["input_options"].update(mesh_file_format="stepfile"), "stepfile")
        else:
            F("no mesh", lambda: d.pop("mesh_generation_options"), "input_options")
        F("unknown key", lambda: d.update(num_dimensions=3), "num_dimensions")
        if D.kind == "implicit":
            F("key of the other solver", lambda: d.update(dynamic_options={"time_final": 1.0}), "dynamic_options")
        mats = d["materials"]
        k = g.i(0, len(mats) - 1)
        F("material without id", lambda: mats[k].pop("id") if len(mats[k]) > 1 else mats[k].update(id="x"))
        F("unknown material field", lambda: mats[k].update(densty=3.0), "densty")
        F("unknown EOS", lambda: mats[k].update(eos_model="gamma_law"), "gamma_law")
        F("not a number", lambda: mats[k].update(density="heavy"))
        for r in d.get("regions", [])[:2]:
            F("negative density", lambda r=r: r.update(den=g.pick([-1.0, 0.0])), "density")
            F("no density", lambda r=r: r.pop("den"), "den")
            F("both energies", lambda r=r: r.update(sie=1.0, ie=1.0), "energy")
            F("no energy", lambda r=r: (r.pop("sie", 0), r.pop("ie", 0)), "energy")
            F("energy of an unbounded region", lambda r=r: (r.pop("sie", 0), r.update(ie=1.0, volume={"type": g.pick(["global", "stl", "vtk"])})))
            F("negative inner radius", lambda r=r: r.update(volume={"type": g.pick(["sphere", "cylinder"]), "radius1": -g.u(0.01, 1), "radius2": 1.0}), "inner radius")
            F("radii in the wrong order", lambda r=r: r.update(volume={"type": g.pick(["sphere", "cylinder"]), "radius1": 1.0, "radius2": g.pick([1.0, 0.5])}), "outer radius")
            F("unknown volume", lambda r=r: r["volume"].update(type="cone"), "cone")
            F("unknown volume field", lambda r=r: r["volume"].update(radius=1.0))
        mods = d.get("fea_module_parameters", [])
        if mods:
            m = g.pick(mods)
            F("module of an unknown material", lambda: m.update(material_id=99), "99")
            F("module without material", lambda: m.pop("material_id"), "material_id")
            F("module without type", lambda: m.pop("type"), "type")
            F("unknown module", lambda: m.update(type="Plasticity"), "Plasticity")
            F("field of another module", lambda: m.update({"thermal_flag" if m["type"] != "Heat_Conduction" else "num_modes": 1}))
            for b in m.get("boundary_conditions", [])[:1]:
                F("condition without surface", lambda: b.pop("surface"), "surface")
                F("condition without type", lambda: b.pop("type"), "type")
                F("surface without type", lambda: b["surface"].pop("type") if len(b["surface"]) > 1 else b["surface"].update(type="plane"), "type" if len(b["surface"]) > 1 else "plane")
            for l in m.get("loading_conditions", [])[:1]:
                F("load without its values", lambda: l.pop("component_y" if "component_y" in l else "flux_value"))
                F("unknown load", lambda: l.update(type="wind"), "wind")
                F("load without place", lambda: l.pop("volume" if "volume" in l else "surface"))
        if opt:
            F("both outer shells", lambda: opt.update(retain_outer_shell=True, variable_outer_shell=True), "outer_shell")
            F("no objective", lambda: opt.pop("optimization_objective") if len(opt) > 1 else opt.update(optimization_objective="x"))
            F("iteration limit", lambda: opt.update(rol_params={"iteration_limit": g.pick([0, -3])}), "iteration limit")
            F("bound below zero", lambda: opt.update(volume_bound_constraints=[{"id": 0, "volume": {"type": "global"}, g.pick(["lower", "upper"]) + "_density_bound": -g.u(0.01, 2)}]), "relative density")
            F("bound above one", lambda: opt.update(volume_bound_constraints=[{"id": 0, "volume": {"type": "global"}, g.pick(["lower", "upper"]) + "_density_bound": 1 + g.u(0.01, 2)}]), "relative density")
            c = [{"type": g.pick(["moment_of_inertia", "center_of_mass"]), "relation": "equality", "value": 1.0}]
            F("constraint without component", lambda: opt.update(constraints=c), "component")
            F("constraint without value", lambda: opt.update(constraints=[{"type": "mass", "relation": "equality"}]), "value")
            if opt.get("optimization_process", "none") != "none":
                F("objective none", lambda: opt.update(optimization_objective="none"), "objective")
            if opt.get("optimization_process") == "shape_optimization":
                F("objective of the other process", lambda: opt.update(optimization_objective=g.pick(["minimize_compliance", "maximize_thermal_resistance"])), "objective")
                F("constraint of the other process", lambda: opt.update(constraints=[{"type": "displacement", "relation": "equality", "value": 1.0}]), "constraint")
        for t, obj in (("Elasticity", "minimize_compliance"), ("Heat_Conduction", "minimize_thermal_resistance"), ("SGH", "minimize_internal_energy")):
            if t not in D.types:
                F("objective without its module", lambda obj=obj: d.update(optimization_options={"optimization_process": "topology_optimization", "optimization_objective": obj}), t)
        if "Elasticity" not in D.types and "SGH" in D.types:
            F("constraint without its module", lambda: d.update(optimization_options={"optimization_process": "topology_optimization", "optimization_objective": "minimize_kinetic_energy", "constraints": [{"type": "displacement", "relation": "equality", "value": 1.0}]}), "Elasticity")
        name, fn, word = g.pick(faults)
        fn()
        if callable(word):
            word = word()
        text = emit(g, d)
        g.label(name)
        g.nontrivial(True)
        st, out = read(g, exe, g.tmp, D, text)
        g.require(st != "OK", "a deck with a defect (%s) was accepted" % name)
        g.require("optional access" not in out, "the error does not name the defect (%s): %s" % (name, out[-400:]))
        if word:
            g.require(word in out, "the error does not name the defect (%s; %s): %s" % (name, word, out[-600:]))
    return f


def cubes_stl(g, path, m, s, vals):
    import struct
    T, at = [], [g.pick([0.0, 1.0, g.u(-3, 3)]) for _ in range(3)]
    for q, x in enumerate(vals):
        if x:
            i = (q % m[0], q // m[0] % m[1], q // m[0] // m[1])
            p = [[at[a] + s[a] * (i[a] + b[a]) for a in range(3)] for b in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1))]
            for f in ((0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)):
                a, b, c, d = [p[z] for z in f]
                T += [(a, b, c), (a, c, d)] if g.flip() else [(a, b, d), (b, c, d)]
    with open(path, "wb") as w:
        w.write(b" " * 80 + struct.pack("<I", len(T)))
        for t in T:
            w.write(struct.pack("<12fH", 0, 0, 0, *t[0], *t[1], *t[2], 0))


def p_inside(exe):
    def f(g):
        """which points the volumes of the regions hold"""
        n = g.i(1, 3)
        regs, vols, e = [], [], {}
        for k in range(n):
            if g.flip():
                v, _ = volume(g, e, "r%d" % k)
                for a in "xyz":
                    v.setdefault("orig_" + a, 0.0) if v["type"] == "sphere" else None
            else:
                m = [g.i(1, 5) for _ in range(3)]
                h = [g.pick([0.5, 1.0, 0.25, g.u(0.1, 1)]) for _ in range(3)]
                o = [g.pick([0.0, -1.0, g.u(-1, 1)]) for _ in range(3)]
                vals = [g.i(0, 1) for _ in range(m[0] * m[1] * m[2])]
                per = g.pick([1, 3, 1000])
                name = "vox%d.vtk" % k
                with open(os.path.join(g.tmp, name), "w") as w:
                    w.write("# vtk DataFile Version 3.0\nHeader\nASCII\nDATASET RECTILINEAR_GRID\nDIMENSIONS %d %d %d\n" % tuple(x + 1 for x in m))
                    for a in range(3):
                        x = [repr(o[a] + h[a] * i) for i in range(m[a] + 1)]
                        w.write("%s_COORDINATES %d float\n" % ("XYZ"[a], m[a] + 1))
                        for i in range(0, len(x), per):
                            w.write(" ".join(x[i:i + per]) + g.pick(["", " "]) + "\n")
                    w.write("\nCELL_DATA %d\nSCALARS density float 1\nLOOKUP_TABLE default\n" % len(vals))
                    for i in range(0, len(vals), per):
                        w.write(" ".join(map(str, vals[i:i + per])) + "\n")
                v = {"type": "vtk", "vtk_file_path": name}
                if g.flip():
                    # the same cells as cubes in an STL file
                    vals[0] = vals[-1] = 1
                    v = {"type": "stl", "stl_file_path": "s%d.stl" % k, "vtk_file_path": "out%d.vtk" % k, "num_voxel_x": m[0], "num_voxel_y": m[1], "num_voxel_z": m[2]}
                    v.update({"orig_" + "xyz"[a]: o[a] for a in range(3)})
                    s = h
                    if g.flip():
                        v.update({"length_" + "xyz"[a]: h[a] * m[a] for a in range(3)})
                        s = [g.pick([1.0, g.u(0.1, 3)]) for _ in range(3)]
                    cubes_stl(g, os.path.join(g.tmp, v["stl_file_path"]), m, s, vals)
                v["_"] = (m, h, o, vals)
            vols.append(v)
            regs.append({"id": k, "volume": {a: b for a, b in v.items() if a != "_"}, "material_id": 0, "den": 1.0, "sie": 1.0})
        pts, want = [], []
        for _ in range(g.i(5, 40)):
            v = g.pick(vols)
            # near the surfaces of a volume, and anywhere
            x = [g.u(-3, 3) for _ in range(3)]
            if "_" in v:
                m, h, o, vals = v["_"]
                x = [o[a] + h[a] * (g.i(-1, m[a]) + g.pick([0.05, 0.5, 0.95, g.u(0.01, 0.99)])) for a in range(3)]
            elif v["type"] == "box":
                for a in range(3):
                    if g.flip():
                        x[a] = g.pick([v["xyz"[a] + "1"], v["xyz"[a] + "2"]]) + g.pick([1e-6, -1e-6])
                    elif g.flip():
                        x[a] = v["xyz"[a] + "1"] + g.u(0, 1) * (v["xyz"[a] + "2"] - v["xyz"[a] + "1"])
            elif v["type"] in ("sphere", "cylinder") and g.flip():
                if v["type"] == "cylinder":
                    x[2] = 0.0
                r = g.pick([v.get("radius1", 0.0), v["radius2"]]) + g.pick([1e-6, -1e-6])
                s = math.sqrt(sum(y * y for y in x)) or 1.0
                x = [y * r / s for y in x]
                if v["type"] == "sphere":
                    x = [x[a] + v["orig_" + "xyz"[a]] for a in range(3)]
                else:
                    x[2] = g.u(-3, 3)
            row = ""
            for v in vols:
                t = v["type"]
                if t == "global":
                    row += "1"
                elif t == "box":
                    row += "01"[all(v[a + "1"] <= x[k] <= v[a + "2"] for k, a in enumerate("xyz"))]
                elif t in ("vtk", "stl"):
                    m, h, o, vals = v["_"]
                    q = [(x[a] - o[a]) / h[a] for a in range(3)]
                    if any(abs(y - round(y)) < 1e-5 for y in q):
                        row += "?"
                        continue
                    i = [math.floor(y) for y in q]
                    row += str(vals[i[0] + m[0] * (i[1] + m[1] * i[2])]) if all(0 <= i[a] < m[a] for a in range(3)) else "0"
                else:
                    c = [v.get("orig_" + a, 0.0) for a in "xyz"]
                    r = math.sqrt(sum((x[a] - c[a]) ** 2 for a in range(3 if t == "sphere" else 2)))
                    r1, r2 = v.get("radius1", 0.0), v["radius2"]
                    row += "?" if min(abs(r - r1), abs(r - r2)) < 1e-9 else "01"[r1 <= r <= r2]
            pts.append(x)
            want.append(row)
        with open(os.path.join(g.tmp, "points"), "w") as w:
            for x in pts:
                w.write("%r %r %r\n" % tuple(x))
        d = {"mesh_generation_options": {"type": "Box", "origin": [0, 0, 0], "length": [1, 1, 1], "num_elems": [1, 1, 1]}, "materials": [{"id": 0}], "regions": regs}
        D = Deck()
        D.kind = g.pick(["explicit", "implicit"])
        for v in vols:
            g.label(v["type"])
        g.nontrivial(len({c for r in want for c in r}) > 1)
        st, out = read(g, exe, g.tmp, D, emit(g, d), "points")
        g.require(st == "OK", "the deck was rejected: " + out[-600:])
        got = [l.split()[1] for l in open(os.path.join(g.tmp, "deck.yaml.3"))]
        for x, w, y in zip(pts, want, got):
            g.require(len(w) == len(y) and all(a == "?" or a == b for a, b in zip(w, y)), "point %s: volumes %s, expected %s (%s)" % (x, y, w, [v["type"] for v in vols]))
    return f


def p_shipped(exe, files):
    def f(g):
        p = files[g.i(0, len(files) - 1)]
        D = Deck()
        D.kind = "implicit" if "mplicit" in p else "explicit"
        text = re.sub(r"(?m)^(\s*)mesh_file_name:.*$", r"\1mesh_file_name: m.geo", open(p).read())
        g.label(os.path.basename(p))
        g.nontrivial(True)
        st, out = read(g, exe, g.tmp, D, text)
        g.require(st == "OK", "%s was rejected: %s" % (p, out[-600:]))
    return f


def main():
    c = PyCheck("C34", "decks of the legacy explicit and implicit solvers with every kind of entry, read by the solvers' own reader; oracle: the generator knows what each entry, default and derived quantity must be; decks with one defect must be refused with a message about it; points in and out of volumes against geometry; the decks shipped with the repository; non-trivial: more than one module and more than three sections, a defect, a mixed answer")
    exe = build(c)
    c.explore("decks", p_valid(exe), quick=3000, thorough=40000, budget=200)
    c.explore("broken", p_broken(exe), quick=2000, thorough=25000, budget=150)
    c.explore("volumes", p_inside(exe), quick=1000, thorough=15000, budget=120)
    files = sorted(glob.glob(FL + "/Parallel-Solvers/*/Example_Yaml_Scripts/*.yaml") + glob.glob(FL + "/../integrated-tests/Test-scripts/Solver-Inputs/fierro-parallel-*/*.yaml"))
    if files:
        c.explore("shipped", p_shipped(exe, files), quick=60, thorough=60, budget=60)
    c.finish()


run(main)
