// reads decks of the legacy solvers and prints everything the solvers see of them.  arguments: e|i deck points-file|-
#include <Kokkos_Core.hpp>
#include <filesystem>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include "Simulation_Parameters/Simulation_Parameters_Explicit.h"
#include "Simulation_Parameters/Simulation_Parameters_Implicit.h"

static FILE* out;
static void put(const std::string& k, double v) { fprintf(out, "%s %.17g\n", k.c_str(), v); }
static void put(const std::string& k, const std::string& v) { fprintf(out, "%s s:%s\n", k.c_str(), v.c_str()); }
template<typename E> static void en(const std::string& k, E v) { put(k, to_string(v)); }
template<typename T> static void opt(const std::string& k, const std::optional<T>& v) { if (v) put(k, (double)*v); else put(k, std::string("none")); }
static void list(const std::string& k, const std::vector<double>& v) { put(k + ".size", v.size()); for (size_t i = 0; i < v.size(); i++) put(k + "." + std::to_string(i), v[i]); }
static void list(const std::string& k, const std::vector<int>& v) { put(k + ".size", v.size()); for (size_t i = 0; i < v.size(); i++) put(k + "." + std::to_string(i), v[i]); }

static void vol(const std::string& k, const Volume& v)
{
    en(k + ".type", v.type);
    put(k + ".radius1", v.radius1); put(k + ".radius2", v.radius2);
    put(k + ".orig_x", v.orig_x); put(k + ".orig_y", v.orig_y); put(k + ".orig_z", v.orig_z);
    put(k + ".length_x", v.length_x); put(k + ".length_y", v.length_y); put(k + ".length_z", v.length_z);
    put(k + ".stl_file_path", v.stl_file_path); put(k + ".vtk_file_path", v.vtk_file_path);
    if (v.type == VOLUME_TYPE::box) { put(k + ".x1", v.x1); put(k + ".x2", v.x2); put(k + ".y1", v.y1); put(k + ".y2", v.y2); put(k + ".z1", v.z1); put(k + ".z2", v.z2); }
    if (v.type == VOLUME_TYPE::stl) { put(k + ".num_voxel_x", v.num_voxel_x); put(k + ".num_voxel_y", v.num_voxel_y); put(k + ".num_voxel_z", v.num_voxel_z); }
}
static void surf(const std::string& k, Surface s)
{
    en(k + ".type", s.type);
    put(k + ".use_limits", s.use_limits);
    put(k + ".surface_limits_sl", s.surface_limits_sl); put(k + ".surface_limits_su", s.surface_limits_su);
    put(k + ".surface_limits_tl", s.surface_limits_tl); put(k + ".surface_limits_tu", s.surface_limits_tu);
    bool planar = s.type == BOUNDARY_TYPE::x_plane || s.type == BOUNDARY_TYPE::y_plane || s.type == BOUNDARY_TYPE::z_plane;
    if (planar) { put(k + ".plane_position", s.plane_position); put(k + ".index", s.planar_surface_index()); }
}
static void mat(const std::string& k, const material_t& m)
{
    en(k + ".eos_model", m.eos_model); en(k + ".strength_model", m.strength_model); en(k + ".strength_type", m.strength_type);
    en(k + ".strength_run_location", m.strength_run_location); en(k + ".eos_run_location", m.eos_run_location);
#define P(x) put(k + "." #x, m.x);
    P(elastic_modulus) P(poisson_ratio) P(density) P(initial_temperature) P(thermal_conductivity) P(specific_internal_energy_rate)
    P(SIMP_modulus) P(linear_cell_modulus) P(modulus_density_slope) P(modulus_initial) P(q1) P(q2) P(q1ex) P(q2ex) P(maximum_limiter)
    P(num_eos_state_vars) P(num_strength_state_vars) P(num_eos_global_vars) P(num_strength_global_vars)
#undef P
    list(k + ".expansion_coefficients", m.expansion_coefficients);
}
static void outopt(const std::string& k, const Output_Options& o)
{
    en(k + ".timer_output_level", o.timer_output_level); en(k + ".output_file_format", o.output_file_format);
#define P(x) put(k + "." #x, o.x);
    P(include_default_output_fields) P(write_initial) P(write_final) P(max_num_user_output_vars) P(convert_to_vtk) P(convert_to_tecplot)
    P(output_file_location) P(restart_file) P(optimization_restart_file) P(restart_step_interval) P(optimization_restart_step_interval)
#undef P
    std::set<std::string> names;
    for (auto f : o.output_fields) names.insert(to_string(f));
    std::string s;
    for (auto& n : names) s += n + ",";
    put(k + ".output_fields", s);
}

static void dump(Simulation_Parameters& p)
{
    put("num_dims", p.num_dims); put("num_gauss_points", p.num_gauss_points); put("nodal_density_flag", p.nodal_density_flag);
    put("gravity_flag", p.gravity_flag); list("gravity_vector", p.gravity_vector);
    put("unit_scaling", p.get_unit_scaling());
    put("has_input", p.input_options.has_value()); put("has_mesh", p.mesh_generation_options.has_value());
    if (p.input_options) {
        auto& o = *p.input_options;
        put("input_options.mesh_file_name", o.mesh_file_name);
        en("input_options.mesh_file_format", o.mesh_file_format); en("input_options.element_type", o.element_type);
#define P(x) put("input_options." #x, o.x);
        P(p_order) P(unit_scaling) P(topology_optimization_restart) P(shape_optimization_restart) P(zero_index_base) P(words_per_line) P(elem_words_per_line)
#undef P
    }
    outopt("output_options", p.output_options);
    put("max_num_eos_state_vars", p.max_num_eos_state_vars); put("max_num_strength_state_vars", p.max_num_strength_state_vars);
    put("regions.size", p.regions.size());
    for (size_t i = 0; i < p.regions.size(); i++) {
        auto k = "regions." + std::to_string(i);
        auto& r = p.regions[i];
        put(k + ".id", r.id); opt(k + ".sie", r.sie); opt(k + ".ie", r.ie); opt(k + ".u", r.u); opt(k + ".v", r.v); opt(k + ".w", r.w);
        Region found = p.get_region(r.id);
        opt(k + ".found.sie", found.sie);
        auto& f = p.mat_fill.host(i);
        vol(k + ".volume", f.volume);
        put(k + ".material_id", f.material_id); put(k + ".f.u", f.u); put(k + ".f.v", f.v); put(k + ".f.w", f.w);
        put(k + ".f.sie", f.sie); put(k + ".f.den", f.den); put(k + ".f.extensive", f.extensive_energy_setting); en(k + ".f.velocity", f.velocity);
    }
    put("mat_fill.size", p.mat_fill.size());
    put("materials.size", p.materials.size()); put("material.size", p.material.size());
    for (size_t i = 0; i < p.materials.size(); i++) {
        auto k = "materials." + std::to_string(i);
        put(k + ".id", p.materials[i].id);
        mat(k, p.material.host(i));
        list(k + ".eos_global_vars", p.materials[i].eos_global_vars); list(k + ".strength_global_vars", p.materials[i].strength_global_vars);
        for (size_t j = 0; j < p.materials[i].eos_global_vars.size(); j++) put(k + ".eos_table." + std::to_string(j), p.eos_global_vars.host(i, j));
        for (size_t j = 0; j < p.materials[i].strength_global_vars.size(); j++) put(k + ".strength_table." + std::to_string(j), p.strength_global_vars.host(i, j));
        put(k + ".found.density", p.get_material(p.materials[i].id).density);
    }
    put("modules.size", p.fea_module_parameters.size());
    for (size_t i = 0; i < p.fea_module_parameters.size(); i++) {
        auto k = "modules." + std::to_string(i);
        auto& m = *p.fea_module_parameters[i];
        en(k + ".type", m.type); put(k + ".material_id", m.material_id); put(k + ".requires_conditions", m.requires_conditions);
        put(k + ".replace_import_bcs", m.replace_import_bcs);
        put(k + ".material.id", m.material.id); mat(k + ".material", m.material);
        put(k + ".find", p.find_module(m.type)); put(k + ".has", p.has_module(m.type));
        put(k + ".bcs.size", m.boundary.size());
        for (size_t b = 0; b < m.boundary.size(); b++) {
            auto kb = k + ".bcs." + std::to_string(b);
            auto& B = m.boundary.host(b);
            en(kb + ".type", B.type); surf(kb + ".surface", B.surface);
            put(kb + ".value", B.value); put(kb + ".u", B.u); put(kb + ".v", B.v); put(kb + ".w", B.w);
        }
        put(k + ".loads.size", m.loading.size());
        for (size_t b = 0; b < m.loading.size(); b++) {
            auto kb = k + ".loads." + std::to_string(b);
            auto& L = m.loading.host(b);
            en(kb + ".type", L.condition_type);
            if (L.condition_type == LOADING_CONDITION_TYPE::body_force) vol(kb + ".volume", L.volume); else surf(kb + ".surface", L.surface);
            if (L.condition_type != LOADING_CONDITION_TYPE::surface_heat_flux) { put(kb + ".x", L.x); put(kb + ".y", L.y); put(kb + ".z", L.z); }
            else if (auto f = std::dynamic_pointer_cast<Surface_Flux_Condition>(m.loading_conditions[b])) { put(kb + ".flux_value", f->flux_value); en(kb + ".specification", f->specification); }
            else put(kb + ".flux_value", std::string("not a flux condition"));
        }
        if (auto q = dynamic_cast<ImplicitModule*>(&m)) { put(k + ".equilibrate_matrix_flag", q->equilibrate_matrix_flag); put(k + ".direct_solver_flag", q->direct_solver_flag); put(k + ".multigrid_timers", q->multigrid_timers); }
#define P(x) put(k + "." #x, q->x);
#define ELASTIC P(strain_max_flag) P(modal_analysis) P(anisotropic_lattice) P(num_modes) P(smallest_modes) P(largest_modes) P(convergence_tolerance) P(constant_pressure) P(constant_stress_flag) P(muelu_parameters_xml_file) P(xml_parameters_file_name) \
        if (q->constant_stress_flag) for (int c = 0; c < 6; c++) put(k + ".constant_stress." + std::to_string(c), q->constant_stress[c]);
        if (auto q = dynamic_cast<Elasticity_Parameters*>(&m)) { ELASTIC P(pressure_vessel_flag) }
        if (auto q = dynamic_cast<Thermo_Elasticity_Parameters*>(&m)) { ELASTIC }
        if (auto q = dynamic_cast<Heat_Conduction_Parameters*>(&m)) { P(thermal_flag) P(flux_max_flag) P(muelu_parameters_xml_file) P(xml_parameters_file_name) }
        if (auto q = dynamic_cast<Inertial_Parameters*>(&m)) {
            for (int c = 0; c < 3; c++) { put(k + ".enable." + std::to_string(c), (double)(bool)q->enable_inertia_center[c]); put(k + ".center." + std::to_string(c), q->moment_of_inertia_center[c]); }
        }
#undef P
    }
    auto& o = p.optimization_options;
    en("opt.process", o.optimization_process); en("opt.objective", o.optimization_objective); en("opt.density_filter", o.density_filter); en("opt.structure", o.multi_objective_structure);
#define P(x) put("opt." #x, o.x);
    P(maximize_flag) P(normalized_objective) P(method_of_moving_asymptotes) P(simp_penalty_power) P(thick_condition_boundary) P(retain_outer_shell) P(variable_outer_shell)
    P(optimization_output_freq) P(disable_forward_solve_output) P(density_epsilon) P(minimum_density) P(maximum_density) P(shell_density) P(objective_normalization_constant)
    P(num_solve_checkpoints) P(use_solve_checkpoints) P(use_gradient_tally) P(optimization_parameters_xml_file) P(check_objective_gradient) P(use_simpson) P(xml_parameters_file_name) P(max_coord_move_length)
#undef P
    auto& r = o.rol_params;
    put("rol.algorithm", r.subproblem_algorithm_string); put("rol.penalty", r.initial_constraint_penalty); put("rol.step", r.step_tolerance); put("rol.grad", r.gradient_tolerance);
    put("rol.constraint", r.constraint_tolerance); put("rol.limit", r.iteration_limit); put("rol.sublimit", r.subproblem_iteration_limit);
    put("bounds.size", o.volume_bound_constraints.size());
    for (size_t i = 0; i < o.volume_bound_constraints.size(); i++) {
        auto k = "bounds." + std::to_string(i);
        auto& b = o.optimization_bound_constraint_volumes.host(i);
        put(k + ".id", b.id); vol(k + ".volume", b.volume); put(k + ".lower", b.set_lower_density_bound); put(k + ".upper", b.set_upper_density_bound);
    }
    put("objective_regions.size", o.objective_regions.size());
    for (size_t i = 0; i < o.objective_regions.size(); i++) vol("objective_regions." + std::to_string(i), o.optimization_objective_regions.host(i));
    put("topology_on", p.topology_optimization_on); put("shape_on", p.shape_optimization_on);
    put("functions.size", p.Optimization_Module_List.size());
    for (size_t i = 0; i < p.Optimization_Module_List.size(); i++) {
        auto k = "functions." + std::to_string(i);
        en(k + ".module", p.Optimization_Module_List[i]); en(k + ".type", p.Optimization_Function_Type.at(i)); list(k + ".arguments", p.Function_Arguments.at(i));
        put(k + ".fea", p.Optimization_Module_My_FEA_Module.at(i));
    }
    for (size_t i = 0; i < p.fea_module_parameters.size(); i++) list("fea_functions." + std::to_string(i), p.FEA_Module_My_Optimization_Modules.at(i));
    list("multi.modules", p.Multi_Objective_Modules); list("multi.weights", p.Multi_Objective_Weights);
}
static void dump_all(Simulation_Parameters_Implicit& p) { dump(p); }
static void dump_all(Simulation_Parameters_Explicit& p)
{
    dump(p);
    auto& d = p.dynamic_options;
#define P(x) put("dyn." #x, d.x);
    P(cycle_stop) P(time_initial) P(time_final) P(dt_min) P(dt_max) P(dt_start) P(dt_cfl) P(fuzz) P(tiny) P(small) P(print_cycle) P(rk_num_stages) P(rk_num_bins) P(time_value) P(dt)
#undef P
    en("dyn.output_time_sequence_level", d.output_time_sequence_level);
    outopt("explicit_output", p.output_options);
    put("explicit_output.graphics_step", p.output_options.graphics_step); put("explicit_output.graphics_dt_ival", p.output_options.graphics_dt_ival);
    put("explicit_output.graphics_cyc_ival", p.output_options.graphics_cyc_ival); put("explicit_output.graphics_time", p.output_options.graphics_time);
    put("explicit_output.graphics_times0", p.output_options.graphics_times(0)); put("explicit_output.graphics_id", p.output_options.graphics_id);
}

// which volumes hold which points
static void points(Simulation_Parameters& p, const char* file)
{
    std::vector<Volume*> all;
    for (auto& r : p.regions) all.push_back(&r.volume);
    for (auto* v : all) { if (v->type == VOLUME_TYPE::stl) v->stl_to_voxel(); if (v->type == VOLUME_TYPE::vtk) v->vtk(); }
    std::ifstream in(file);
    double x[3];
    while (in >> x[0] >> x[1] >> x[2]) {
        fprintf(out, "inside ");
        for (auto* v : all) fprintf(out, "%d", (int)v->contains(x));
        fprintf(out, "\n");
    }
}
template<typename T> static void run(char** argv)
{
    std::string deck = argv[2];
    T p;
    Yaml::from_file_strict(deck, p);
    out = fopen((deck + ".1").c_str(), "w");
    dump_all(p);
    fclose(out);
    if (std::string(argv[3]) != "-") {
        out = fopen((deck + ".3").c_str(), "w");
        points(p, argv[3]);
        fclose(out);
    }
}
int main(int argc, char** argv)
{
    for (int a = 1; a + 2 < argc; a += 3) {
        try {
            if (argv[a][0] == 'e') run<Simulation_Parameters_Explicit>(argv + a - 1); else run<Simulation_Parameters_Implicit>(argv + a - 1);
            printf("OK\n");
        } catch (Yaml::ConfigurationException& e) {
            printf("CONFIG %s\n", e.what());
        } catch (std::exception& e) {
            printf("OTHER %s\n", e.what());
        }
        printf("=====\n");
        fflush(stdout);
    }
    return 0;
}
