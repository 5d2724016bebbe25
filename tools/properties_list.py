T30 = "The 30 existing tests are fixed examples of the serialisation layer; "
prop("C01", "Any text given to the YAML reader ends in a tree or a YAML error",
     "For every byte sequence, reading it as YAML ends in bounded time with either a tree or a YAML error, never with a crash, a memory error, a leak or another kind of exception. A text gives the same outcome whether it comes from a string, a buffer, a stream or a file, and a file that cannot be opened is reported as an error. The library's and the application's copy of the reader agree on every text.",
     ["inputs"], "all byte sequences, all four ways of handing them over, both copies of the reader",
     T30 + "they feed a handful of well-formed texts and nothing damaged.",
     [LY + "/src/Yaml.cpp", MP + "/input/Yaml.cpp"],
     [("line splitting, tokenising, structure checks", LY + "/src/Yaml.cpp"), ("exceptions derived from one base", LY + "/include/Yaml.hpp")],
     ["Parse() outcome", "sanitizer reports"], "generated-input search (grammar-based, mutation) under sanitizers with a differential oracle",
     "Explores tens of thousands of generated texts per run under ASan/UBSan/LSan; cross-checks four input paths and two copies. Not exhaustive.")
prop("C02", "A tree written as YAML reads back as the same tree",
     "Every tree of maps, sequences and scalars that is written as YAML text reads back as an equal tree, whatever the indentation, folding width and layout options, and whatever marks or line breaks the scalars contain. Writing does not change the tree, and writing the tree that was read gives the same text. Writing to a string, a stream and a file gives the same text, and an indentation below two is refused.",
     ["inputs", "configurations"], "all trees and all writing options (quote characters, '#' in multi-line text, leading blanks and a final line break of one-line text are recorded findings)",
     T30 + "none writes nested trees with marks, multi-line text or options.",
     [LY + "/src/Yaml.cpp", MP + "/input/Yaml.cpp"],
     [("quoting and block scalars in the writer", LY + "/src/Yaml.cpp")], ["Serialize() text", "Parse(Serialize(tree))"],
     "property-based round trip over generated trees and options", "Round trip against the generated tree for both copies of the writer/reader.")
prop("C03", "YAML documents mean what the supported notation says",
     "A document in the supported notation (block maps and lists, plain, quoted, literal and folded scalars, comments, blank lines, document markers, any consistent indentation, either line end) reads as exactly the tree it denotes. Structurally damaged documents (tabs as indentation, control characters, keys among list items, missing keys, stray deeper lines) are rejected with an error. Scalars convert to numbers, booleans and text by value, and fall back to the given default when they cannot.",
     ["inputs", "programs"], "all documents of the supported notation, in every style of writing one tree",
     T30 + "styles, nesting and comments combine in more ways than examples list.",
     [LY + "/src/Yaml.cpp", MP + "/input/Yaml.cpp"],
     [("indentation-driven parser", LY + "/src/Yaml.cpp")], ["tree read by Parse()", "As<T>()"],
     "property-based model comparison: documents printed from a known tree", "The tree that a document was printed from is the oracle; damaged documents must raise.")
prop("C04", "A YAML node behaves as an ordered list or a key-to-value map",
     "Under every sequence of pushes, insertions, erasures, assignments, clears, copies and lookups a node behaves like an ordered list or a map from key to node: sizes, types, contents and iteration order (by position, by key) agree with that model after every step. Copies are deep and independent, iteration visits every child once and ends, and every operation ends.",
     ["histories"], "all operation histories on a node and its children",
     T30 + "none runs histories of edits.",
     [LY + "/src/Yaml.cpp", MP + "/input/Yaml.cpp"],
     [("sequence, map and scalar implementations behind Node", LY + "/src/Yaml.cpp")], ["Node public interface"],
     "stateful model-based testing", "Histories against a list/map model under sanitizers; erasing anywhere but at the end of a list is outside the model (positions keep their numbers there).")
prop("C05", "Serializable objects survive being written and read back",
     "An object of any serializable type (numbers, text, enumerations, nested objects, vectors, sets, fixed-size arrays, optionals, shared pointers) that is written as YAML and read back, leniently or strictly, equals the original in every field. A field that the text leaves out keeps its value, bracketed and dashed lists mean the same, and several objects written into one text or read from one text stay independent.",
     ["inputs", "programs"], "all values of serializable types, all subsets of fields, all list notations",
     T30 + "they check a few values of a few types.",
     [LY + "/include"], [("per-type serialization templates", LY + "/include/yaml-serializable-containers.h"), ("field macros", LY + "/include/yaml-serializable.h")],
     ["to_string / from_string / from_string_strict"], "property-based round trip over generated objects", "One test type holding every supported field kind, with generated contents.")
prop("C06", "Bad configuration text is reported at the place where it is wrong",
     "Strict reading reports every field the object does not have, reading reports every missing required field, misspelt enumerator, text that is no number and fixed-size list of the wrong length, and the message names the offending field with its full path. Validation and derived-value hooks of an object and its bases run exactly once per reading, bases first. A correct text raises nothing.",
     ["inputs", "programs"], "all texts with one defect at any place of the object tree, all class hierarchies with hooks",
     T30 + "errors are checked at one or two places only.",
     [LY + "/include"], [("strict set difference", LY + "/include/yaml-serializable.h"), ("hook calls through base classes", LY + "/include/yaml-post-processing.h"), ("configuration errors with paths", LY + "/include/configuration-validation.h")],
     ["exceptions and their messages", "hook call order"], "property-based fault injection into generated texts", "Every injected defect must be reported with its path; every correct text must pass.")
prop("C07", "Type fields always select the matching type",
     "Reading a value of a discriminated family builds exactly the type its type field names, on its own, in lists and behind shared or unique pointers, and writing and reading such values preserves their types and fields. A missing or unknown type value is reported and never yields a base object. Dispatch on a type calls the handler of that type once.",
     ["inputs", "programs"], "all values of discriminated families and all values of the type field",
     T30 + "they cover one family and two types.",
     [LY + "/include"], [("registry from type value to constructor", LY + "/include/type-discrimination.h"), ("registry lookup", LY + "/include/type-discrimination.h")],
     ["dynamic type and fields after reading"], "property-based round trip and error injection", "A family of three derived types, in lists and behind pointers; all errors must be reported.")

TMP = "the existing tests do not run the multiphysics application at all; its standard results are a few fixed decks"
prop("C12", "Regions set the initial state exactly where and as the deck says",
     "Every region paints the elements whose centre its volume covers, in deck order: a full fill replaces what was there, a partial fill adds its material or replaces its own earlier fill. The initial volume fractions, densities, energies, masses and nodal velocities are those of the last region that painted there.",
     ["inputs", "configurations"], "all lists of regions over all volume types, volume fraction and velocity fields, materials, meshes and element orders",
     TMP + ", which place at most two or three regions.",
     [MP + "/common/src/region_fill.cpp", MP + "/common/include/region.hpp", MP + "/common/include/state.hpp"],
     [("painting of regions on elements and nodes", MP + "/common/src/region_fill.cpp"), ("state of the painted materials", MP + "/common/src/region_fill.cpp")],
     ["written element, material and nodal fields of the initial output"], "property-based differential testing against a model of the regions",
     "A numpy model paints the same regions; points within rounding of a surface are left out.")
prop("C13", "Velocity and stress boundary conditions act on exactly the tagged surface",
     "A boundary condition acts on all nodes of the outer faces that lie on its surface and on nothing else. Wherever it acts, the velocities or forces after every step are those its model prescribes, in deck order; elsewhere the motion is that of a free surface.",
     ["inputs", "configurations", "histories"], "all lists of velocity and stress conditions on planes, cylinders and spheres, on all meshes",
     TMP + ", which only have symmetry planes and a few pistons.",
     [MP + "/common/include", MP + "/common/src", MP + "/Solvers/SGH_solver_3D/src"],
     [("tagging of boundary faces", MP + "/common/src"), ("velocity conditions", MP + "/Solvers/SGH_solver_3D/src/boundary.cpp"), ("condition models", MP + "/common/include")],
     ["written nodal velocities and accelerations"], "property-based differential testing against a model of the conditions",
     "Conditions are generated per face and surface, with times and directions; a numpy model repeats each step with them.")
prop("C15", "Each time step follows the published staggered-grid hydrodynamics scheme",
     "In a 3D gas dynamics run, every step takes the state of one output to the state of the next exactly as the staggered-grid scheme with MARS dissipation prescribes: nodal acceleration, velocity, position, internal energy, density, pressure and sound speed of every material, for one, two and three stage time integration. This holds for any valid mesh, ordering of nodes and elements, material mixture, erosion threshold and dissipation coefficients, plain or directional.",
     ["inputs", "configurations"], "all meshes of hexahedra, states, gamma-law and void materials, mixtures of two materials, dissipation and erosion settings",
     TMP + ", which fix one mesh and material each.",
     [MP + "/Solvers/SGH_solver_3D/src", MP + "/common/src"],
     [("corner forces", MP + "/Solvers/SGH_solver_3D/src/force_sgh.cpp"), ("momentum and energy updates", MP + "/Solvers/SGH_solver_3D/src/sgh_execute.cpp"), ("state update", MP + "/Solvers/SGH_solver_3D/src/properties.cpp")],
     ["written node, element and material fields of consecutive steps"], "property-based differential testing against an independent model of one step",
     "Every step of every generated run is repeated by a numpy model from the program's own previous state; ties of limiter branches are left out.")
prop("C16", "A run conserves mass, momentum and total energy",
     "In a gas dynamics run without external work, the mass of every node and material never changes, nodal and material masses add up to the same total, and the sum of kinetic and internal energy stays constant to rounding for any mesh, materials, regions, wall and free boundaries, number of stages and steps. Without boundary constraints the total momentum stays constant. The energies the program prints are those of its fields.",
     ["inputs", "configurations", "histories"], "all meshes, material mixtures, regions and boundary conditions that do no work",
     TMP + "; conservation must hold for every problem.",
     [MP + "/Solvers/SGH_solver_3D/src"], [("compatible energy update", MP + "/Solvers/SGH_solver_3D/src/energy_sgh.cpp"), ("corner mass sums", MP + "/Solvers/SGH_solver_3D/src/sgh_setup.cpp"), ("energy report", MP + "/Solvers/SGH_solver_3D/src/sgh_execute.cpp")],
     ["written fields", "printed energies"], "property-based invariant checking over generated runs", "Totals recomputed from the written fields at every output.")
prop("C18", "Results do not depend on the schedule of parallel loops",
     "A run gives the same outputs in whatever order, and on however many threads, the iterations of its parallel loops are executed, and wherever its data lives between host and device copies. No two iterations of a parallel loop conflict on a datum and nothing outside the allocated data is read or written.",
     ["schedules", "inputs"], "all schedules of the parallel loops of all runs",
     TMP + ", and never under another schedule than the built one.",
     [MP + "/Solvers", MP + "/common", MP + "/material_models"], [("parallel loops of the solvers", MP + "/Solvers"), ("state fields and output fields", MP + "/common/include")],
     ["written fields of every output", "sanitizer reports"], "schedule fuzzing of generated decks under a thread sanitizer", "Each generated deck runs under several schedules and sanitizers and is compared field by field; the loops run on a stand-in of the parallel library.")
prop("C20", "Axisymmetric runs follow the area-weighted scheme and conserve",
     "In a 2D axisymmetric gas dynamics run, every step is the one the area-weighted staggered-grid scheme prescribes, nodal masses on the axis included, and nodal, material and total masses and the sum of kinetic and internal energy never change. This holds for any box, polar or file mesh, ordering of its nodes and elements, materials, mixtures, walls and number of stages.",
     ["inputs", "configurations", "histories"], "all meshes of quadrilaterals, states, materials, mixtures, dissipation and erosion settings",
     TMP + ", with three axisymmetric problems.",
     [MP + "/Solvers/SGH_solver_rz/src", MP + "/common/include/mesh_io.hpp", MP + "/driver.cpp"],
     [("corner forces", MP + "/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp"), ("momentum, energy and nodal mass updates", MP + "/Solvers/SGH_solver_rz/src")],
     ["written node, element and material fields of consecutive steps"], "property-based differential testing against an independent model of one step and conservation invariants",
     "Every step of every generated run is repeated by a numpy model; ties of limiter branches are left out.")
prop("C23", "Solids yield and carry shear stress as the elastic-plastic law prescribes",
     "In 3D and axisymmetric runs with elastic-plastic strength, the stress deviator of every material evolves by the objective (Jaumann) rate of linear elasticity with the deck's shear modulus and is returned to the deck's yield stress, so that the equivalent stress never exceeds it; it stays symmetric, and it acts on the motion and the energy, total energy being conserved. The pressure and sound speed of linear elastic materials follow from the deck's moduli and reference density, and materials without strength carry no shear. (The shear and rotation terms of the axisymmetric model are a recorded finding.)",
     ["inputs", "configurations", "histories"], "all meshes, states, moduli, yield stresses, mixtures of solids and gases, dissipation and erosion settings",
     TMP + ", which hold one copper rod in 3D and one axisymmetric.",
     [MP + "/material_models/strength/decoupled_plasticity.hpp", MP + "/material_models/eos/elasticity.hpp", MP + "/Solvers/SGH_solver_3D/src/properties.cpp", MP + "/Solvers/SGH_solver_rz/src/properties_rz.cpp"],
     [("stress rate and return", MP + "/material_models/strength/decoupled_plasticity.hpp"), ("where the stress is updated", MP + "/Solvers/SGH_solver_3D/src/sgh_execute.cpp"), ("stress in the corner forces", MP + "/Solvers/SGH_solver_3D/src/force_sgh.cpp")],
     ["written stress, velocity, energy, pressure and sound speed of consecutive steps"], "property-based differential testing against an independent model of one step and invariants",
     "Every step of every generated run is repeated by a numpy model; in axisymmetric runs the model also has the recorded faulty rate, and anything that follows neither is a violation.")
prop("C24", "Materials that share an element relax to a common pressure",
     "In a 3D run with the Tipton model, after every stage the volume fractions of the materials in an element move towards equal pressure and share the element's volume change by their compressibilities, limited by the deck's share of the smallest fraction, and the energy, density, pressure and sound speed follow. Fractions stay between zero and one, their sum and the total energy are kept, and elements with one material are untouched. Without a model for them the fractions never change.",
     ["inputs", "configurations", "histories"], "all meshes, mixtures of two and three gases, velocities, model parameters, stages",
     TMP + ", and check one-dimensional results of two decks.",
     [MP + "/material_models/equilibration", MP + "/Solvers/SGH_solver_3D/src/sgh_execute.cpp", MP + "/input/parse_material_inputs.cpp"],
     [("relaxation of volume fractions", MP + "/material_models/equilibration/src/tipton_equilibration.cpp"), ("model choice from the deck", MP + "/input/parse_material_inputs.cpp")],
     ["written volume fraction, energy, density and pressure of consecutive steps"], "property-based differential testing against an independent model of one step and invariants",
     "Every step of every generated run is repeated by a numpy model of the scheme with relaxation.")
prop("C25", "Bodies in contact push each other apart and conserve momentum",
     "In a 3D run with contact on all surfaces, two separate bodies move as if the other were not there until they touch; from then on they push each other away from each other, so that at their first contact none is pulled, and bodies that overlap face to face are pushed. Total momentum never changes. Which axis the bodies meet along makes no difference up to and including first contact.",
     ["inputs", "configurations", "histories"], "all pairs of boxes of hexahedra, offsets, approach speeds, materials, iteration limits of the deck",
     TMP + ", and no deck among them has contact.",
     [MP + "/Solvers/SGH_solver_3D/src/contact.cpp", MP + "/Solvers/SGH_solver_3D/src/boundary.cpp"],
     [("search, contact forces and their application", MP + "/Solvers/SGH_solver_3D/src/contact.cpp")],
     ["written nodal velocities and masses of consecutive steps"], "property-based metamorphic testing (runs without contact, permuted axes) and invariants over the history",
     "The contact forces themselves have no reference model; runs are judged by what they keep and against runs of related decks.")
prop("C21", "Heat conduction runs follow the deck's materials, sources and surfaces",
     "In a heat conduction run, every step changes the nodal temperatures as the conduction scheme prescribes: fluxes from the conductivity of each region, heat capacity from its density and specific heat, given temperatures, convection with the deck's reference temperature and film coefficient, radiation, a source that follows its tool path, and tabulated properties read from the named file and interpolated. An isolated body keeps its heat. The mesh never moves.",
     ["inputs", "configurations"], "all meshes of hexahedra, temperature fields, material properties and tables, surface conditions, stages and time steps",
     TMP + ", with two fixed heat problems.",
     [MP + "/Solvers/SGTM_solver_3D/src", MP + "/input/read_abaqus_files.cpp"],
     [("heat flux, sources and surface conditions", MP + "/Solvers/SGTM_solver_3D/src"), ("tables of material properties", MP + "/common")],
     ["written nodal temperatures of consecutive steps"], "property-based differential testing against an independent model of one step",
     "Every step is repeated by a numpy model from the previous output; elements that hold more than one material are left out.")
prop("C19", "Time steps and outputs are those the deck asks for",
     "Each solver of a run starts where the one before ended, and ends at its own end time or the final time, whichever is first. Every step is the largest that respects the growth limit, the bounds of the deck, the stability of every element, the next output time and the end. Outputs are written at the start, at every output interval, every given number of cycles, at the cycle limit and at the end, each with the time and state reached.",
     ["inputs", "configurations", "histories"], "all step bounds, stability factors, end times, cycle limits, output intervals and sequences of solvers",
     TMP + ", and their decks use one solver and one output interval.",
     [MP + "/Solvers", MP + "/driver.cpp", MP + "/common/include/mesh_io.hpp"],
     [("cycle loops and step selection", MP + "/Solvers"), ("start and end times of the solvers", MP + "/driver.cpp")],
     ["number, times and states of the outputs"], "property-based differential testing against a model of the cycle loop",
     "The model picks each step from the state of the program's last output, advances it by the reference scheme and predicts every output; the quasi-static solver, which has no scheme yet, is not covered.")

prop("C22", "Level set runs move the front as the deck's speeds prescribe",
     "In a level set run, the initial field is the one the regions paint, and every step changes the field of every evolving element as the upwind scheme prescribes: nodal gradients pointing towards larger values, front motion at the speed of each material, redistancing towards unit slope, surface conditions in deck order. Fields of materials without a level set never change. The mesh never moves.",
     ["inputs", "configurations"], "all 2D and 3D meshes, initial fields, materials with advancing, receding and resting fronts, surface conditions and stages",
     TMP + ", with one fixed level set problem.",
     [MP + "/Solvers/level_set_solver/src", MP + "/common/src/region_fill.cpp"],
     [("gradients, front motion and surface conditions", MP + "/Solvers/level_set_solver/src"), ("initial fields", MP + "/common/src/region_fill.cpp")],
     ["written level set and gradients of consecutive steps"], "property-based differential testing against an independent model of one step",
     "Every step is repeated by a numpy model from the previous output; elements whose step hangs on rounding (zero gradient, zero upwind weight) and their neighbours are left out.")
prop("C08", "A deck with a mistake in it is refused before anything is computed",
     "For every deck of every solver, an unknown or misspelt entry or word at any place, a required entry left out, an id that does not exist or is given twice, models and parameters that contradict each other, the dimension or the mesh source, a negative density or end time, and a deck that cannot be read end the program with a nonzero status and without any results. Decks without a mistake are accepted.",
     ["inputs", "configurations"], "all decks with one mistake",
     TMP + ".",
     [MP + "/input", MP + "/driver.cpp"],
     [("validation of every block of a deck", MP + "/input"), ("reading of the deck", MP + "/driver.cpp")],
     ["exit status", "absence of result files"], "property-based fault injection into generated decks",
     "Reading outside of arrays counts as acceptance. Text that is no number is recorded as a finding: it counts as zero. Sections left out altogether are not required to be refused.")

prop("C09", "The mesh that is solved on is the one the deck describes",
     "A mesh generated from the deck (box, polar) or read from a file (Ensight, Abaqus, VTK, VTU; any element order, numbering and layout the format allows) has exactly the nodes, elements, node order, scaled coordinates and element volumes described, and the written mesh reads back as the same mesh. A mesh that cannot be had (missing file, unknown format, source or type, no nodes, radius below the axis) ends the run with an error.",
     ["inputs", "configurations"], "all boxes, polar meshes and mesh files of hexahedra or quadrilaterals in the supported formats, with scale factors",
     TMP + ", and no test reads a mesh.",
     [MP + "/common/include/mesh_io.hpp"],
     [("mesh readers and builders", MP + "/common/include/mesh_io.hpp"), ("geometry of the elements", MP + "/common/include/geometry_new.hpp")],
     ["mesh and volumes of the first output", "exit status"], "property-based round-trip and differential testing of generated meshes",
     "High-order meshes are left out: no solver runs on them. Damaged files other than those named are not required to be rejected.")

prop("C10", "Every output format and choice of fields tells the same run",
     "The graphics files, the state files, both together and the EnSight files of a run state the same meshes, nodal and material fields, times and number of outputs, element values being the averages over the materials of the element. The time series lists exactly the files that exist, with their times. Choosing fields or a format decides what is written and changes no value.",
     ["inputs", "configurations"], "all problems, formats, choices of fields and output times",
     TMP + ".",
     [MP + "/common/include/mesh_io.hpp"],
     [("writers of graphics, state and EnSight files", MP + "/common/include/mesh_io.hpp")],
     ["graphics, state and EnSight files", "time series"], "property-based metamorphic testing between the formats",
     "Gas-dynamics solvers only: the level set solver supports the graphics format alone. The mass comes with the specific energy, whose average it weighs. Outputs are further apart than the digits of the times in file names.")

MI = "apps/micromechanics"
prop("C28", "Micromechanics command lines and grid descriptions mean what they say",
     "Every command line of the micromechanics programs, whatever the form, order, shortening and repetition of its options, yields exactly the given file names, dataset paths, file type and angle unit, the last one given counting. A command line without an input file, with an unknown, unclear or incomplete option, or with an incomplete HDF5 description ends with the help text and exit status 1. The XDMF description of a grid is well-formed and states the grid's points, cells and every attribute with its type, precision and location.",
     ["inputs"], "all argument vectors; all grid sizes and lists of attributes",
     "No test runs the command line or the writer.",
     [MI + "/EVPFFT/src/command_line_args.cpp", MI + "/EVPFFT/src/XdmfUniformGridWriter.cpp"] + [MI + "/%s/src/%s" % (a, b) for a in ("LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT") for b in ("command_line_args.cpp", "XdmfUniformGridWriter.cpp")],
     [("command line", MI + "/EVPFFT/src/command_line_args.cpp"), ("XDMF writer", MI + "/EVPFFT/src/XdmfUniformGridWriter.cpp")],
     ["values read from the command line", "exit status and help text", "XDMF files"], "property-based testing against a model of option parsing, and round trips through an XML parser",
     "Numbers are integers: what another text means as a file type is not specified. Names are free of XML markup, as all names the programs use are.")

prop("C27", "The crystal plasticity solver reproduces the elasto-viscoplastic FFT scheme",
     "For every microstructure, set of phases, load, hardening and thermal strain the small strain crystal plasticity solver writes the macroscopic record, local fields, moved grid, orientation colours and final texture that the elasto-viscoplastic FFT scheme prescribes. Mean stress and strain components take the values given for them, the stress is in equilibrium, plastic flow follows the power law of every slip system and slip resistances the hardening law. Microstructures given as text, as HDF5 arrays (angles in degrees or radians) or as a VTK lattice, and steps given as times or as strains, mean the same.",
     ["inputs"], "all microstructures, materials, loads and steps for which the iteration converges",
     "The solver has no test of its results; its files are compiled by no test but for command lines.",
     [MI + "/EVPFFT/src/evpal.cpp", MI + "/EVPFFT/src/evpfft.cpp", MI + "/EVPFFT/src/inverse_the_greens.cpp", MI + "/EVPFFT/src/harden.cpp", MI + "/EVPFFT/src/get_smacro.cpp", MI + "/EVPFFT/src/step.cpp", MI + "/EVPFFT/src/data_crystal.cpp", MI + "/EVPFFT/src/data_grain.cpp", MI + "/EVPFFT/src/vpsc_input.cpp", MI + "/EVPFFT/src/kinhard_param.cpp", MI + "/EVPFFT/src/update_orient.cpp", MI + "/EVPFFT/src/update_schmid.cpp", MI + "/EVPFFT/src/write_micro_state.cpp", MI + "/EVPFFT/src/write_texture.cpp"],
     [("stress update", MI + "/EVPFFT/src/evpal.cpp"), ("fixed point of the polarisation", MI + "/EVPFFT/src/evpfft.cpp"), ("Green operator", MI + "/EVPFFT/src/inverse_the_greens.cpp")],
     ["vm.out, str_str.out, err.out", "fields of every output", "tex.out"], "property-based testing: random polycrystals and loads against an independent implementation of the scheme",
     "Grids of at most some hundred voxels and few steps; runs whose iteration ends within rounding of its limit, or diverges, are not compared.")

prop("C29", "Crystal plasticity results do not depend on ranks, axes, numbering or solver",
     "All four crystal plasticity solvers give the same fields, grid and macroscopic record on any number of processes, with the microstructure shifted or turned together with load and axes, with grains or phases renumbered or a phase split in two alike, and in other units of stress, time and (where lengths have no part) length. At vanishing strain the large strain solvers agree with the small strain solver. Every cell of the grid is written exactly once, at its place, whatever the number of processes.",
     ["inputs", "configurations"], "all microstructures, loads, ranks and rotations of the grid onto itself for which the iteration converges",
     "No test runs a solver, let alone on several processes.",
     [MI + "/%s/src" % v for v in ("EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT")],
     [("distribution of the grid", MI + "/EVPFFT/src/FFT3D_R2C.h"), ("moved grid", MI + "/LS-EVPFFT/src/update_grid_velgrad.cpp"), ("non-periodic boundary", MI + "/LSNP-EVPFFT/src/update_grid.cpp"), ("output", MI + "/LS-EVPFFT/src/write_micro_state.cpp")],
     ["vm.out, str_str.out, err.out", "fields and grid of every output"], "property-based testing with metamorphic and differential relations between runs of the four solvers",
     "Processes are forked with a small stand-in for MPI and heFFTe, whose boxes are those of the real libraries' default decomposition. Mirror images need odd sides (a wave of half the length of a side has none).")

MBP = "legacy/Fierro_V0/src/Mesh-Builder"
prop("C31", "Mesh builder meshes are the ones their descriptions define",
     "For every box or cylinder description (2D or 3D, any order, origin, radius, starting and angular length, full circles closed) the written VTK or Ensight mesh has exactly the points, elements, node order and cell types described. A mesh written as VTK text reads back as the same mesh with the same dimension, order and connectivity, also when a process writes and reads several. Inconsistent descriptions (lists of differing lengths, no elements along an axis, order 0, angles beyond a full circle, unknown, missing or misspelt entries) are reported as errors.",
     ["inputs"], "all descriptions of boxes and cylinders",
     "The mesh builder's own tests are not built, and look at counts only.",
     [MBP + "/src/MeshBuilder.cpp", MBP + "/src/VtkIO.cpp", MBP + "/src/EnsightIO.cpp", MBP + "/include"],
     [("points, connectivity, cylinder transform", MBP + "/src/MeshBuilder.cpp"), ("derived sizes and validation", MBP + "/include/MeshBuilderInput.h"), ("VTK reader, writer and node orders", MBP + "/src/VtkIO.cpp")],
     ["written mesh files", "mesh read back", "errors"], "property-based differential testing against a geometric model, and round trips",
     "Coordinates are compared to the six digits the formats carry; orders up to 4.")

LP = "legacy/Fierro_V0/src/Parallel-Solvers"
VXP = "legacy/Fierro_V0/src/Voxelizer"
prop("C34", "Legacy solver decks are read exactly, or refused with the reason",
     "Reading a deck of the legacy explicit or implicit solver yields exactly the configuration it describes: every given value, the documented default of every entry left out, and every derived quantity (densities and energies of regions, options of modules, boundary conditions, Gauss points, solver settings). Volumes of regions hold exactly the points inside their box, sphere, cylinder, voxel file or STL solid. A deck with an unknown, missing, malformed, contradictory or out-of-range entry is refused with an error that names it.",
     ["inputs", "configurations"], "all decks of both legacy solvers; all volumes and points",
     "No test reads a deck of the legacy solvers.",
     [LP + "/Simulation_Parameters", LP + "/Simulation_Parameters/Geometry.h", "legacy/Fierro_V0/src/Yaml-Serializable/include"],
     [("values, defaults, derived fields and validation of decks", LP + "/Simulation_Parameters"), ("volumes", LP + "/Simulation_Parameters/Geometry.h")],
     ["configuration the solvers see", "points inside volumes", "errors"], "property-based testing against the generator's own knowledge of each deck, and fault injection",
     "Decks always define material id 0, which modules the reader adds by itself refer to; cylinders are about the z axis through zero, as the solver's geometry has it.")
prop("C32", "Voxelizing a closed surface marks exactly the cells inside it",
     "For a binary STL file of a closed surface, the voxelizer writes and returns a grid with the requested counts over the solid's bounding box (or the requested origin and lengths) in which a cell is material exactly when its centre is inside the surface, whatever the order, orientation, normals or position of the facets. A file that is missing or is no complete binary STL file is refused, and no grid is written.",
     ["inputs"], "all closed surfaces, grid sizes, origins and lengths",
     "No test runs the voxelizer.",
     [VXP + "/src/stl-to-voxelvtk.cpp", VXP + "/src/main.cpp"],
     [("extents, ray crossings and voting", VXP + "/src/stl-to-voxelvtk.cpp"), ("arguments of the program", VXP + "/src/main.cpp")],
     ["written grid", "returned cells and spacing", "exit status"], "property-based differential testing against winding numbers from solid angles",
     "Centres closer to the surface than a thousandth of a cell are left out; surfaces that cross themselves are not generated.")
