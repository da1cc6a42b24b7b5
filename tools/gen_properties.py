#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording and anchors are reviewable)."""
import json, os
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","Mesh connectivity: every edge is exactly one face, with mutual neighbours",
"For every valid mesh file, each element edge becomes exactly one of: one half of an internal face, one half of a levee (weir) face, or one boundary segment of the type its boundary section prescribes; neighbour relations are mutual and both halves denote the same edge (or the paired edges of the levee). "
"The mesh objects that are built contain each element, face and boundary segment once, the two sides of a face have opposite unit normals and see the same physical quadrature points in reversed order, and inputs that leave an edge unclassified are refused rather than silently dropped.",
["inputs"],"all conforming triangulations (any element/node numbering, nodes of an element listed from any of them in either direction), boundary partitions, islands and levees",
"Unit tests read two or three fixed meshes; connectivity must hold for every triangulation, numbering and boundary assignment.",
["source/preprocessor/mesh_metadata.cpp","source/preprocessor/ADCIRC_reader/adcirc_format.cpp","source/preprocessor/initialize_mesh.hpp","source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp","source/problem/SWE/problem_preprocessor/swe_pre_create_bound.hpp","source/geometry/mesh.hpp","source/geometry/interface.hpp","source/shape/shapes_2D/shape_straighttriangle.cpp"],
[("edge dictionary","source/preprocessor/mesh_metadata.cpp"),("boundary type lookup","source/preprocessor/ADCIRC_reader/adcirc_format.cpp"),("raw boundary pairing","source/preprocessor/initialize_mesh.hpp"),("face creation","source/problem/SWE/problem_preprocessor")],
observe=["mesh metadata after reading a mesh file","interfaces/boundaries of the initialised mesh"])

add("C02","Mesh and metadata files round-trip without loss",
"Writing a mesh (ADCIRC fort.14 form, the native metadata form, or the distributed-boundary form) and reading it back yields the same mesh: same nodes with coordinates and depth, same elements with node order, same boundary and levee sections, same neighbours and same distributed-boundary lists. "
"Coordinates survive to the precision of the format, and optional trailing sections may be present or absent without changing the rest.",
["inputs"],"all meshes with any mix of open, land, island, flow, levee and generic boundary sections",
"Tests round-trip one sample file; they do not reach absent sections, islands, several levees, or large/small coordinates.",
["source/preprocessor/ADCIRC_reader/adcirc_format.cpp","source/preprocessor/mesh_metadata.cpp","source/preprocessor/mesh_metadata.hpp"],
[("fort.14 reader/writer","source/preprocessor/ADCIRC_reader/adcirc_format.cpp"),("metadata reader/writer","source/preprocessor/mesh_metadata.cpp")],
observe=["files written and re-read"])

add("C03","Configuration: complete inputs are honoured exactly, incomplete ones refused",
"A run configuration is accepted if and only if all mandatory entries are present and readable and the problem, the mesh format and the coordinate system are known ones; every accepted value reaches the run unchanged (polynomial order, times, step, scheme, gravity and densities, initial state, friction, limiter, wetting-drying, output), and omitted optional entries take their documented defaults. "
"An optional section of the shallow water problem that is incomplete or names an unknown option is complained about and leaves its defaults; mandatory entries, the output and load balancing sections must be complete, friction coefficients must not be negative, output and meteorological frequencies must be positive, and times and numbers must be readable - otherwise the configuration is refused before anything is computed. "
"Writing an accepted configuration back out and reading it again gives the same configuration.",
["inputs","configurations"],"all combinations of present/absent keys and option values of the YAML input",
"Tests read two or three sample inputs; the space of key combinations and values is not sampled and write-back is compared for one of them.",
["source/preprocessor/input_parameters.hpp","source/problem/SWE/problem_input/swe_inputs.cpp","source/problem/SWE/problem_input/swe_inputs.hpp","source/problem/SWE/problem_preprocessor/swe_pre_init_prob_params.hpp"],
[("YAML parsing","source/preprocessor/input_parameters.hpp"),("SWE problem node","source/problem/SWE/problem_input/swe_inputs.cpp"),("applied parameters","source/problem/SWE/problem_preprocessor/swe_pre_init_prob_params.hpp")],
observe=["parsed configuration, the re-emitted file, and the run's physical parameters"])

add("C04","Partitioning: submeshes cover the mesh exactly and agree on every cut face",
"For every assignment of elements to submeshes and of submeshes to ranks, each element of the input mesh appears in exactly one submesh with its global identity, nodes and coordinates, uncut edges keep their type and neighbour, and each cut internal or levee face becomes a distributed face in both owning submeshes. "
"For every pair of adjacent submeshes the two distributed-boundary lists name the same faces in the same order with mutually matching element, face, submesh and rank ids, and the rewritten input refers to these files.",
["inputs","configurations"],"all meshes, numbers of submeshes and ranks, and all element-to-submesh assignments the graph partitioner may return",
"The partitioner test needs a library that is not available and checks one mesh; the guarantee must hold for whatever assignment the graph library returns.",
["partitioner/partitioner.cpp","partitioner/partition.cpp","partitioner/partition_type.hpp","partitioner/write_distributed_interfaces.cpp","source/preprocessor/mesh_metadata.cpp"],
[("submesh construction","partitioner/partition.cpp"),("distributed boundary lists","partitioner/write_distributed_interfaces.cpp")],
observe=["files the partitioner writes"])

add("C05","Halo exchange: messages matched, of the right stage, read only when complete",
"In a distributed run, for any number of ranks, submeshes per rank and threads, each submesh sends exactly one message per neighbour and exchange and the matching receive is for the same pair, kind, size and stage; data is read only after the receive completed and a send buffer is rewritten only after the send completed. "
"No schedule of ranks, threads and message deliveries deadlocks, loses or reorders an exchange, and each submesh is advanced by exactly one thread.",
["schedules","configurations"],"all interleavings of ranks and threads and all message delivery orders, for any decomposition",
"No test runs with more than one rank; schedules and decompositions are not enumerable by running the program.",
["source/communication/ompi_communicator.cpp","source/communication/ompi_communicator.hpp","source/communication/db_data_exchanger.hpp","source/simulation/ompi/simulation_ompi.hpp","source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp","source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp","source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp","source/problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_ompi.hpp"],
[("persistent requests and buffers","source/communication/ompi_communicator.cpp"),("exchange order within a stage","source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp"),("thread ranges and barriers","source/simulation/ompi/simulation_ompi.hpp")],
observe=["MPI calls of the distributed executable"])

add("C06","A distributed run computes what the serial run computes",
"For any decomposition of the mesh into submeshes, ranks and threads, after every time step each element's state in the distributed run equals the state of the same element in the serial run on the whole mesh, up to floating-point rounding. "
"This holds with land, tide, flow and levee boundaries, wetting and drying, and slope limiting, whichever faces are cut.",
["configurations","inputs","schedules"],"all decompositions, boundary types, post-processing options and discretizations",
"No test compares the two; scripts do it by hand for one mesh and one partition.",
["source/problem/SWE/discretization_RKDG/dist_boundary_conditions","source/problem/SWE/discretization_RKDG/kernels_processor","source/problem/SWE/discretization_EHDG/dist_boundary_conditions","source/problem/SWE/discretization_EHDG/kernels_processor","source/problem/SWE/problem_slope_limiter","source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp","source/geometry/boundary.hpp"],
[("distributed faces","source/problem/SWE/discretization_RKDG/dist_boundary_conditions"),("buffer layout","source/communication/db_data_exchanger.hpp"),("parallel stage","source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp")],
observe=["per-element state after each step of both executables"])

add("C07","Water is conserved: no volume appears or disappears in a closed basin",
"In a basin enclosed by land walls without forcing, the total water volume after any number of steps equals the initial volume up to rounding, for every discretization, time scheme, polynomial order, flow state and levee overtopping; slope limiting does not change it, and wetting-drying changes it only by filling nearly empty elements up to the film threshold. "
"What leaves one element through a face enters the neighbour, so each element's volume changes only by the fluxes through its faces.",
["inputs","histories"],"all closed meshes, initial states, numbers of steps, schemes and orders",
"Unit tests exercise single kernels and never check a whole step's balance.",
["source/problem/SWE/discretization_RKDG/kernels_processor","source/problem/SWE/discretization_RKDG/numerical_fluxes","source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp","source/problem/SWE/discretization_EHDG","source/problem/SWE/discretization_IHDG","source/simulation/stepper/explicit_ssp_rk_stepper.hpp","source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp"],
[("antisymmetric interface flux","source/problem/SWE/discretization_RKDG/interface_specializations"),("state update","source/simulation/stepper/explicit_ssp_rk_stepper.hpp")],
observe=["per-element state after each step"])

add("C08","Lake at rest stays at rest over any bathymetry",
"With a level water surface, no initial momentum, no forcing and land walls, the surface stays level and the momentum zero after any number of steps, over any bed shape given at mesh nodes, on any mesh, for every discretization, order and time scheme. "
"With gravity, density and wetting-drying or slope limiting enabled on a fully wet lake this remains so.",
["inputs","histories"],"all bathymetries, meshes, surface levels, orders, schemes",
"No test runs a full step over varying bathymetry and checks the balance.",
["source/problem/SWE/discretization_RKDG/kernels_processor","source/problem/SWE/problem_source/swe_source.hpp","source/problem/SWE/problem_flux","source/problem/SWE/discretization_EHDG/kernels_processor","source/problem/SWE/discretization_IHDG/kernels_processor","source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"],
[("pressure split and hydrostatic source","source/problem/SWE/problem_flux and problem_source")],
observe=["per-element state after each step"])

add("C09","Time stepping: schemes have their stated order, clock and ramp follow the steps",
"Each offered explicit scheme (order, stages) integrates every ordinary differential equation to its stated order, a time-dependent forcing being evaluated at the scheme's own stage times; other combinations are refused. "
"After any number of stages, the step count, stage, stage counter, time and spin-up ramp are the functions of the configured step, scheme and ramp length that the user asked for, for the explicit, implicit and split steppers, and a run takes the number of steps that covers the requested duration.",
["histories","configurations"],"all schemes, step sizes, ramp lengths and numbers of steps",
"The test integrates one scalar linear equation that does not depend on time, so stage times and non-linear order conditions are not observed.",
["source/simulation/stepper/explicit_ssp_rk_stepper.cpp","source/simulation/stepper/explicit_ssp_rk_stepper.hpp","source/simulation/stepper/implicit_stepper.hpp","source/simulation/stepper/second_strang_stepper.hpp","source/simulation/serial/simulation.hpp"],
[("coefficient tables and stage times","source/simulation/stepper/explicit_ssp_rk_stepper.cpp"),("advance","source/simulation/stepper/explicit_ssp_rk_stepper.hpp")],
observe=["stepper accessors after each advance; integrated test equations"])

add("C10","Output appears exactly at the requested times and describes the current state",
"With output frequency f and step dt, each enabled format is written at the start and after exactly those steps whose index is a multiple of ceil(f/dt), never otherwise, under the documented file names and directories (one per submesh in distributed runs), and disabled formats write nothing. "
"Each file describes every element of the mesh once with its identity, geometry, state and wet/dry flag at that step.",
["configurations","histories"],"all combinations of formats, frequencies, steps and run lengths",
"No test runs the writer.",
["source/simulation/writer.hpp","source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp","source/problem/SWE/problem_postprocessor/swe_post_write_vtk.hpp","source/problem/SWE/problem_postprocessor/swe_post_write_vtu.hpp","source/preprocessor/input_parameters.hpp","source/geometry/element.hpp"],
[("schedule","source/simulation/writer.hpp"),("content","source/problem/SWE/problem_postprocessor")],
observe=["files in the output directory"])

add("C11","Wetting and drying: depth stays non-negative and flags follow the water",
"After wetting-drying, for every element state and bed, the nodal depth of the state is nowhere negative, an element's wet flag follows the stated depth criteria, momentum is removed where water is too shallow to carry it and the volume of an element that holds more than the film is unchanged; well-submerged elements are not modified. "
"At the start, elements are classified wet or dry from the initial depth and dry ones carry no momentum.",
["inputs","histories"],"all linear element states, bed shapes, wet/dry histories and thresholds",
"The test uses a handful of states on one element.",
["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp","source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp","source/problem/SWE/problem_data_structure/swe_data_wet_dry.hpp"],
[("wet/dry state machine","source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp")],
state=[("wet","element is wet","source/problem/SWE/problem_data_structure/swe_data_wet_dry.hpp")],
observe=["element state and wet flag before/after"])

add("C12","Slope limiting keeps means, bounds variation, leaves smooth flow alone",
"For every wet element and neighbourhood, limiting leaves the element means of surface and momentum unchanged, limits the variation towards each edge by what the neighbouring means (and wall/open-boundary substitutes) allow, and returns states whose variation is within the tolerance unmodified. "
"Dry elements, and elements with a dry neighbour, are handled as the method prescribes, and the result does not depend on the order in which elements or faces are visited.",
["inputs"],"all element/neighbour states, geometries and limiter parameters",
"No test exercises the limiter.",
["source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp","source/problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp","source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp"],
[("Cockburn-Shu limiter","source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp")],
observe=["element states before/after limiting"])

add("C13","Levees: water crosses only above the crest, by the weir law, and is conserved",
"A levee passes no water unless the higher of the two water levels exceeds the crest by the tolerance; overtopping flows from the higher to the lower side with the subcritical or supercritical weir discharge of its coefficients, as selected by the two heads, and the amount leaving one side enters the other. "
"Swapping the two sides mirrors the result, blocked or dry sides act as walls, and a levee cut by a partition boundary behaves like an uncut one.",
["inputs"],"all pairs of water levels, crest heights, coefficients, wet/dry states and side orders",
"No unit test evaluates a levee.",
["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp","source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp","source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp","source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp"],
[("weir case analysis","source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp")],
observe=["face fluxes"])

add("C14","Boundary forcing: tide and discharge reach the right faces at the right time",
"At tide (open) boundaries the imposed level, and at flow boundaries the imposed normal discharge, at every time and point equals the sum over constituents of factor x amplitude x cos(frequency x time + equilibrium argument - phase), interpolated between the two end nodes of the edge and scaled by the spin-up ramp, with data taken from the boundary file by node id. "
"Land walls reflect normal momentum and pass no water, and boundary nodes without data are refused. Blank lines in the boundary file mean nothing.",
["inputs","histories"],"all boundary files, constituents, times, ramps and edge orientations",
"No test evaluates a forced boundary over time.",
["source/problem/SWE/discretization_RKDG/boundary_conditions","source/problem/SWE/discretization_EHDG/boundary_conditions","source/problem/SWE/discretization_IHDG/boundary_conditions","source/problem/SWE/problem_input/swe_inputs.cpp","source/problem/SWE/problem_preprocessor/swe_pre_create_bound.hpp"],
[("harmonic synthesis","source/problem/SWE/discretization_RKDG/boundary_conditions"),("bcis reader","source/problem/SWE/problem_input/swe_inputs.cpp")],
observe=["boundary exterior state and flux"])

add("C15","Meteorological forcing: each stage sees its two snapshots interpolated in time",
"With meteorological forcing enabled, at every stage each node's wind stress and pressure equal the linear interpolation in time between the snapshots that bracket the stage time, snapshots are read when and only when time moves past them, and each element receives the values of its own nodes. "
"The stage time is the time at which the stage starts. Missing snapshot files, and snapshots that leave out a node of the mesh, are reported instead of being used, and in distributed runs each submesh reads the data for its own nodes.",
["histories","inputs"],"all snapshot frequencies, steps, schemes and mesh node numberings",
"No test runs the parser.",
["source/problem/SWE/problem_parser/swe_parser.hpp","source/problem/SWE/problem_input/swe_inputs.cpp"],
[("snapshot window","source/problem/SWE/problem_parser/swe_parser.hpp")],
observe=["parsed nodal forcing at each stage"])

add("C16","Hybridized schemes: face unknowns are numbered once and shared by both sides",
"In the hybridized discretizations each internal face, boundary segment and cut face owns one block of global unknowns; the blocks are disjoint, cover the global system without gaps, have the size the polynomial order requires, and both elements of a face (also in different submeshes or ranks) refer to the same block. ",
["inputs","configurations"],"all meshes, polynomial orders and decompositions",
"Tests use one fixed mesh in serial.",
["source/problem/SWE/discretization_IHDG/kernels_preprocessor","source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor","source/geometry/mesh_skeleton.hpp","source/geometry/edge_interface.hpp","source/geometry/edge_boundary.hpp"],
[("global numbering","source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp")],
observe=["global dof indices of all faces"])

add("C17","Dispersive runs split each step symmetrically and preserve simple flows",
"A Green-Naghdi step is a half step of the shallow-water solver, one dispersive correction of the momentum over the full step, and another half step, so that two consecutive steps see the operators in that order with the clock advancing by one full step. "
"The correction changes momentum only, has the value the dispersive (Green-Naghdi) equations give for the depth, velocity and bed of the element, leaves a lake at rest and a uniform flow at rest/uniform, conserves water, is skipped for dry and buffer elements, and does not depend on how the mesh is distributed. (The code does not support levees in dispersive runs.)",
["histories","inputs"],"all states, beds and numbers of steps",
"No unit test runs the dispersive solver.",
["source/problem/Green-Naghdi/discretization_EHDG/kernels_processor","source/simulation/stepper/second_strang_stepper.hpp"],
[("Strang splitting","source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_step.hpp")],
observe=["per-element state after each step, stepper clocks"])

add("C18","Results do not depend on how elements, nodes and faces are numbered",
"Renumbering elements or nodes, listing them in another order, rotating the node order within an element or listing it clockwise instead of counter-clockwise, reversing a boundary or levee section, or translating/rotating/reflecting the whole problem yields the same physical solution after every step, up to rounding and the corresponding transformation. (With slope limiting, which balances rises and falls per momentum component, rotations are quarter turns.) ",
["inputs","histories"],"all renumberings, listings and rigid motions of a problem",
"Tests run fixed meshes only; no metamorphic comparison exists.",
["source/preprocessor/mesh_metadata.cpp","source/geometry/element.hpp","source/geometry/interface.hpp","source/shape/shapes_2D/shape_straighttriangle.cpp","source/problem/SWE/discretization_RKDG/kernels_processor","source/problem/SWE/problem_slope_limiter"],
[("orientation handling","source/geometry/interface.hpp")],
observe=["nodal state after each step"])

add("C19","Face fluxes: consistent, conservative, rotation-invariant; dry cells give none",
"For all admissible states and normals the numerical flux equals the physical flux when both sides agree, is the exact opposite when the sides and the normal are swapped, and commutes with rotation of the frame. "
"At faces between wet and dry elements water may flow into the dry element but never out of it; between two dry elements nothing flows.",
["inputs"],"all left/right states, depths, normals and wet/dry combinations",
"The flux test evaluates one pair of states.",
["source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp","source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp","source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed.hpp","source/problem/SWE/discretization_EHDG/interface_specializations","source/problem/SWE/problem_flux"],
[("local Lax-Friedrichs flux","source/problem/SWE/discretization_RKDG/numerical_fluxes"),("wet/dry gating","source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp")],
observe=["face fluxes on both sides"])

add("C20","A run that produces non-numbers stops with a failure status",
"If any element's state becomes not-a-number at any stage in any submesh, the run, serial or distributed, stops within that step and ends with a failure exit status; it never continues or reports success. "
"Runs whose state stays finite are not aborted.",
["fault_sequences","configurations"],"all variables, elements, stages, ranks at which the first non-number may appear",
"No test lets a run blow up.",
["source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp","source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp","source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp","source/problem/SWE/discretization_EHDG/kernels_processor"],
[("scrutinize","source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp")],
observe=["exit status and last written output"])

add("C21","The quadrilateral mesh generator produces valid, correctly bounded meshes",
"For every quadrilateral, subdivision count, pattern and choice of the four boundary types, the generator writes a mesh the program reads back: all nodes on the bilinear map, all triangles non-degenerate and counter-clockwise, tiling the quadrilateral exactly along the requested pattern of diagonals, every boundary edge in exactly one boundary section of the requested type, and the requested forcing data for every tide or flow node. Incomplete requests and unknown patterns or boundary types are refused. ",
["inputs"],"all corner positions, subdivision counts, patterns and boundary type combinations",
"No test runs the generator.",
["mesh_generators/quad_mesh_generator.cpp"],
[("patterns","mesh_generators/quad_mesh_generator.cpp"),("boundary sections","mesh_generators/quad_mesh_generator.cpp")],
observe=["files the generator writes"])

add("C22","Discretization building blocks are exact for polynomials of their order",
"For every supported order and every non-degenerate triangle: the quadrature rules integrate all polynomials up to their degree exactly, the basis is orthogonal and spans them, projection and evaluation of a polynomial (from nodes, quadrature points or modes, in the element and on each edge) reproduce it, and derivatives and integrals of basis functions satisfy the divergence theorem. ",
["inputs"],"all orders, monomials and triangles",
"Tests check fixed orders on one triangle.",
["source/basis","source/integration","source/master/elements_2D","source/shape/shapes_2D/shape_straighttriangle.cpp","source/geometry/element.hpp","source/geometry/boundary.hpp","source/geometry/interface.hpp"],
[("quadrature tables","source/integration"),("orthogonal basis","source/basis")],
observe=["integrals and point values"])

add("C23","Momentum sources act in the right direction and magnitude",
"Bottom friction decelerates the flow along its own direction with the configured Chezy or Manning law (spatially varying coefficients included), never reverses or deflects it in the forcing term, and vanishes for still water; the bed-slope term equals gravity times level times bed gradient; sources never create or destroy water. A mesh with nodes for which the Manning file has no coefficient is refused.",
["inputs"],"all states, bed slopes and friction settings",
"No test evaluates sources.",
["source/problem/SWE/problem_source/swe_source.hpp","source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp","source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp"],
[("source terms","source/problem/SWE/problem_source/swe_source.hpp")],
observe=["momentum tendency of one step"])

P.sort(key=lambda p:p["id"])
for p in P: p["statement"]=p["statement"].strip()
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P), [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
