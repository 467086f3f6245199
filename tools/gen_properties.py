#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept here so that the list is reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("P01","Quadrature rules integrate polynomials exactly",
"For every degree p that a quadrature rule offers (one-dimensional Gauss-Legendre on [-1,1] and Dunavant on the reference triangle), the returned weights and points integrate every polynomial of total degree at most p exactly, up to rounding. The announced number of points equals the number of points and weights returned, one-dimensional points lie inside the interval, and they come in an order symmetric about its midpoint.",
["inputs","configurations"],"all supported degrees, all polynomials up to that degree",
"Unit_integ_* integrate one fixed polynomial per rule; a single wrong digit in a point or weight that this polynomial does not weight is invisible.",
["source/integration/integrations_1D/integration_gausslegendre_1D.cpp","source/integration/integrations_2D/integration_dunavant_2D.cpp"],
[("rule tables","GetRule / GPData1D / GPData2D"),("point count","GetNumGP")],["Integration::GaussLegendre_1D::GetRule","Integration::Dunavant_2D::GetRule"])

p("P02","Modal bases are orthogonal, complete and self-consistent",
"For every polynomial order the hierarchical triangle basis and the 1D Legendre edge basis span exactly the polynomials of that order, are mutually orthogonal, have the mass matrix whose inverse the library publishes, have gradients that are the derivatives of the basis functions, and take the announced values on the constant mode and the vertices. Converting vertex (linear) or constant data to modal coefficients and back reproduces it exactly.",
["inputs","configurations"],"all orders used by the code, all evaluation points of the closed reference cell (including the collapsed vertex), all linear data",
"The unit tests evaluate a fixed order at the quadrature points only and never compare gradients with the functions they should derive from at arbitrary points.",
["source/basis/bases_2D/basis_dubiner_2D.cpp","source/basis/bases_1D/basis_legendre_1D.cpp","source/basis/polynomials/basis_polynomials.cpp"],
[("Dubiner functions and gradients","basis_dubiner_2D.cpp"),("ProjectLinearToBasis / ProjectBasisToLinear","bases_2D.hpp"),("Jacobi/Legendre recurrences","basis_polynomials.cpp")],["GetPhi","GetDPhi","GetMinv","ProjectLinearToBasis","ProjectBasisToLinear"])

p("P03","Straight triangle geometry is exact for every triangle",
"For every non-degenerate counter-clockwise triangle, of any size, position, orientation and vertex rotation, the shape map sends the reference vertices to the given vertices, its Jacobian and inverse are those of that affine map, the edge measures are the edge lengths in the convention used by the integrals, and the edge normals are unit, outward and constant along each edge. Interpolation of vertex data, barycentre, midpoints and point coordinates agree with the affine map. A triangle given clockwise is the same triangle with its first and last vertex, including their bathymetry, exchanged.",
["inputs"],"all non-degenerate triangles, all points of the closed reference cell",
"Unit_shape_straight_triangle uses one triangle.",
["source/shape/shapes_2D/shape_straighttriangle.cpp"],
[("affine map, Jacobian, surface normals","shape_straighttriangle.cpp")],["GetJdet","GetJinv","GetSurfaceJ","GetSurfaceNormal","LocalToGlobalCoordinates","InterpolateNodalValues"])

p("P04","Element, edge and interface operators are exact on polynomials",
"On every mesh element, L2 projection of a function that is a polynomial of the element's order reproduces it at all quadrature points, derivatives and integrals of such polynomials (against test functions and their gradients, over the element and over each of its edges) are exact, and the discrete divergence theorem holds. On every interior edge the two sides evaluate traces at the same physical points in matching order with opposite normals and the same edge measure, and edge-space projection and integrals are exact on edge polynomials.",
["inputs","configurations"],"all polynomial orders 1..5 or so, all triangles, all relative vertex numberings of the two neighbours, all polynomials of the order",
"Unit_element_triangle, Unit_boundary_interface and Unit_edges run one order on one or two fixed triangles with one fixed relative orientation.",
["source/geometry/element.hpp","source/geometry/boundary.hpp","source/geometry/interface.hpp","source/geometry/edge_interface.hpp","source/geometry/edge_boundary.hpp","source/master/elements_2D/master_triangle.hpp"],
[("ComputeUgp/ComputeDUgp/Integration*/L2Projection","element.hpp"),("trace evaluation and integration","boundary.hpp, interface.hpp"),("edge basis","edge_interface.hpp, edge_boundary.hpp")],["Element","Boundary","Interface","EdgeInterface","EdgeBoundary"])

p("P05","Mesh files survive reading and writing without loss",
"Reading an ADCIRC fort.14 mesh and writing it back yields a file that reads back to the same mesh: nodes, coordinates and depths (to the written precision of 15 digits), elements with their vertex order, and all open, land, island, mainland, flow, function and levee boundaries with their per-node data in order. The program's own mesh metadata format has the same round trip for elements, vertex coordinates, bathymetry, node identifiers and neighbour and boundary links, for every mesh.",
["inputs","configurations"],"all well-formed meshes with every supported boundary type, any numbering (ids need not be contiguous or sorted), any node order along boundaries",
"Unit_adcirc_format and Unit_mesh_metadata round-trip one or two fixed files and compare a few fields.",
["source/preprocessor/ADCIRC_reader/adcirc_format.cpp","source/preprocessor/mesh_metadata.cpp"],
[("AdcircFormat(file) / write_to","adcirc_format.cpp"),("MeshMetaData(file) / write_to","mesh_metadata.cpp")],["files written","AdcircFormat public fields","MeshMetaData::elements, nodes"])

p("P06","Mesh connectivity and boundary kinds match the input mesh",
"For every conforming triangulation read from an ADCIRC file, each element edge shared by two elements becomes exactly one interior interface linking the two elements through the right edges, and every remaining edge becomes exactly one boundary of the kind its file entry prescribes (open boundaries tide; land, mainland and island boundaries wall; flow and function boundaries as listed), with levees joining the two facing edges. Nothing is dropped, duplicated or linked twice, whatever the numbering of nodes and elements, the vertex an element starts from, and the order of the boundary sections. A mesh with a boundary edge that no section describes, or with an unknown boundary kind, is refused with an error.",
["inputs","configurations"],"all conforming meshes with holes, islands, levees, any node/element numbering and vertex rotation",
"Unit_mesh_metadata and the example meshes have one fixed numbering and no islands.",
["source/preprocessor/mesh_metadata.cpp","source/preprocessor/ADCIRC_reader/adcirc_format.cpp","source/preprocessor/initialize_mesh.hpp","source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_boundary_conditions.hpp"],
[("edge matching","MeshMetaData::MeshMetaData(const AdcircFormat&)"),("get_ibtype / get_internal_node_pair","adcirc_format.cpp"),("create_interfaces / create_boundaries","initialize_mesh.hpp and problem preprocessors")],["MeshMetaData::elements","ProblemMeshType::CallForEachInterface/Boundary"])

p("P07","Configuration files mean what they say or are refused",
"Every option of a YAML input file (mesh, timestepping, polynomial order, output, and the shallow-water problem block with gravity, densities, initial conditions, source terms, friction, wetting-drying, slope limiting and spherical projection) and every record of a boundary-condition file (tide, flow and levee data per node and constituent) is taken over with exactly the value given, and defaults are used only for options that are absent. Writing the configuration back and reading it again yields the same configuration. Missing mandatory entries and unknown values of enumerated options at the top level are refused with an error.",
["inputs","configurations"],"all combinations of present/absent options and values; all .bcis files with any number of boundaries, constituents and nodes",
"Unit_input_parameters and Unit_swe_inputs read a handful of fixed files.",
["source/preprocessor/input_parameters.hpp","source/problem/SWE/problem_input/swe_inputs.cpp","source/problem/SWE/problem_input/swe_inputs.hpp","source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"],
[("InputParameters(file)/write_to","input_parameters.hpp"),("SWE::Inputs(YAML::Node)/as_yaml_node","swe_inputs.cpp"),("read_bcis","input_parameters.hpp, swe_inputs.cpp")],["InputParameters fields","SWE::Inputs fields"])

p("P08","Time steppers have their order, stage times and ramp",
"For every supported (stages, order) pair the explicit Runge-Kutta stepper, driven as the solver drives it, integrates y'=f(t,y) with its nominal order for right-hand sides that depend on time as well as on the state, its stages are convex combinations of forward Euler steps, and the time it reports at each stage is the time at which that stage approximates the solution. After any number of steps the reported time is start time plus steps times dt, and the ramp factor is the prescribed smooth function of time since start.",
["inputs","configurations","histories"],"all supported schemes, step sizes, start times and ramp durations, all numbers of steps, all smooth right-hand sides",
"Unit_RK_stepper integrates one autonomous-like problem and never looks at stage times with a time-dependent right-hand side.",
["source/simulation/stepper/explicit_ssp_rk_stepper.cpp","source/simulation/stepper/explicit_ssp_rk_stepper.hpp","source/simulation/stepper/implicit_stepper.hpp","source/simulation/stepper/second_strang_stepper.hpp"],
[("coefficients ark, brk, crk, drk","InitializeCoefficients"),("++stepper / GetTimeAtCurrentStage","explicit_ssp_rk_stepper.hpp"),("ramp","GetRamp / UpdateRamp")],["GetTimeAtCurrentStage","GetRamp","UpdateState"])

p("P09","Shallow-water flux, Jacobians and eigenstructure agree",
"For every wet state, direction and positive gravity, the physical flux is that of the (well-balanced) shallow-water equations, the flux Jacobians are its derivatives, the published eigenvalues and left/right eigenvectors diagonalise the normal Jacobian, and the absolute value, positive part and negative part of the Jacobian are the corresponding matrix functions. The stabilisation parameters used by the hybridised schemes and their state derivatives are consistent with each other, and everything is rotationally equivariant.",
["inputs"],"all states with positive depth, all bathymetries, all unit directions",
"Unit_test_jacobians_ihdg checks a few random states of the IHDG kernels against finite differences of one flux; eigenvectors and A+/A- are never checked as identities.",
["source/problem/SWE/problem_flux/swe_flux.hpp","source/problem/SWE/problem_jacobian/swe_jacobian.hpp","source/problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"],
[("get_F, get_Fn","swe_flux.hpp"),("get_A, get_R, get_invR, get_L, get_absA, get_Aplus, get_Aminus, get_dF_dq","swe_jacobian.hpp"),("tau","swe_stabilization_params.hpp")],["function return values"])

p("P10","Interface numerical fluxes are consistent and conservative",
"At every interior edge the numerical flux is that of the scheme for all pairs of wet traces: local Lax-Friedrichs with the larger of the two wave speeds for RKDG, and for EHDG the flux at the average trace plus the wave speed of that trace times the deviation from it; so it equals the physical flux when both traces agree, and what one element loses the other gains. Next to a dry element no water leaves the dry element, the wet neighbour sees a reflecting wall when the flux would draw water out of the dry one, water entering the dry element carries momentum without gravity forces, and mass is conserved.",
["inputs","configurations"],"all pairs of states and bathymetries, all normals, all wet/dry combinations",
"Unit_llf_flux evaluates one pair of states for one normal; wet/dry interfaces are never driven.",
["source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp","source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_intface_internal.hpp","source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_edge_intface.hpp"],
[("LLF_flux, HLL_flux","rkdg_swe_numerical_fluxes.hpp"),("wet/dry switch","rkdg_swe_intface_internal.hpp"),("q_hat, tau","ehdg_swe_proc_edge_intface.hpp")],["F_hat_at_gp on both sides"])

p("P11","Boundary conditions impose the data they prescribe",
"At land boundaries no mass crosses and a mirrored flow gets no tangential force; at open boundaries the prescribed elevation is the ramped sum of the given tidal constituents (amplitude, phase, nodal factor, equilibrium argument, frequency) at the stage time interpolated linearly between the edge's nodes, at flow boundaries the prescribed normal discharge is the analogous sum directed along the normal, and at function boundaries the prescribed state is the initial-condition function at the point and time. RKDG puts this state through its interior flux; EHDG solves the characteristic trace equation between inner and prescribed state (whenever the flow crosses the boundary at a definite subcritical speed, over any bed) and uses the flux of that trace.",
["inputs","configurations","histories"],"all constituents, times, ramps, edge orientations and interior states; RKDG and EHDG (and IHDG for land)",
"No unit test covers any boundary condition; the examples use a single constituent with zero phase.",
["source/problem/SWE/discretization_RKDG/boundary_conditions","source/problem/SWE/discretization_EHDG/boundary_conditions","source/problem/SWE/discretization_IHDG/boundary_conditions"],
[("Land/Tide/Flow/Function ComputeFlux","rkdg_swe_bc_*.hpp"),("trace equations","ehdg_swe_bc_*.hpp, ihdg_swe_bc_*.hpp")],["F_hat_at_gp of the boundary"])

p("P12","Closed basins conserve mass",
"In a basin bounded by land, with or without bottom friction, the total volume of water stays constant to rounding (and the solver tolerance for the implicit scheme) through any number of time steps, for the explicit RKDG and EHDG and the implicit IHDG discretisations. This also holds with slope limiting (RKDG, and IHDG with backward Euler), and for RKDG and EHDG with wetting and drying as long as no element has to be refilled from below zero mean depth; then volume never decreases and no mean depth is negative after a stage.",
["inputs","configurations","histories"],"all meshes, initial states, bathymetries, orders, time schemes and step sizes for which the run stays finite, any number of steps",
"No existing test runs a time step on a mesh and looks at the volume.",
["source/problem/SWE/discretization_RKDG/kernels_processor","source/problem/SWE/discretization_EHDG/kernels_processor","source/problem/SWE/discretization_IHDG/kernels_processor","source/problem/SWE/problem_postprocessor"],
[("flux antisymmetry at interfaces and zero normal flux at land","*_proc_intface.hpp, *_proc_bound.hpp"),("mean-preserving limiters","swe_post_slope_limit.hpp, swe_post_wet_dry.hpp, swe_CS_slope_limiter.hpp")],["Σ over elements of the integral of depth"])

p("P13","A lake at rest stays at rest",
"With a constant free-surface elevation, zero discharge and wet everywhere, on any mesh and any bathymetry given at the nodes, with land boundaries and open boundaries held at that elevation, with or without bottom friction, wetting-drying and slope limiting enabled, the RKDG, EHDG and IHDG schemes keep the state unchanged over any number of steps, to rounding for the explicit and to solver accuracy for the implicit scheme.",
["inputs","configurations","histories"],"all meshes, bathymetries, orders and steps",
"No existing test checks well-balancedness.",
["source/problem/SWE/problem_source/swe_source.hpp","source/problem/SWE/problem_flux/swe_flux.hpp","source/problem/SWE/discretization_RKDG","source/problem/SWE/discretization_EHDG","source/problem/SWE/discretization_IHDG"],
[("hydrostatic source balance","swe_source.hpp / *_proc_source.hpp"),("bathymetry projection and gradient","swe_pre_init_data.hpp")],["modal coefficients after n steps"])

p("P14","Wetting and drying keeps water in the element and cells sane",
"With wetting and drying enabled, for any element state the per-stage correction keeps the element's water volume (unless its mean depth is not positive, in which case the element is left with practically zero depth), leaves a non-negative linear depth at every vertex, and leaves states of wet elements whose depth is everywhere above the threshold untouched. An element left dry carries no discharge; an element whose depth is at most the threshold at every vertex is left dry and flat in depth, and a dry element becomes wet only when its water surface reaches above its highest bed point by the threshold.",
["inputs","histories"],"all element states (depth and discharge polynomials, flags), bathymetries and thresholds; sequences of stages",
"Unit_wetting_drying drives one triangle through a fixed list of states.",
["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp","source/problem/SWE/problem_data_structure/swe_data_wet_dry.hpp"],
[("wetting-drying kernel","swe_post_wet_dry.hpp")],["element state after the stage","wet/dry flag"])

p("P15","Slope limiting preserves means and never steepens",
"For any state on any mesh with any boundary kinds, the slope limiter leaves in each element the state of the Cockburn-Shu characteristic limiter computed from the element's own mean and slopes and its three neighbours' means (walls mirrored, with the given M and nu): the mean of every quantity is kept, globally linear states are unchanged, and a limited midpoint deviation never exceeds what the neighbouring means allow. With limiting disabled every element is left identical.",
["inputs","configurations"],"all states on all meshes with any boundary kinds; wet and dry neighbours",
"No unit test covers the limiter.",
["source/problem/SWE/problem_slope_limiter"],
[("Cockburn-Shu limiter","swe_CS_slope_limiter.hpp, swe_slope_limit_*.hpp")],["element state after the limiter"])

p("P16","Levees overflow by the weir law and only then",
"Across a levee edge with both water levels at most at the crest (to within 0.01), or equal to within 0.01, both sides see a wall; otherwise the discharge at each edge point is that of the sub- or supercritical weir formula for the levels, crest height and coefficients interpolated there, directed from the higher to the lower side. Each side's flux is the scheme's flux between its own trace and that discharge at its own elevation, and exchanging the two sides of the levee exchanges the fluxes.",
["inputs","configurations"],"all pairs of water levels, crests, coefficients, orientations; RKDG",
"test/files_for_testing/weir is only run to completion by an example test that is not part of the unit suite.",
["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_intface_levee.hpp"],
[("weir formula","rkdg_swe_intface_levee.hpp")],["F_hat_at_gp on both sides of the levee"])

p("P17","Distributed runs compute what the serial run computes",
"For every way of splitting a mesh into submeshes, over any number of submeshes per process, processes and threads, the distributed program computes the same solution as the serial program on the whole mesh, to rounding, for the explicit discontinuous and hybridised shallow-water schemes, with any supported boundary types, slope limiting and wetting-drying. A split into one submesh is accepted.",
["configurations","schedules","inputs"],"all partitions, process and thread counts, meshes and schemes",
"The only comparison test is a cmake example test at one partition, which is not in the unit suite.",
["source/simulation/ompi","source/communication","source/problem/SWE/discretization_RKDG/dist_boundary_specializations","source/problem/SWE/discretization_EHDG/dist_boundary_specializations","source/preprocessor/initialize_mesh.hpp"],
[("exchange of edge states","ompi_communicator.cpp, db_data_exchanger.hpp, *_distbound_*.hpp"),("stepping of submeshes","*_ompi_step.hpp, simulation_ompi.hpp")],["output files of serial and ompi programs"])

p("P18","The partitioner neither loses nor duplicates anything",
"For every assignment of elements to parts the partitioner's output files contain every element and boundary of the original mesh exactly once with its geometry and bathymetry unchanged, and every interior edge cut by the partition appears exactly once on each side as a pair of matching records that name the right locality, submesh, element, edge and polynomial order of the other side. The rewritten input file describes the same simulation.",
["inputs","configurations"],"all meshes and all element-to-part assignments, any number of localities and submeshes",
"The partitioner's unit test uses one mesh and cannot be built against the installed METIS.",
["partitioner/partitioner.cpp","partitioner/partition.cpp","partitioner/write_distributed_interfaces.cpp","source/preprocessor/mesh_metadata.cpp"],
[("submesh construction","partition.cpp"),("cut edges","write_distributed_interfaces.cpp")],["*.meta, *.dbmd and *_parallelized.15 files"])

p("P19","Results do not depend on numbering or on the frame of reference",
"Renumbering nodes, reordering elements, rotating the vertex order of elements, reordering boundary sections or translating the mesh changes the computed solution only by the same relabelling, to rounding, through any number of steps of the RKDG, EHDG and IHDG shallow-water schemes. Rotating or reflecting the mesh together with the discharge vectors rotates the solution likewise when slope limiting is off.",
["inputs","configurations","histories"],"all meshes, numberings, translations, rotations",
"Every existing test uses one fixed numbering and frame.",
["source/geometry","source/preprocessor","source/problem/SWE"],
[("edge orientation handling","interface.hpp, mesh_metadata.cpp")],["solution at corresponding points"])

p("P20","The schemes converge to the exact solution at their order",
"For smooth manufactured solutions prescribed through the source, initial and boundary functions, the error of the RKDG, EHDG and IHDG schemes falls at (about) the order of the polynomial degree plus one as the mesh is refined (and at least monotonically for second-order implicit stepping), and solutions that lie in the discrete space are reproduced to the time-stepping error. The error the program reports is the L2 norm of the difference to the true solution.",
["inputs","configurations"],"smooth solutions, orders, meshes",
"The existing manufactured-solution example is not part of the unit tests and uses one solution.",
["source/problem/SWE"],
[("spatial discretisation","source/problem/SWE/discretization_*")],["L2 error"])

p("P21","Output files report the state that was computed",
"At every output step requested (and at no other), the modal output lists for every element exactly once the modal coefficients and the time of the state, the VTK/VTU files list every element's cells with the right geometry and the cell and point values of surface elevation, discharges, bathymetry, identifiers and wet/dry flags of that state, and the log and initial state are written when requested. The first output is the initial state, the number of outputs follows from the requested frequency and duration, and existing data are not mixed with that of an earlier run.",
["inputs","configurations","histories"],"all output frequencies, formats, meshes, states",
"No unit test reads any output file.",
["source/simulation/writer.hpp","source/problem/SWE/problem_postprocessor","source/geometry/element.hpp","source/shape/shapes_2D/shape_straighttriangle.cpp"],
[("writers","writer.hpp, swe_*_write_*.hpp / shape_straighttriangle.cpp")],["output files"])

p("P22","The mesh generator produces the mesh it is asked for",
"For every configuration (corners, numbers of subdivisions, triangle pattern, boundary types and forcing) the rectangular mesh generator writes a conforming mesh of counter-clockwise triangles that covers exactly the requested quadrilateral with the requested subdivisions, whose boundary is completely described by the four sides with the requested types, and whose boundary-condition file gives every boundary node the requested forcing. The solver's reader accepts both files.",
["inputs","configurations"],"all generator inputs",
"The generator has no test beyond the example meshes.",
["mesh_generators/quad_mesh_generator.cpp","mesh_generators/bathymetry.hpp"],
[("patterns and boundaries","quad_mesh_generator.cpp")],["*.14 and *.bcis files"])

p("P23","Bottom friction only ever slows the flow, by the stated law",
"The bottom friction term is the quadratic law with the Chezy coefficient given, or with the depth-dependent Manning coefficient bounded below by the given minimum, evaluated from the local discharge and depth; it acts opposite to the flow, vanishes at rest, is isotropic and never touches mass (its linearisation in the implicit scheme is part of P24). It is finite for every wet state, including fluid at rest.",
["inputs","configurations"],"all wet states, coefficients, gravity values",
"Unit_test_jacobians_ihdg samples a few moving states with one coefficient.",
["source/problem/SWE/problem_source/swe_source.hpp","source/problem/SWE/problem_source/swe_chezy_friction.hpp","source/problem/SWE/problem_source/swe_manning_n_friction.hpp"],
[("friction","swe_source.hpp and the bottom friction functions")],["source at gauss points, Jacobian of the source"])

p("P24","The implicit scheme solves its own equations",
"After every step of the implicit hybridised scheme, the new state satisfies the theta-weighted semi-discrete equations of the corresponding explicit hybridised scheme at the old and new time to the solver tolerance (backward Euler for order one, Crank-Nicolson for order two). The local and global linear systems it assembles are the derivatives of the residuals it evaluates.",
["inputs","configurations","histories"],"all meshes bounded by land or open boundaries, states, step sizes for which the iteration converges",
"Unit_test_*_ihdg check parts of the Jacobian on one mesh state; the residual itself is never compared with an independent evaluation.",
["source/problem/SWE/discretization_IHDG"],
[("local/global assembly and Newton loop","ihdg_swe_serial_step.hpp, ihdg_swe_*_kernels")],["state after a step"])

p("P25","The dispersive (Green-Naghdi) solver is consistent",
"With the Green-Naghdi solver a lake at rest on any bathymetry stays at rest, closed basins conserve mass, small-amplitude waves over constant depth propagate with the dispersion relation of the model rather than that of shallow water, at the order of the scheme, and the dispersive correction is the solution of the discretised Green-Naghdi elliptic system for any wet state and bed - the elements of the buffer list, those in which breaking is detected and dry ones receive none - independent of numbering or orientation.",
["inputs","configurations","histories"],"meshes, bathymetries, states and wave lengths, orders",
"Only an example (not in the unit suite) runs the dispersive solver.",
["source/problem/Green-Naghdi"],
[("dispersive correction","source/problem/Green-Naghdi/discretization_EHDG/kernels_processor"),("Strang splitting","second_strang_stepper.hpp")],["state after steps"])

p("P26","Spherical coordinates give the projected equations consistently",
"With a spherical coordinate system the mesh is the equirectangular projection of longitude and latitude about the reference latitude, x-fluxes and x-gradients of the RKDG scheme are scaled by the ratio of reference to local cosine in volume, on both sides of every interior edge and on every boundary alike, and so walls do not leak and interior edges conserve mass. With a Cartesian system the scale factor is one everywhere.",
["inputs","configurations"],"all meshes away from the poles, reference points, states",
"No unit test uses spherical coordinates.",
["source/problem/SWE/problem_preprocessor","source/problem/SWE/discretization_RKDG"],
[("projection and sp factors","swe_pre_init_data.hpp, preprocess_mesh_data")],["mesh coordinates, numerical flux"])

p("P27","Linear-algebra helpers obey linear algebra",
"The wrappers and typed containers the solver builds on (norms, powers, component-wise products, inverses, determinants, transposes, identities, submatrix, row, column and subvector views, flattening and reshaping in both storage orders, sparse assembly, dense and sparse linear solves, vectors and maps of several types) agree with their mathematical definitions for every admissible size and value, assembling repeated sparse entries adds them, views write through and nowhere else, and a solve leaves a residual at rounding level, for consistent singular systems too.",
["inputs"],"all vectors and matrices of the sizes used, well-conditioned systems",
"They have no tests of their own.",
["source/utilities/linear_algebra/use_eigen.hpp","source/utilities/linear_algebra"],
[("wrappers","use_eigen.hpp")],["function results"])

p("P28","Distributed implicit and dispersive solvers match their serial versions",
"For every way of splitting a mesh into submeshes, nodes and processes, the distributed implicit (IHDG) shallow-water program and the distributed dispersive (Green-Naghdi) program compute the same solution at every step as the serial programs on the whole mesh, to the accuracy of the linear and nonlinear solves: the global systems assembled across submeshes and processes have the same unknowns and equations, and gradients, traces and flags at cut edges are those of the uncut mesh.",
["configurations","schedules","inputs"],"all partitions, process and thread counts, meshes, orders, boundary types and bathymetries the solvers support",
"No test runs a distributed implicit or dispersive problem at all.",
["source/problem/SWE/discretization_IHDG","source/problem/Green-Naghdi/discretization_EHDG","source/simulation/ompi","source/communication"],
[("global numbering and assembly across submeshes","ihdg_swe_pre_init_global_prob / ehdg_gn_pre_init_global_prob, *_ompi_sol_glob_prob, *_edge_dbound"),("exchange of gradients and bathymetry derivatives","ehdg_gn_proc_derivatives_ompi, ehdg_gn_pre_dbath_ompi, grad_methods"),("exchange of messages","ompi_communicator.cpp")],["solution after each step"])

p("P29","Nodal forcing data reach their element at the right time",
"With meteorological forcing enabled, at every stage of every step each element holds, corner by corner, the wind stress and pressure recorded for the node there, interpolated linearly in time between the two records that enclose the time of the stage; records are looked up by the number of the step, at multiples of the interval asked for (counted in whole steps), whatever the order of the nodes in the file and whichever other nodes it lists, and a missing record is refused. With Coriolis enabled each element has the parameter 2*7.2921e-5*sin(latitude) of its centroid, latitude being y over the given (or default) radius, and zero otherwise.",
["inputs","configurations","histories"],"all meshes and numberings, record intervals, numbers of steps and stages, data",
"No test provides meteorological or Coriolis input.",
["source/problem/SWE/problem_parser/swe_parser.hpp","source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"],
[("reading and interpolation of records","Parser::ParseMeteoInput, Parser::InterpolateMeteoData"),("Coriolis parameter","initialize_data_serial")],["elt.data.source after ParseInput / a step"])

p("P30","The run starts from the prescribed state and bed",
"After preprocessing every element holds the initial condition that was asked for (constant, function at time zero, or zero when none is given) - exactly, if it is a polynomial of the element's order - and the bed given at the mesh nodes, linear within each element, with its gradient. With wetting and drying, exactly the elements in which some corner is not deeper than the minimum depth start dry: without discharge, with the minimum depth at those corners and the given elevation at the others. This holds for the RKDG, EHDG, IHDG (no drying) and Green-Naghdi solvers.",
["inputs","configurations"],"all meshes, numberings, bathymetries, initial conditions, orders",
"Unit tests set states directly.",
["source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp","source/problem/SWE/problem_preprocessor/swe_pre_init_prob_params.hpp","source/geometry/element.hpp"],
[("initial projection, bed, dry elements","initialize_data_serial"),("projections","L2ProjectionNode, L2ProjectionF")],["state[0], aux, wet_dry_state after preprocessing"])

p("P31","Every submesh of a distributed run writes its part of the output",
"A distributed run takes the number of steps its duration asks for and writes, for every submesh into a directory of its own and at every output step requested (and at no other), modal, VTK and VTU files that together hold every element of the mesh exactly once with the state the serial run has at that step; each submesh keeps its own log when one is requested. The error it reports, once, is that of the whole mesh. This holds for all four solvers, all partitions, and any number of submeshes, threads and processes.",
["inputs","configurations","schedules"],"all partitions, process and thread counts, output requests, solvers",
"No unit test runs the distributed program with output.",
["source/simulation/ompi","source/simulation/writer.hpp","source/simulation/ompi/sim_unit_ompi.hpp","source/problem/SWE/problem_postprocessor"],
[("writer of a submesh","writer.hpp, sim_unit_ompi.hpp"),("output after each step","*_proc_ompi_step.hpp"),("reported error","simulation_ompi.hpp ComputeL2Residual")],["output directories, reported error"])

p("P32","A run whose numbers break down stops with an error",
"When a value of the solution ceases to be a number - in any element, variable, mode, stage or step, the last one included - the program stops during that step with a non-zero exit status instead of going on to its end; a distributed run does so as a whole, whichever process the element belongs to. A run whose numbers stay finite is never stopped. This holds for all solvers (in elements that are not being dried, where discharges are reset).",
["inputs","histories","fault_sequences"],"all elements, variables, steps, solvers, partitions",
"No unit test lets a run break down.",
["source/problem/SWE/problem_postprocessor/swe_post_scrutinize.hpp","source/problem/SWE/discretization_RKDG/kernels_processor","source/problem/SWE/discretization_EHDG/kernels_processor","source/problem/SWE/discretization_IHDG/kernels_processor"],
[("inspection of every element after each stage","scrutinize_solution"),("end of the run","*_serial_step.hpp, *_ompi_step.hpp")],["exit status"])

import pathlib,sys
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
print(len(P))
