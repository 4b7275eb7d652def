#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so that it is easy to edit)."""
import json, os
S = "src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": [S+f for f in files], "mechanism": [{"name": n, "where": S+w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Every inviscid flux scheme is consistent with the Euler flux",
 "When the left and right states of a face are the same physically valid state, every selectable inviscid numerical flux returns exactly the analytical Euler flux of that state projected on the face normal. This holds for every Mach number, flow direction and unit normal.",
 ["inputs", "configurations"], "all positive densities and pressures, all velocities, all unit normals, all gamma>1, each scheme",
 "Existing tests evaluate a few states (or none at all for most schemes) and regression-compare drag; schemes have many regime branches (sub/supersonic, left/right) that a handful of states cannot reach.",
 ["spatial/anumericalflux.cpp", "spatial/anumericalflux.hpp", "physics/aphysics_defs.hpp"],
 [("get_flux of LLF, Van Leer, AUSM, AUSM+, Roe-Pike, HLL, HLLC", "spatial/anumericalflux.cpp"), ("Euler flux vector and pressure/sound-speed conversions", "physics/aphysics_defs.hpp")])

prop("P02", "Inviscid fluxes are conservative and frame-independent",
 "Swapping the two states of a face and reversing its normal exactly negates the numerical flux, so whatever leaves one cell enters its neighbour. Rotating both states and the normal together rotates the momentum flux and leaves the mass and energy fluxes unchanged.",
 ["inputs", "configurations"], "all pairs of valid states, all unit normals, each scheme",
 "Only a property over pairs of executions on arbitrary states; tests only look at converged integrated outputs.",
 ["spatial/anumericalflux.cpp"],
 [("get_flux of all schemes", "spatial/anumericalflux.cpp"), ("Roe averages", "spatial/anumericalflux.hpp")])

prop("P03", "Upwind schemes take the physical flux from the upwind side in supersonic flow",
 "When the flow on both sides of a face (and at their average) is supersonic in the same normal direction beyond any entropy-fix threshold, the Van Leer, AUSM, AUSM+, Roe, HLL and HLLC fluxes equal the analytical flux of the upwind state alone. A stationary contact or shear discontinuity is preserved exactly by HLLC, AUSM and AUSM+: only the pressure force remains.",
 ["inputs", "configurations"], "all pairs of valid states satisfying the supersonic (or contact) condition, each scheme",
 "Requires all supersonic pairs; the tests run subsonic or single-state cases.",
 ["spatial/anumericalflux.cpp"],
 [("wave-speed estimates and branches in each get_flux", "spatial/anumericalflux.cpp")])

prop("P04", "Gas-dynamics variable conversions agree with the ideal-gas definitions",
 "Conversions among conserved, primitive and primitive-with-temperature variables are mutually inverse and agree with the ideal-gas law, total energy, sound speed, entropy, total enthalpy and free-stream non-dimensionalisation definitions, also when done in place. Converted gradients obey the chain rule of the same definitions, and the predicted pressure change of a finite conserved-variable update equals the true difference of pressures.",
 ["inputs"], "all valid states, gradients and increments, all gamma>1 and free-stream Mach numbers",
 "Tests check a few hard-coded states and two conversion paths.",
 ["physics/aphysics_defs.hpp", "physics/aphysics.hpp", "physics/aphysics.cpp"],
 [("IdealGasPhysics getters and conversions", "physics/aphysics_defs.hpp")])

prop("P05", "Analytical gas-dynamics derivatives are the derivatives of the quantities",
 "Every analytically coded derivative of a gas quantity (pressure, sound speed, temperature, density from temperature, viscosity, thermal conductivity, velocity, primitive and gradient conversions, directional flux) with respect to conserved variables equals the exact partial derivative of the corresponding coded quantity. Derivative routines that accumulate into their output add exactly that derivative.",
 ["inputs"], "all valid states and incoming derivatives, every component",
 "Tests finite-difference a subset of the functions at one or two states with loose tolerances.",
 ["physics/aphysics.cpp", "physics/aphysics_defs.hpp", "physics/viscousphysics.cpp"],
 [("getJacobian* functions", "physics/aphysics_defs.hpp"), ("evaluate_normal_jacobian", "physics/aphysics.cpp")])

prop("P06", "Numerical-flux Jacobians are the derivatives of their fluxes",
 "For the schemes with an exact linearisation (HLLC, Roe including its entropy fix, AUSM) the left and right flux Jacobian blocks equal, up to the documented sign convention, the derivatives of the flux with respect to the left and right conserved states; for LLF and HLL they equal the derivatives with the spectral radius or signal speeds held fixed. The analytical Jacobian of the projected Euler flux satisfies the same for the physical flux.",
 ["inputs", "configurations"], "all pairs of valid states in each smooth branch, every matrix entry",
 "Tests compare a couple of schemes with finite differences at two fixed states.",
 ["spatial/anumericalflux.cpp"],
 [("get_jacobian of each scheme", "spatial/anumericalflux.cpp")])

prop("P07", "Viscous stress and flux obey the Newtonian-Fourier law",
 "The viscous stress is symmetric, has no net trace contribution beyond Stokes' hypothesis and depends linearly on velocity gradients; the face viscous flux equals the stress on the normal plus work and Fourier heat conduction, with viscosity from the selected constant or Sutherland law. It vanishes for uniform flow, adds nothing to mass, and reverses sign when the face is viewed from the other side.",
 ["inputs", "configurations"], "all valid states, gradients, unit normals, Reynolds and Prandtl numbers",
 "Tests only check that drag histories regress.",
 ["physics/viscousphysics.cpp", "physics/aphysics_defs.hpp", "spatial/flow_spatial.cpp"],
 [("computeViscousFlux and stress tensor", "physics/viscousphysics.cpp"), ("getStressTensor, Sutherland law", "physics/aphysics_defs.hpp")])

prop("P08", "Viscous flux Jacobians are the derivatives of the viscous flux",
 "The two viscous Jacobian blocks computed for a face equal the derivatives of the face viscous flux (with thin-layer-consistent averaged gradients as coded for first-order linearisation) with respect to the conserved states on the two sides, with the documented sign. The viscosity is differentiated as well when it depends on temperature.",
 ["inputs", "configurations"], "all valid state pairs, centre vectors and normals, each matrix entry",
 "Tests probe one state pair with finite differences.",
 ["physics/viscousphysics.cpp", "spatial/flow_spatial.cpp"],
 [("computeViscousFluxJacobian", "physics/viscousphysics.cpp")])

prop("P09", "Boundary conditions impose what they are named for",
 "For every interior state and normal, slip walls reflect the normal velocity so that no mass crosses; adiabatic and isothermal no-slip walls give the wall velocity at the face and respectively zero heat flux or the prescribed wall temperature; extrapolation copies the interior and far-field gives the free stream. Inflow-outflow and inflow boundaries use the free-stream state in supersonic inflow, the interior state in supersonic outflow, and impose the prescribed total conditions or static pressure in the subsonic cases.",
 ["inputs", "configurations"], "all valid interior states, unit normals, free-stream conditions, wall velocities/temperatures, each BC type",
 "Tests check wall BCs for a few normals and states, and never the in/outflow branches.",
 ["spatial/abc.cpp", "spatial/abc.hpp"],
 [("computeGhostState of each boundary condition", "spatial/abc.cpp")])

prop("P10", "Boundary linearisation matches the boundary state",
 "For each boundary condition the routine that returns both ghost state and Jacobian returns exactly the ghost state used in the residual, and its Jacobian is the exact derivative of that ghost state with respect to the interior state (the subsonic total-condition inflow has no linearisation and says so). Every boundary type created from the control configuration corresponds to the tag and values the user gave.",
 ["inputs", "configurations"], "all valid interior states and normals, each BC type, each matrix entry",
 "Finite-difference tests cover some wall types at a single state.",
 ["spatial/abc.cpp", "spatial/abc.hpp"],
 [("computeGhostStateAndJacobian, create_mesh-wide BC map", "spatial/abc.cpp")])

prop("P11", "Mesh connectivity is complete and consistent",
 "For any valid mesh of triangles and quadrilaterals, each internal face is listed exactly once with the two cells that share it, each boundary face exactly once with its cell and marker, and cell-to-cell, cell-to-face, point-to-cell and face-to-cell tables agree with each other. Physical boundary faces, inter-process faces and interior faces occupy the documented contiguous ranges, with ghost indices beyond the real cells.",
 ["inputs"], "all small conforming tri/quad meshes, all cell and node numberings and boundary face listing orders",
 "Tests inspect one 4x4 mesh and a periodic one.",
 ["mesh/mesh.cpp", "mesh/mesh.hpp", "mesh/ameshutils.cpp"],
 [("compute_topological: esup, esuel, intfac, elemface", "mesh/mesh.cpp")])

prop("P12", "Mesh metrics are geometrically exact",
 "Cell areas, face lengths and unit normals computed by the mesh equal their Euclidean definitions, each normal points from the lower-listed cell to the higher-listed one (outward at boundaries), and the length-weighted outward normals of every cell sum to zero. Cell and face centres are the averages of their vertices and the centres of boundary ghost cells are the reflections of the cell centre about the midpoint of the boundary face.",
 ["inputs"], "all vertex coordinates of valid cells in small meshes, all start vertices of cells",
 "Tests check a single mesh; geometry with arbitrary coordinates is not covered.",
 ["mesh/mesh.cpp", "mesh/ameshutils.cpp", "spatial/aspatial.cpp"],
 [("compute_areas, compute_face_data, cell centres", "mesh/mesh.cpp"), ("compute_ghost_cell_coords_about_midpoint/face", "spatial/aspatial.cpp")])

prop("P13", "Reordering cells and fixing face orientation preserve the mesh",
 "Renumbering cells by any permutation, and correcting the listing order of boundary face nodes, leaves the mesh geometrically and topologically the same: every cell keeps its nodes and attributes under its new number, and every boundary face keeps its marker and nodes while being oriented with the domain on its left.",
 ["inputs"], "all permutations and boundary-face listings of small meshes",
 "Tests only run with one ordering, where attributes are all equal.",
 ["mesh/mesh.cpp", "mesh/ameshutils.cpp"],
 [("reorder_cells, correctBoundaryFaceOrientation", "mesh/mesh.cpp")])

prop("P14", "Cell orderings are permutations and level schedules respect dependencies",
 "Line, hybrid-line and PETSc preprocessing orderings always apply a permutation to the cells and recompute connectivity, areas and face data for the new numbering; with no reordering (or natural) requested the cells keep their numbers, and a line ordering without an anisotropy threshold is reported as an error. Lines have at least two cells, start at boundary cells, step across shared faces, never visit a cell twice or share cells, and only contain and follow couplings (inverse centre distances, relative to the weakest of the cell) above the threshold. The line ordering puts the lines first, one after another; the graph of lines and points connects two vertices exactly if cells of theirs share a face, and the hybrid ordering expands the graph ordering with each line contiguous. A level schedule cuts the cells, in order, into consecutive non-empty levels such that every lower-numbered neighbour of a cell lies in an earlier level, and a level ends only where the next cell has a neighbour in it.",
 ["inputs"], "all small meshes, spacings, numberings, anisotropy thresholds and graph orderings",
 "Tests use one structured mesh and one threshold.",
 ["mesh/meshordering.cpp", "mesh/ameshutils.cpp"],
 [("findLines, lineReorder, hybridLineReorder", "mesh/meshordering.cpp"), ("levelSchedule, preprocessMesh", "mesh/ameshutils.cpp")])

prop("P15", "Domain decomposition covers the mesh exactly once",
 "For any assignment of cells to processes, every cell belongs to exactly one subdomain and keeps its nodes, coordinates and global index; every physical boundary face goes to the process owning its cell with its marker. Every face between cells of different processes appears once on each of the two sides as a connectivity face that names the other process, the other cell and a common face identifier.",
 ["inputs", "configurations"], "all assignments of cells of small meshes to up to three processes",
 "Tests use a trivial or Scotch partition of one mesh.",
 ["mesh/meshpartitioning.cpp", "mesh/mesh.cpp"],
 [("ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions, point2elem/connectivity extraction", "mesh/meshpartitioning.cpp")])

prop("P16", "Ghost exchange delivers each neighbour's data to the matching face",
 "After a completed inter-process exchange of face data or cell data, every process holds, for each of its connectivity faces, exactly the values the neighbouring process set for the same face, in the same component order. This holds whatever order faces are listed on the two sides and however many neighbours there are.",
 ["inputs", "schedules"], "all value assignments, all listing orders of shared faces, all message delivery orders, up to three processes",
 "Tests run one mesh with 2-4 ranks where face orders happen to agree.",
 ["linalg/tracevector.cpp", "linalg/petscutils.cpp"],
 [("L2TraceVector update_comm_pattern, updateSharedFacesBegin/End", "linalg/tracevector.cpp")])

prop("P17", "Gradient schemes are exact on the fields they are designed for",
 "Weighted least-squares cell gradients reproduce any linear field exactly on any mesh whose neighbour centres are not collinear, Green-Gauss gradients of constant fields vanish and are exact for linear fields on symmetric stencils, and the zero-gradient scheme returns zero. Boundary and inter-process ghost values contribute exactly like interior neighbours.",
 ["inputs"], "all linear fields, cell shapes and ghost values on small meshes, any number of variables",
 "Tests check rates on one family of grids and an exact linear function for one variable.",
 ["spatial/agradientschemes.cpp"],
 [("WeightedLeastSquaresGradients, GreenGaussGradients", "spatial/agradientschemes.cpp")])

prop("P18", "Face reconstruction preserves constants, and limiters respect bounds",
 "Every reconstruction scheme returns the cell value on both sides of a face when the field is constant; the unlimited linear scheme is exact for linear fields on every internal and shared face; each side is extrapolated from its own cell. The Barth-Jespersen values stay within the range of the cell and all its neighbours, boundary ghosts included, and the Van Albada slope limiter does not overshoot the two values it interpolates and the Venkatakrishnan values leave the range by no more than their smoothing threshold (K times the longest cell edge, cubed); limiting never reverses or amplifies the extrapolation, and each limiter is its published function of the differences to the neighbours (Barth-Jespersen: no more limiting than the bounds require; Venkatakrishnan: with that threshold); WENO averages the gradients of the cell and its neighbours with weights that fall with the fourth power of their squared size.",
 ["inputs", "configurations"], "all cell values and gradients, each scheme, small meshes including boundary cells",
 "Tests never evaluate most limiters; bounds must hold for all data.",
 ["spatial/areconstruction.cpp", "spatial/limitedlinearreconstruction.cpp", "spatial/musclreconstruction.cpp", "spatial/reconstruction_utils.hpp"],
 [("compute_face_values of each reconstruction", "spatial/limitedlinearreconstruction.cpp")])

prop("P19", "The residual is conservative and preserves a free stream",
 "The assembled residual of every cell is the sum over its faces of length times outward numerical flux, so that the residuals summed over all cells equal minus the net boundary flux. A uniform state equal to the boundary states yields an identically zero residual on any mesh, with or without viscous terms and higher-order reconstruction.",
 ["inputs", "configurations"], "all states and any numerical flux on small meshes",
 "Tests look at converged norms on particular meshes.",
 ["spatial/flow_spatial.cpp", "spatial/aspatial.cpp"],
 [("compute_residual, compute_fluxes", "spatial/flow_spatial.cpp")])

prop("P20", "The local time step is the CFL-limited cell time scale",
 "The pseudo-time step stored for each cell is its area divided by the sum over its faces of the spectral radius (convective and, for viscous flow, diffusive) times the length, using each side's own state; it is positive and counts every internal, shared and boundary face exactly once. No step is written when it is not requested.",
 ["inputs"], "all states on small meshes",
 "Tests only see whether iterations converge.",
 ["spatial/flow_spatial.cpp"],
 [("compute_max_timestep / spectral radius accumulation in residual", "spatial/flow_spatial.cpp")])

prop("P21", "The assembled implicit operator is the derivative of the first-order residual",
 "Each block of the assembled Jacobian equals the derivative of the (negated, first-order) residual of the row cell with respect to the column cell, with boundary conditions linearised in; diagonal contributions accumulate from every face and off-diagonal blocks only couple face neighbours, including those on other processes. The system matrix can be set up for any mesh and distribution, down to one cell per process: square, with one block row of the requested size per cell, owned by the cell's process, and storing every such block.",
 ["inputs", "configurations"], "all states and any flux linearisation on small meshes, every block",
 "Tests compare a solver's convergence, which tolerates a wrong Jacobian.",
 ["spatial/aspatial.cpp", "spatial/flow_spatial.cpp", "linalg/petscutils.cpp"],
 [("assemble_jacobian, compute_local_jacobian_interior/boundary", "spatial/aspatial.cpp")])

prop("P22", "The matrix-free product is the directional difference of the residual",
 "Applying the matrix-free operator to a vector gives the pseudo-time mass term times the vector plus the finite difference of the residual at the current state in that direction, for every vector including zero. It leaves the current state unchanged.",
 ["inputs"], "all states, directions and time steps on small systems",
 "Tests only use it inside a linear solve.",
 ["linalg/alinalg.cpp"],
 [("MatrixFreeSpatialJacobian::apply", "linalg/alinalg.cpp")])

prop("P23", "CFL ramping and update relaxation stay within their limits",
 "The CFL number lies between the configured initial and final values, grows as the residual falls and is clipped at both ends. The local update relaxation factor lies between the configured minimum and one: it is one minus the larger of the relative density change and the relative (linearised) pressure change the full update would make, unless that is below the configured minimum, which is then used; so an update that changes neither is taken in full, and a density can only turn negative where the minimum is in force. Minimum factors outside (0,1] are refused.",
 ["inputs", "histories"], "all residual ratios, all update vectors and valid states",
 "A test history exercises a single ramp and rarely triggers relaxation.",
 ["ode/aodesolver.cpp", "ode/nonlinearrelaxation.cpp", "mathutils.hpp"],
 [("linearRamp, expResidualRamp", "ode/aodesolver.cpp"), ("FlowSimpleUpdate::getLocalRelaxationFactor", "ode/nonlinearrelaxation.cpp")])

prop("P24", "Explicit time integrators perform the scheme they name",
 "One forward-Euler pseudo-time step adds the time step divided by cell area times the negative spatial residual to each cell. The TVD Runge-Kutta integrator performs the classical strong-stability-preserving stages of the requested order with a common stable time step (the smallest over all cells of all processes, times the CFL number), each stage evaluated at the latest stage state, until the requested final time. Forward Euler stops when the area-weighted norm of the residual of the last unknown over all processes has fallen to the tolerance relative to its first value, or at the step limit, reports which, and records step, relative and absolute norm of each step when asked. On several processes both give the same result as on one.",
 ["inputs", "histories"], "all initial states and residual functions on small systems, orders one to three",
 "No test runs the unsteady integrator with a known answer.",
 ["ode/aodesolver.cpp"],
 [("SteadyForwardEulerSolver::solve, TVDRKSolver::solve", "ode/aodesolver.cpp")])

prop("P25", "Mesh files are read and written faithfully",
 "Reading a Gmsh 2 or SU2 mesh file yields exactly the points, cells, boundary faces and markers in the file, whatever element types are mixed, however many tags the elements have (tags an element does not have read as zero) and however the boundary faces are distributed over the SU2 markers, including markers without faces. The reader is chosen by the extension: su2 for SU2, Gmsh otherwise. Writing a mesh in Gmsh format and reading it back gives the same points (with the full precision of the coordinates), cells, boundary faces and markers; tags are added only so that each element has at least two. The conversion program writes the mesh it reads in the format asked for, and writes nothing and fails when an argument is missing or the format is unknown.",
 ["inputs"], "all small mixed meshes, coordinates, tags and markers",
 "Tests read a few fixed files.",
 ["mesh/meshreaders.cpp", "mesh/mesh.cpp", "utilities/convertformat.cpp"],
 [("readGmsh2, readSU2, readMesh", "mesh/meshreaders.cpp"), ("writeGmsh2", "mesh/mesh.cpp")])

prop("P26", "Post-processing and output files report the solution that was computed",
 "Nodal output values are those of the area-weighted averages of the conserved states of the cells around the node and reproduce a constant field exactly; cell output values are the point-wise conversions of the cell states (density, Mach number, pressure, temperature, velocity). The entropy error is the area-weighted L2 norm over all processes of the relative deviation of p/rho^gamma from its free-stream value. The pressure coefficient of each wall face is 2(p - p_inf), the skin friction coefficient 2 mu ((grad u + grad u^T) n).t with t = (n2,-n1) and mu the selected constant or Sutherland viscosity, and lift, pressure drag and friction drag are their projections normal to and along the free stream integrated over all wall faces with the marker on all processes, divided by the total length. Surface, volume and VTU files contain these values, the mesh (points, cell nodes, offsets, VTK cell types) and the data given, in order and separated.",
 ["inputs"], "all states on small meshes, all free-stream angles",
 "Tests compare entropy norms and one regression value.",
 ["spatial/aoutput.cpp", "spatial/flow_spatial.cpp", "spatial/diffusion.cpp"],
 [("postprocess_point/cell, compute_entropy_cell, exportSurfaceData, exportVolumeData, writeScalarsVectorToVtu_*, writeMeshToVtu", "spatial/aoutput.cpp"), ("FlowFV_base::computeSurfaceData", "spatial/flow_spatial.cpp"), ("scalar_postprocess_point", "spatial/diffusion.cpp")])

prop("P27", "Control settings reach the solver as written",
 "Each recognised control-file entry sets exactly the corresponding option: numbers as written (the angle of attack converted from degrees to radians), names irrespective of letter case, lists of markers and boundary conditions in order with their marker, type and values. Omitted optional entries take their defaults whatever was in memory before (no initialisation solve, smallest relaxation factor 0.2, temperature 298 and infinite Reynolds number for inviscid flow, no volume output, linear system not written), a missing required entry is an error, and the mesh file, log prefix and output of the final linear system can be set or overridden on the command line. PETSc-style options return the given integer, real, string or array, or the default, or an error if required. The options reach the physics and numerics settings of the discretisation unchanged, and a scheme name selects exactly the flux, Jacobian flux, gradient scheme, reconstruction or update scheme it names, with its parameters; unknown names are refused.",
 ["inputs", "configurations"], "all option values and combinations of present or absent optional entries",
 "Tests use a few fixed control files.",
 ["utilities/controlparser.cpp", "utilities/afactory.cpp", "utilities/aoptionparser.cpp", "spatial/abctypemap.cpp"],
 [("parse_flow_controlfile", "utilities/controlparser.cpp"), ("scheme factories", "utilities/afactory.cpp"), ("parsePetscCmd_*", "utilities/aoptionparser.cpp")])

prop("P28", "Array containers behave as value-semantic matrices",
 "Two-dimensional arrays return, through every accessor, the last value written to each entry, and nothing else changes; storage is row-major; copies and assignments (self-assignment included) are deep and independent, moves leave an empty array behind, resizing gives the requested shape, zeros, ones and setdata fill every entry, and views address the same entries as the array they view. The inclusive prefix sum returns the running sums of its argument, and the in-place form leaves the same in its argument.",
 ["inputs", "histories"], "all small shapes, indices and contents",
 "Tests do not exercise the containers directly.",
 ["utilities/aarray2d.hpp", "utilities/aarray2d.cpp", "utilities/helper_algorithms.hpp"],
 [("amat::Array2d, Array2dView", "utilities/aarray2d.hpp"), ("inclusive_scan", "utilities/helper_algorithms.hpp")])

prop("P29", "The diffusion solver discretises the heat equation consistently",
 "The residual the scalar diffusion solver adds up is the sum of the face diffusive fluxes (diffusivity times the corrected face gradient, times the face length, with the Dirichlet ghost value 2b-u beyond a boundary face) plus the source at the cell centre times the cell area. The flux through an internal face leaves one cell and enters the other, is exact for linear fields, and everything vanishes for the uniform field equal to the boundary value without a source. The gradients it reports are those the residual uses. When asked, it stores for every cell the square of its longest side over the diffusivity, and otherwise leaves the time scales alone. Its assembled operator is the derivative of the thin-layer part of that flux, boundary faces included, so that rows of cells away from the boundary sum to zero and the operator is symmetric. Residual, time scales and operator do not depend on the number of processes. Its nodal output is the area-weighted average of the cells around each point.",
 ["inputs"], "all cell values, source functions and diffusivities on small meshes",
 "Tests check grid-convergence rates on one family.",
 ["spatial/diffusion.cpp"],
 [("DiffusionMA::compute_residual, Jacobian", "spatial/diffusion.cpp")])

prop("P30", "Shared-memory parallel loops give the sequential result",
 "For every schedule of the worker threads, the parallel loops over cells and faces compute what sequential execution computes: no two iterations write the same location, and none reads a location another writes, except through atomic or reduction updates.",
 ["schedules", "inputs"], "all interleavings of loop iterations",
 "Tests observe only the schedules that happen to occur.",
 ["spatial/flow_spatial.cpp", "spatial/agradientschemes.cpp", "ode/aodesolver.cpp"],
 [("omp parallel for loops", "spatial/flow_spatial.cpp")])

prop("P31", "An implicit pseudo-time step solves the linearised system of the residual",
 "In each step the backward Euler solver hands the linear solver the Jacobian of the residual plus cell volume over (CFL times local time step) on the diagonal of every row, whatever the matrix held before, and the residual (the negative of the net outgoing flux) at the current state as the right-hand side; it adds the returned update, scaled by the local relaxation factor, to the state of each cell, and carries ghost cells along. A matrix-free operator given to the linear solver acts at the current state, with the pseudo-time term of the step. It stops when the area-weighted norm of the residual of the last unknown over all processes has fallen to the tolerance relative to its first value, or at the step limit and then reports that the tolerance was not reached, and records step, relative and absolute norm and CFL number of each step when asked. On several processes the step is the same as on one.",
 ["inputs", "histories"], "all states, residuals, Jacobians, time steps and linear-solver answers on small systems",
 "Tests compare convergence histories of converging cases, which many wrong linear systems also reach.",
 ["ode/aodesolver.cpp", "spatial/aspatial.cpp"],
 [("SteadyBackwardEulerSolver::solve, addPseudoTimeTerm", "ode/aodesolver.cpp"), ("Spatial::assemble_jacobian", "spatial/aspatial.cpp")])

prop("P32", "Case drivers run the solve that the settings describe and report its outcome",
 "The initial state of a case is the free stream in every owned and ghost cell. A steady case solves, if an initialisation is requested, a first-order problem on the same mesh and gas with the initialisation CFL numbers, tolerance and iteration limit, carries on to the main problem from its result even if that solve has not converged, and then solves the given problem with the main settings, explicitly or implicitly as requested, with the linear operator matrix-free only if asked for and the preconditioning matrix always assembled. Only a main solve that has not converged or has diverged is reported as an error; a convergence history and timing file are written exactly when requested and converged, one row per step. The mesh is read from the named file. A run with output writes the surface, solution and volume files that are requested, from the final state, also when the tolerance was not met, and returns the entropy error, mesh size and the force coefficients of the first wall marker (zero without walls); any other failure is an error. An unsteady case runs the TVD Runge-Kutta integrator with the given order, CFL number and final time, and refuses other integrators.",
 ["inputs", "configurations", "histories"], "all settings, states, solver outcomes and combinations of requested output",
 "Tests run complete cases to convergence with a handful of control files and never see failing solves, missing walls or the settings passed to the starter.",
 ["utilities/casesolvers.cpp", "utilities/casesolvers.hpp"],
 [("FlowCase::run, run_output, SteadyFlowCase::execute*, UnsteadyFlowCase::execute, initializeSystemVector, constructMeshFlow", "utilities/casesolvers.cpp")])

prop("P33", "Periodic boundary faces are paired by position",
 "After the periodic map of a marker and an axis has been computed, the cell beyond each boundary face with that marker is the interior cell of the one other face with the marker whose centre has the same coordinate across the period (to within the accuracy of a mesh file). Faces with other markers, interior and inter-process faces, cells, nodes and markers are not changed, and without a valid marker or axis nothing is.",
 ["inputs"], "all small grids with two matching sides along either axis, all numberings, splittings and coordinates",
 "One test pairs the sides of a single regular mesh.",
 ["mesh/mesh.cpp", "mesh/mesh.hpp", "utilities/casesolvers.cpp"],
 [("UMesh::compute_periodic_map", "mesh/mesh.cpp")])

prop("P34", "Comparing two meshes tells exactly what differs",
 "compareMeshes answers, in this order, whether the numbers of cells, of points and of physical boundary faces are the same, whether every cell has the same number of points and of faces, whether the cells' points, the boundary faces with their markers, and the coordinates (up to rounding) are the same. Lists of different length are different; nothing outside the meshes is read, in whichever order the two are given.",
 ["inputs"], "all pairs of small meshes: same or different sizes, splittings, numberings, markers and coordinates",
 "The only use compares meshes that should be equal; a comparison that misses a difference passes.",
 ["mesh/ameshutils.cpp"],
 [("compareMeshes", "mesh/ameshutils.cpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
