#!/usr/bin/env python3
# Writes properties.jsonl (run by hand when the list changes).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Data stored in HDF5 files reads back exactly",
 "Any array, 2D array, vector, dense matrix, tensor, sparse matrix, block matrix, collection of matrix blocks, hyper-reduction sample list, scalar attribute, string attribute or basis tag that the library's HDF5 layer writes is read back by the same layer bit for bit: same shape, same entries, same entry order. This holds whatever else is in the file, for any order of writes and reads, over close and reopen by another process, for reads into objects that already hold other data, and when the operating system interrupts or shortens the individual reads and writes. Absent sub-blocks read back as absent, and empty containers as empty.",
 ["inputs","histories","fault_sequences"],
 "all values and shapes (including NaN, infinities, -0, denormals, empty arrays, absent blocks), all write/reopen/append/read histories over one or more files, all patterns of EINTR and short reads/writes",
 "test_hdf5_utils.cpp checks five hand-picked objects, each written and read once in one process, with no other data in the file and no I/O interruption.",
 ["include/hdf5_utils.hpp","src/hdf5_utils.cpp","src/hyperreduction_integ.cpp"],
 [("typed write/read pairs that store the shape with the data and the transpose of column-major objects","hdf5_utils::WriteDataset/ReadDataset/WriteAttribute/ReadAttribute"),("element, quadrature point and weight lists kept aligned","EQPElement::Save/Load")],
 ["values returned by the readers in a fresh process"])
p("C02","A save that did not reach the disk is never reported as done",
 "When a save operation returns normally, everything it was asked to save is in the file and a later process reads it back exactly. If the disk is full, the disk or a system call fails, or a write is cut short at any point of the save, the save ends the program with an error instead of returning.",
 ["fault_sequences","inputs"],
 "every position of a failing write, truncate or open in the I/O stream of a save, ENOSPC/EIO/EACCES, transient or persistent, for the generic HDF5 writers, the ROM element library and the port files",
 "No test injects an I/O failure; all of them write to a healthy disk.",
 ["include/hdf5_utils.hpp","src/hdf5_utils.cpp","src/rom_element_collection.cpp","src/component_topology_handler.cpp"],
 [("status of every HDF5 create/write/close is asserted","hdf5_utils::Write*, ROMLinearElement::Save, ComponentTopologyHandler::WritePortDataToFile")],
 ["normal return of the save versus the file as a fresh process reads it"])
p("C03","A read that failed never returns made-up data",
 "Every load from an HDF5 file either returns exactly what was stored or ends the program with an error. It never returns normally with other values, whether the disk returns an error, the file is truncated or an item is missing.",
 ["fault_sequences","inputs"],
 "every position of a failing read/open/stat in the I/O stream of a load, EIO once or persistent, truncation of the file at any length, missing datasets, groups and attributes, for the generic HDF5 readers, the ROM element library, port files and global configuration files",
 "No test injects a read failure or a truncated file.",
 ["include/hdf5_utils.hpp","src/hdf5_utils.cpp","src/rom_element_collection.cpp","src/component_topology_handler.cpp","src/hyperreduction_integ.cpp"],
 [("status of open and read asserted; stored sizes cross-checked","hdf5_utils::Read*, ReadSparseMatrix, ReadBlockMatrix")],
 ["values returned by the readers under fault"])
p("C04","The ROM element library gives each component its own matrices",
 "After a library of reduced component, mass, boundary and port matrices is saved, loading it for any assembly made of components of that library gives every component, every boundary of it and every reference port exactly the matrices saved for the component or port of that name. This does not depend on the number, order or placement of the components in the assembly that saved or loaded it, nor on what the loading object held before. A library that lacks a needed component or port is rejected with an error.",
 ["configurations","histories"],
 "all pairs of saving and loading assemblies over a set of component meshes (subset, reordered, repeated components and ports), one or several variables, arbitrary sparse content, repeated save/load",
 "Only full workflow tests (which need libROM) use it, with the same assembly at save and load and one component.",
 ["src/rom_element_collection.cpp","include/rom_element_collection.hpp","src/hdf5_utils.cpp"],
 [("groups keyed by component name, boundary index and comp1:comp2-attr1:attr2","ROMLinearElement::Save*/Load*")],
 ["public matrices of the loaded library"])
p("C05","A crash during a save never leaves a file that loads as something else",
 "If the process is killed at any point while it saves a ROM element library, a port file, a set of hyper-reduction samples or any other result file, a later run that opens that file either gets an error or gets the complete saved data. It never gets partial or mixed content without an error, also when the file existed before the save.",
 ["crash_points","histories"],
 "every I/O operation of a save as crash point, with the last write applied not at all, in part or in full; file absent or present before; followed by restart, load, and a repeated save",
 "No test kills a process or restarts from its files.",
 ["src/rom_element_collection.cpp","src/component_topology_handler.cpp","src/hdf5_utils.cpp","src/multiblock_solver.cpp"],
 [("files are created with truncation and closed before use; counts are stored and checked on load","Save/Load, WritePortDataToFile/ReadPortDatasFromFile")],
 ["outcome of the load after restart"])
p("C06","A port means the same interface wherever its description comes from",
 "The assembled topology (port data, paired boundary elements, relative orientations, attribute maps) is the same whether a port's data are computed from its description in the input file, from its description in the global configuration file, or read from a port file that an earlier run wrote. This also holds when several processes start together with port writing enabled, or after a writer crashed: a process may stop with an error, but never continues with a different topology.",
 ["configurations","schedules","crash_points","histories"],
 "all assemblies of the component meshes (2D and 3D), all orders of ports and of ports within port files, all interleavings of up to 4 processes that write and read port files, all crash points of the writer",
 "test_topol.cpp builds one 2D and one 3D topology from descriptions; port files are neither written nor read, and there is one process.",
 ["src/component_topology_handler.cpp","include/component_topology_handler.hpp"],
 [("port file stores vertex map and boundary element pairs","WritePortDataToFile/ReadPortDatasFromFile"),("first definition of a port wins","SetupReferencePorts")],
 ["topology as seen through the public accessors"])
p("C07","Neighbouring subdomains meet face to face",
 "For every port, the paired boundary elements are a one-to-one match of the two subdomains' boundary elements with that port's attributes, and the face points of each pair coincide in space under the interface transformations. Every subdomain boundary element belongs either to exactly one port or to the global boundary and carries the corresponding attribute, and together the subdomains hold every element of the domain exactly once.",
 ["configurations","inputs"],
 "all assemblies and placements of component meshes (2D quads/triangles, 3D hexes/tets, rotated 2D components), all decompositions of a mesh by element attribute, uniform refinement, and histories of several topologies built in one process",
 "test_topol.cpp and the *_dd_mms tests look at two or three fixed meshes.",
 ["src/topology_handler.cpp","src/component_topology_handler.cpp"],
 [("matching of parent faces / mapped vertices, orientation from face vertex order","BuildInterfaceInfos, BuildPortDataFromInput, SetupReferenceInterfaces, GetInterfaceTransformations"),("attribute maps","SetupBdrAttributes, UpdateBdrAttributes")],
 ["public accessors of the topology and the interface transformations"])
p("C08","All processes run with the same configuration",
 "With any number of processes, any input file and any schedule, every process ends up with the configuration that the input file and the command-line overrides denote, the same as one process without MPI would read. Overrides win over the file and leave all other options unchanged. The file need only be visible to the first process. If the file is missing there or cannot be read completely, or an override is malformed (no option name, or an unterminated list or map), the run stops with an error on every process; no process continues with an empty or partial configuration, and none waits forever.",
 ["schedules","inputs","fault_sequences"],
 "1 to 5 ranks, all interleavings of their MPI and I/O steps, eager or synchronising broadcast, file sizes from empty to several megabytes around internal buffer sizes, read errors, short reads and interruptions at any point, all override lists",
 "test_parser.cpp reads one small file with one rank.",
 ["src/input_parser.cpp","include/input_parser.hpp"],
 [("rank 0 reads, size then content are broadcast, every rank parses and applies overrides","InputParser::InputParser, OverwriteOption")],
 ["emitted configuration of every rank"])
p("C09","Options behave like a plain dictionary over any history",
 "After any sequence of setting, overriding and looking up options, every lookup returns the value last set for that path, or the fallback if none was set; lookups never change the configuration; and setting one path leaves every other path unchanged. A required option that is absent stops the program. List lookup by key returns the first entry that matches and reports absence if there is none.",
 ["histories"],
 "all sequences of set/get/required/find/create/list-lookup operations on nested paths, interleaved with whole-configuration replacement",
 "test_parser.cpp runs one short fixed sequence.",
 ["include/input_parser.hpp","src/input_parser.cpp"],
 [("path walk over nested YAML nodes with optional creation","FindNodeFromDict, SetOptionInDict, GetOptionFromDict, LookUpFromDict")],
 ["returned values and emitted configuration"])
p("C10","The time profile adds up over calls and processes",
 "The printed profile lists, for every timed section, the number of completed start/stop pairs and the total elapsed time summed over all processes, and the time per call is their quotient. It is printed once, by the first process of the profiler's communicator, for any interleaving of the processes, and sections can be timed and printed again. Starting a running section or stopping or printing an unstopped one stops the program with an error.",
 ["schedules","histories"],
 "all start/stop/print histories over several sections, 1 to 4 ranks, all schedules, arbitrary clock advances",
 "The profiler has no unit test, and real clocks cannot be compared with an exact expectation.",
 ["include/etc.hpp"],
 [("per-section stop watch and call counter, reduced to rank 0","TimeProfiler::Start/Stop/Print")],
 ["printed table"],None,None)
p("C11","Sampled parameters stay in range and cover the grid",
 "A parameter with n samples takes, for index 0 to n-1, values that start at the minimum, increase monotonically and end at the maximum up to rounding, evenly spaced (linear, or in the logarithm for log-scaled ones; integers and file numbers use the largest whole stride that does not pass the maximum), and every random draw lies within [minimum, maximum] whatever the random source returns, and draws reach the whole range. Setting a parameter changes only that parameter's option. File names contain exactly the number, in the given format.",
 ["inputs","histories"],
 "all ranges, sample counts, formats, scales and every stream of random numbers, interleaved over several parameters",
 "test_param_prob.cpp (needs libROM) looks at three parameters with one range each; random draws come from the real device.",
 ["src/parameter.cpp","include/parameter.hpp","src/etc.cpp"],
 [("index to value formulas","DoubleParam/IntegerParam/FilenameParam::SetParam, SetRandomParam"),("bounded uniform draws","UniformRandom")],
 ["configuration after each set"])
p("C12","Loading and saving leave no file open or locked",
 "After an operation of the library that opens files returns (building a topology, loading or saving a library, reading or writing data), the process holds no open handle, descriptor or lock on them. Hence the same process can rewrite, and another process can open, the same file right away, and any number of repetitions leaves the number of open files unchanged.",
 ["histories","configurations"],
 "all histories of topology construction (with every combination of where boundary and port data are stored), save, load and rewrite in one process, interleaved with other processes",
 "Each test opens a file once and ends.",
 ["src/component_topology_handler.cpp","src/rom_element_collection.cpp","src/hdf5_utils.cpp","include/hdf5_utils.hpp"],
 [("every open is paired with a close on all paths","H5Fopen/H5Fclose, H5Gopen/H5Gclose, H5Dopen/H5Dclose pairs")],
 ["open descriptors, advisory locks and open HDF5 object counts after each operation"])
p("C13","A problem depends only on its parameters, not on what ran before",
 "A newly selected parameterized problem has the same source terms, boundary functions, boundary types, initial conditions and material coefficients in a process that has run any sequence of other problems and parameter values as in a fresh process. (Boundary types that a problem derives from its parameters are those after the first parameter setting.) Setting a parameter by name and by index is the same, changes what it names and nothing else, setting it again to its old value restores the problem, and an unknown name stops the program.",
 ["histories"],
 "all sequences of problem selections, parameter settings by name or index, single-run settings and process restarts, over all problem types",
 "No test switches problems in one process; parameters live in global variables shared by problems.",
 ["src/parameterized_problem.cpp","include/parameterized_problem.hpp"],
 [("constructors reset the shared parameter variables to defaults; name-to-pointer map","ParameterizedProblem subclasses, SetParams, SetSingleRun")],
 ["values of the problem's public function pointers at random points and times"])
p("C14","Every sample is generated exactly once, and sampling ends",
 "For every number of processes and samples, each sample index of the parameter space is assigned to exactly one process, nested and flat sample indices correspond one to one, and sample generation always ends: normally, or with an error of the whole job, never by waiting forever. When there are at least as many samples as processes, each sample is solved exactly once and the solution files of a regular parameter grid are, bit for bit, those one process alone would write.",
 ["configurations","schedules"],
 "1 to 6 ranks, all sample-space shapes including fewer samples than ranks, all schedules; regular and random generators",
 "The tests that touch it need libROM and run with one rank.",
 ["src/sample_generator.cpp","src/random_sample_generator.cpp","src/main_workflow.cpp"],
 [("contiguous offsets per rank","DistributeSamples, IsMyJob"),("sampling loop","GenerateSamples")],
 ["set of samples each rank solves; termination within a bounded number of steps"])
p("C15","Snapshot and port records refer to the right snapshots",
 "The stored snapshots of a component are exactly the solutions of its subdomains, in order, and every port record points at the snapshot columns of its two neighbouring subdomains of the same solution. This remains true after the files of several sampling runs are written, reloaded and combined in any order, and an unfinished snapshot file is never used without an error.",
 ["histories","crash_points"],
 "all sequences of solutions over varying assemblies, split over any number of runs and files, with crashes during the write",
 "Workflow tests need libROM and use one file and one assembly.",
 ["src/sample_generator.cpp","include/sample_generator.hpp"],
 [("column index of each taken snapshot recorded per port tag, offset on collection","SaveSnapshot, SaveSnapshotPorts, WriteSnapshotPorts, CollectSnapshotsByPort")],
 ["snapshot matrices and port column pairs after collection"])
p("C16","A saved solution is restored exactly, with its time",
 "Loading a solution file into a solver of the same discretisation restores every subdomain's values, and the time step and time if they were saved with it, exactly. A solution of another size, an incomplete file or a file without the requested time information is rejected with an error. A save that is switched off leaves existing files as they are. A time integration that was killed and is continued from one of its restart files ends with exactly the solution, and writes exactly the later restart files, of an uninterrupted one, whatever visualization and restart intervals are chosen. An advection-diffusion solve with a flow field loaded from a file gives exactly the solution it gives with that flow field computed.",
 ["inputs","crash_points","histories"],
 "all solution contents and time stamps, overwrite histories, crash and disk failure at any point of either stage of the save, repeated kills of a time integration",
 "Needs libROM to build; the workflow tests do not check a restart.",
 ["src/multiblock_solver.cpp","src/unsteady_ns_solver.cpp"],
 [("solution dataset plus time attributes in one file","SaveSolution, SaveSolutionWithTime, LoadSolution, LoadSolutionWithTime"),("restart of the time integration","UnsteadyNSSolver::Solve, SetupInitialCondition")],
 ["solution vector and time after load"])
p("C17","The offline/online pipeline reproduces the full solution and survives interruption",
 "Running sample generation, training, ROM building and the ROM solve as separate processes that communicate by files: (1) with bases that hold every training solution, the ROM solution at a training parameter equals the full-order solution up to solver tolerance, and the reported relative error says so; (2) the building level (component, global, none), the ordering of the unknowns, the number of training processes, whether the compared full-order solution is loaded or recomputed, the reduced linear solver and its preconditioner (within their tolerance), whether the training samples come from one sampling run or several, an additional training of supremizers or auxiliary variables, and further outputs (visualization of the solution, of a part of the subdomains, of the basis, singular values and vectors, the reduced system and solution) do not change the ROM solution beyond tolerance, and component-wise operators stored for one assembly give, for the same assembly with its subdomains, components and ports numbered otherwise, the same solution, and for any other assembly of components and ports it contains, the solution that operators made for that assembly give; (3) when a stage is killed at any point or its file operations fail, and the stage is then repeated, the pipeline ends with bit for bit the same ROM solution as without the interruption, or a stage stops with an error, and then starting over from sampling succeeds. Files of an earlier run with other parameters may be present. Linear problems, and steady Navier-Stokes with the tensor operators. Not promised: problems without a unique solution (no Dirichlet condition, an enclosed flow), Newton's method from a start far from the solution.",
 ["crash_points","histories","configurations"],
 "all stages and crash points, resumed from what the crash left on disk; all problems, assemblies and building levels",
 "test_workflow.cpp needs libROM, runs the stages once for fixed assemblies, without a crash.",
 ["src/main_workflow.cpp","src/sample_generator.cpp","src/rom_handler.cpp","src/multiblock_solver.cpp","src/poisson_solver.cpp","src/linelast_solver.cpp","src/stokes_solver.cpp","src/steady_ns_solver.cpp","src/rom_element_collection.cpp"],
 [("stages exchange snapshot, basis, element and solution files","main_workflow"),("component-wise operators are assembled bottom-up","AssembleROMMat"),("the projected full-order operator","ProjectOperatorOnReducedBasis")],
 ["ROM solution and error file of the last stage"])
p("C18","Hyper-reduced flow models reproduce the flows they were trained on",
 "Running sample generation, training, hyper-reduction (EQP) training, ROM building and the ROM solve of a steady or unsteady Navier-Stokes problem as separate processes that communicate by files: (1) with bases that hold every training solution and a tight training tolerance, the hyper-reduced solution at a training parameter equals the full-order solution within that tolerance, and the reported error says so, for the base convection operator and, with no-slip and free boundaries, for the Lax-Friedrichs operator (a prescribed inflow is only approximated by the latter); (2) precomputed coefficients or not, the ordering of the unknowns, the numbering of subdomains, components and ports, whether the samples come from one sampling run or several, and, for the base operator, the reduced tensor instead of hyper-reduction do not change the solution beyond tolerance; (3) when a stage is killed at any point or its file operations fail, and the stage is then repeated, the pipeline ends with bit for bit the same solution as without the interruption, or a stage stops with an error, and then starting over from sampling succeeds. Printed sample points lie in the elements they were chosen from. Assemblies without rotated components; hyper-reduction training on one process.",
 ["crash_points","histories","configurations"],
 "all stages and crash points, resumed from what the crash left on disk; all flows, assemblies, operators and orderings",
 "test_workflow.cpp needs libROM and runs the base operator once for one fixed assembly; the unsteady and Lax-Friedrichs reduced models have no test.",
 ["src/main_workflow.cpp","src/steady_ns_solver.cpp","src/unsteady_ns_solver.cpp","src/rom_nonlinearform.cpp","src/rom_interfaceform.cpp","src/hyperreduction_integ.cpp","src/sample_generator.cpp","src/hdf5_utils.cpp"],
 [("sample points and weights per component and port, stored by name","SaveEQPElems, LoadEQPElems, ROMInterfaceForm::SaveEQPForIntegrator"),("hyper-reduced operator","SteadyNSEQPROM, UnsteadyNSSolver::SolveROM"),("training pairs of a port","TrainROMEQPElems, LookUpSnapshotPortColOffsets")],
 ["ROM solution and error file of the last stage"])
p("C19","The full-order solution solves the problem, however the problem is stated",
 "Solving a problem at full order gives the same solution, up to solver tolerance, in every way the input can state it: (1) with the subdomains, components, ports, interfaces and boundary rows numbered differently, and with the two sides of a port exchanged; (2) in full discontinuous Galerkin discretisations, with the domain divided into subdomains differently, not divided at all, or given as one decomposed mesh instead of an assembly of component meshes, with or without uniform refinement; (3) with the direct or a converged iterative linear solver, with or without algebraic multigrid; (4) by a single run or by the sample generation. That solution solves the problem: tested with every function of the discrete space it satisfies the problem's equations with its coefficients, sources and boundary data, continuity between subdomains (and, in full discontinuous Galerkin discretisations, between elements) being imposed by interior penalty terms, and every time step of an unsteady flow follows from the step before it. The same input solved again, in memory left dirty by other computations, gives the same solution. When the solve is killed or a file operation fails it ends with an error; it never reports success with another solution.",
 ["configurations","inputs","crash_points"],
 "all problems, assemblies, divisions of the domain, numberings and solvers; crash and disk failure at any point of the solve",
 "The existing tests solve a few fixed decompositions of one manufactured solution per equation and never compare two statements of the same problem.",
 ["src/multiblock_solver.cpp","src/poisson_solver.cpp","src/linelast_solver.cpp","src/stokes_solver.cpp","src/steady_ns_solver.cpp","src/unsteady_ns_solver.cpp","src/advdiff_solver.cpp","src/interface_form.cpp","src/interfaceinteg.cpp","src/dg_bilinear.cpp","src/dg_linear.cpp","src/component_topology_handler.cpp","src/topology_handler.cpp","src/main_workflow.cpp"],
 [("interface terms between subdomains","InterfaceForm::AssembleInterfaceMatrices"),("boundary conditions by global attribute","SetupBCOperators, SetBdrType"),("full-order solves","BuildOperators, Assemble, Solve")],
 ["full-order solution vector of every subdomain"])
# pure functions: not decidable by this family
p("C20","Nonlinear integrators return the exact derivative",
 "For every state, the assembled gradient of each nonlinear domain, face and interface integrator is the derivative of its assembled residual.",
 ["inputs"],"all states and meshes","nonlinear_integ_grad.cpp and interfaceinteg_grad.cpp sample a few states",
 ["src/nonlinear_integ.cpp","src/interfaceinteg.cpp"],[("hand-written gradients","AssembleElementGrad, AssembleInterfaceGrad")])
p("C21","Hyper-reduction with all quadrature points equals full quadrature",
 "Evaluating a hyper-reduced integrator with every quadrature point and its own weight gives the same residual and gradient as the full integrator, with and without precomputed coefficients.",
 ["inputs"],"all states, bases and meshes","test_rom_nonlinearform.cpp samples a few",
 ["src/hyperreduction_integ.cpp"],[("per-point assembly","AssembleQuadratureVector, AddAssembleVector_Fast")])
p("C22","Discretisations converge at their design order",
 "The domain-decomposed discontinuous Galerkin solutions converge to the exact solution at the order of the finite element space, independent of the decomposition.",
 ["inputs","configurations"],"all manufactured solutions and decompositions","the *_dd_mms tests run a few refinements of one solution each",
 ["src/dg_bilinear.cpp","src/dg_linear.cpp","src/interfaceinteg.cpp"],[("symmetric interior penalty forms","integrators")])
p("C23","The block smoother solves block-diagonal systems exactly",
 "One sweep of the dense block Gauss-Seidel smoother on a block-triangular system solves it up to round-off.",
 ["inputs"],"all matrices","test_block_smoother.cpp tries a few",
 ["src/block_smoother.cpp"],[("dense block factorisation","BlockGSSmoother::Mult")])
p("C24","Dense tensor and projection kernels equal their index formulas",
 "Tensor contractions, projections R'AP and sub-matrix products equal their defining sums.",
 ["inputs"],"all sizes and values","test_linalg_utils.cpp tries a few",
 ["src/linalg_utils.cpp"],[("loops over indices","TensorContract, RtAP, MultSubMatrix")])
open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
