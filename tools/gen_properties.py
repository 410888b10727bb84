#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "Full sweeps give the sequential answer under any partition and schedule",
 "For the full-sweep modes (both precomputed-schedule modes and graph traversal), the angular flux that is produced is, up to rounding, the one a sequential cell-by-cell upwind sweep of the whole mesh produces. It does not depend on how cells are divided among ranks, the number of threads, the work limit per step, the intra/inter-angle priority choices, the communication mode, the order in which messages arrive or how threads interleave.",
 ["schedules", "configurations", "inputs"],
 "all meshes x all assignments of cells to ranks x thread counts x step limits x priorities x communication modes x message timings/thread interleavings",
 "The tests compare one mesh, one kind of partition (columns), one step limit (100), a few priorities and whatever timing the machine produced against a gold file; they cannot enumerate partitions or timings.",
 ["src/Sweeper.cc", "src/SweeperTraverse.cc", "src/GraphTraverser.cc", "src/SweepSchedule.cc", "src/SweepData.hh", "src/Transport.cc", "src/TychoMesh.cc", "src/TychoMeshIO.cc"],
 [("dependency counting and packet exchange", "src/GraphTraverser.cc traverse"), ("send/recv of side data per step", "src/Sweeper.cc send/recv/updateComm"), ("boundary data gathered from neighbours", "src/Transport.cc populateLocalPsiBound")],
 ["psi output file"])

prop("C02", "Every run terminates cleanly whatever the legal message timing",
 "For every legal timing and buffering behaviour of the message-passing layer (including sends that complete only when the matching receive is posted) a run on a mesh without cyclic dependencies ends: no rank waits forever. When it ends, every message that was sent has been received, by the operation it was meant for, and all ranks took part in the same collective operations.",
 ["schedules", "configurations"],
 "all interleavings of ranks, all per-message buffering choices, all outcomes of probe/test/wait-any, for every sweep mode, partition and work limit",
 "A real MPI library buffers the small messages of the test meshes and picks one timing, so head-to-head blocking sends, lost wake-ups and unmatched messages never show up.",
 ["src/GraphTraverser.cc", "src/Sweeper.cc", "src/SweepSchedule.cc", "src/CommSides.cc", "src/Comm.cc", "src/TychoMeshIO.cc", "src/Main.cc"],
 [("size/data handshake and kill signal", "src/GraphTraverser.cc sendAndRecvData"), ("two-sided probe/receive", "src/GraphTraverser.cc sendData2Sided/recvData2Sided"), ("schedule construction exchange", "src/SweepSchedule.cc sendOrders/recvOrders/sendLevels/recvLevels"), ("step communication in thread order", "src/Sweeper.cc")],
 ["termination", "message queues at finalize"])

prop("C03", "Traversal visits each cell-angle pair once, after its upwind neighbours",
 "A graph traversal updates every (cell, direction) pair of every rank exactly once, and only after all pairs it depends on (upwind cells for a forward traversal, downwind cells for a backward one; across rank boundaries too when communication is on) have been updated. The data a pair published for a face shared with another rank has been delivered to exactly the matching face and direction on the other rank before the dependent pair is updated, and faces are described to the update as interior, rank boundary or external, inflow or outflow, as the mesh says.",
 ["schedules", "inputs", "configurations"],
 "all meshes, partitions, both traversal directions, communication on/off, thread counts, step limits, priorities and message timings",
 "Tests only look at the final flux of forward sweeps; the backward traversal, the exactly-once guarantee, the packet routing and the face classification are not observed, and only one timing is run.",
 ["src/GraphTraverser.cc", "src/GraphTraverser.hh"],
 [("dependency counts and priority queues", "src/GraphTraverser.cc constructor/traverse"), ("packets addressed by global side", "src/GraphTraverser.cc createPacket/splitPacket")],
 ["calls into the traversal data object"])

prop("C04", "Threads never race and message passing stays within its thread level",
 "In every parallel section, two threads never access the same memory without ordering between them when one of the accesses is a write. Message-passing calls made from parallel sections are never concurrent, and never exceed the threading level that the program asked the message-passing layer for.",
 ["schedules", "configurations"],
 "all thread interleavings of all parallel sections, for all sweep modes, 2-3 threads, partitions and priorities",
 "A race or an unserialised call only shows under particular interleavings; the tests run whatever the OS scheduler does and compare results at 1e-10.",
 ["src/GraphTraverser.cc", "src/Sweeper.cc", "src/Util.cc", "src/Priorities.cc", "src/SweepData.hh", "src/Main.cc"],
 [("one angle group per thread", "src/GraphTraverser.cc angleGroupIndex, src/Sweeper.cc Sweeper"), ("atomic counter / critical section", "src/GraphTraverser.cc, src/Priorities.cc"), ("thread-ordered communication turn", "src/Sweeper.cc sweep"), ("requested thread level", "src/Main.cc")],
 ["memory accesses", "MPI call sites"])

prop("C05", "Buffers handed to pending communication stay valid and untouched",
 "From the moment a buffer is given to a non-blocking send until the operation is known complete, its memory is neither modified nor released; from the moment a buffer is given to a non-blocking receive until completion it is neither read, written nor released by the program. Every non-blocking operation that is started is completed, and no receive is posted that is too small for its message.",
 ["schedules", "configurations"],
 "every non-blocking operation of every run, for all buffering choices and completion orders",
 "Small messages are copied eagerly by the MPI library on the test machine, so reusing the buffer too early has no visible effect there.",
 ["src/Sweeper.cc", "src/GraphTraverser.cc", "src/CommSides.cc", "src/TychoMeshIO.cc", "src/Comm.cc"],
 [("waits before buffers are reused", "src/GraphTraverser.cc sendAndRecvData/sendData2Sided; src/CommSides.cc; src/Sweeper.cc")],
 ["MPI request lifetime"])

prop("C06", "Precomputed sweep schedules are complete, ordered, bounded and matched",
 "The per-step work lists computed for a set of directions contain every (local cell, direction) of the set exactly once, never more than the configured number per step, and a cell appears only after all its upwind cells: earlier in the list or in an earlier step on the same rank, in a strictly earlier step on another rank. All ranks have the same number of steps, and in each step rank A lists B as a destination exactly if B lists A as a source and A computes in that step a cell with an outflow face towards B.",
 ["inputs", "configurations"],
 "all meshes, partitions, direction subsets, step limits and the 5x3 priority choices",
 "Tests see a schedule only through the flux on one mesh with one partition and a step limit of 100.",
 ["src/SweepSchedule.cc", "src/SweepSchedule.hh"],
 [("distributed topological sort", "src/SweepSchedule.cc calcOrdering/partialTopoSort"), ("dependency data from geometry", "src/SweepSchedule.cc calcDependencies")],
 ["work, send and receive lists per step"])

prop("C07", "The cell solve satisfies the discontinuous linear transport equations",
 "For every tetrahedron, direction, cross section, source and inflow data, the four nodal fluxes returned for a cell satisfy the linear discontinuous finite-element balance (streaming with upwind face fluxes, collision, source), hence particle balance in the cell. All four elimination methods return the same fluxes up to rounding, for each energy group independently.",
 ["inputs", "configurations"],
 "tetrahedra with every sign pattern of the face flows and every vertex ordering x directions x cross sections x sources x inflow values x elimination methods",
 "One mesh with a hat source samples a tiny part of the shapes and orderings, and compares against numbers produced by the same code.",
 ["src/Transport.cc"],
 [("local matrix and right-hand side", "src/Transport.cc calcVolumeIntegrals/calcOutgoingFlux/calcIncomingFlux/calcSource"), ("4x4 solves", "src/Transport.cc gaussElim4")],
 ["returned nodal fluxes"])

prop("C08", "Every supported quadrature is a valid direction set",
 "For every supported order N (2, 4, ..., 30) the direction set has 2N^2 directions, all direction vectors have unit length and no two coincide, all weights are positive and sum to 4 pi, and the set is symmetric under reflection in each axis. It integrates every monomial x^a y^b z^c of the direction components with a+b+c up to 2N-1 exactly, to rounding (so constants give 4 pi, odd monomials zero, squares 4 pi/3). Unsupported orders are refused.",
 ["inputs", "configurations"],
 "all supported orders (2..30 even) and all unsupported orders in a range around them",
 "The tests use order 8 only and never look at the directions or weights themselves.",
 ["src/Quadrature.cc", "src/Quadrature.hh"],
 [("Gauss-Legendre x Chebyshev product set", "src/Quadrature.cc")],
 ["direction and weight accessors"])

prop("C09", "Partitioning a mesh file loses, duplicates and misdirects nothing",
 "Writing a mesh file and reading it back returns the same mesh; splitting it by any assignment of cells to partitions puts every cell in exactly the partition assigned, with its own material and global number, every face in each partition that owns one of its cells, and only the nodes its cells use, with unchanged coordinates. Faces between partitions name both partitions and both partitions give the face the same global number; faces on the outside are marked external; interior faces name both local cells.",
 ["inputs", "configurations"],
 "all small meshes x all cell-to-partition assignments (including empty partitions), written to disk, read serially and in parallel by every rank",
 "Tests partition one mesh into columns and check only the resulting flux.",
 ["src/SerialMesh.cc", "src/ParallelMesh.cc", "src/Comm.cc"],
 [("serial file read/write", "src/SerialMesh.cc"), ("partition construction", "src/ParallelMesh.cc createFromSerialMesh"), ("per-partition offsets", "src/ParallelMesh.cc write/readInParallel")],
 ["mesh files and mesh structures"])

prop("C10", "Each rank's mesh has correct geometry, orientation and neighbours",
 "For every rank the mesh used by the solver agrees with the global mesh: cell volumes, face areas and outward normals are right, the local neighbour, neighbouring face, neighbouring rank, external or rank boundary of every face is right, and local/global cell and boundary-face numbering are inverse to each other and agree between ranks. Seen from its two cells a face has the same area, opposite flow for every direction, and corresponding vertices, also when the two cells live on different ranks; the recorded cell and face on the far side of a rank boundary are the right ones.",
 ["inputs", "configurations", "schedules"],
 "all small meshes x all vertex/face orderings in the file x all cell-to-rank assignments x quadrature orders x message timings during set-up",
 "One mesh, one partitioner; wrong connectivity that is unused or symmetric on that mesh is invisible in the flux.",
 ["src/TychoMesh.cc", "src/TychoMeshIO.cc", "src/TychoMesh.hh"],
 [("face index = opposite vertex", "src/TychoMeshIO.cc getLFaceIndex"), ("side numbering", "src/TychoMeshIO.cc readTychoMesh"), ("normals, areas, volumes", "src/TychoMesh.cc")],
 ["mesh accessors on every rank"])

prop("C11", "Damaged or foreign mesh files are refused, never silently used",
 "Reading a serial or partitioned mesh file that is truncated at any byte, or whose header does not carry the expected name and version, or a partitioned mesh whose partition count differs from the number of ranks, stops the program with an error on every path (serial reader and parallel reader). It never continues with partly read or leftover data.",
 ["fault_sequences", "inputs"],
 "every truncation length and every header byte changed, for both formats and both readers; every rank/partition count mismatch in range",
 "The tests only ever read intact files made for the right number of ranks.",
 ["src/SerialMesh.cc", "src/ParallelMesh.cc", "src/Comm.cc"],
 [("header and stream checks", "src/SerialMesh.cc read, src/ParallelMesh.cc read/readInParallel"), ("read wrappers", "src/Comm.cc readUint64/readChars")],
 ["program outcome"])

prop("C12", "The flux output file is complete, exact and partition-independent",
 "After a run with output enabled, the output file consists of the documented 64-byte header (name, version, global number of cells, directions and groups) followed by every global cell's values exactly once at its global position, holding exactly the computed values, and nothing else. This holds for every assignment of cells to ranks and also when a file of that name (of any size and content) existed before; with output disabled no file is touched.",
 ["inputs", "configurations", "schedules"],
 "all partitions, group counts, quadrature orders, pre-existing file states (absent, empty, shorter, equal, longer) and interleavings of the ranks' writes",
 "Tests remove old output and compare two files produced by the same writer.",
 ["src/PsiData.cc", "src/Comm.cc", "src/Main.cc"],
 [("offset by global cell", "src/PsiData.cc writeToFile"), ("exclusive create, delete and retry", "src/Comm.cc openFileForWrite")],
 ["bytes of the output file"])

prop("C13", "Input decks are read as documented and bad decks are refused",
 "A key/value deck is understood independently of the order of its entries, of blank space, blank lines and comments; each value is returned exactly as written with the type asked for. A missing key, a repeated key, a line that is not a key and a value, or a value that is not of the requested type or not one of the documented choices stops the program with an error rather than being guessed.",
 ["inputs"],
 "all decks up to a few lines over an alphabet of keys, values, separators, comments and malformed tokens; every required key removed, duplicated or given an invalid value",
 "The tests use a handful of well-formed decks.",
 ["src/KeyValueReader.cc", "src/Main.cc"],
 [("line parser", "src/KeyValueReader.cc"), ("option decoding", "src/Main.cc readInput")],
 ["returned values or termination"])

prop("C14", "Boundary exchange delivers every rank-boundary flux, whatever the arrival order",
 "After a boundary exchange every inflow value on a rank-boundary face equals the value the neighbouring rank's cell had at the geometrically same vertex, for every direction and group, and nothing else is changed. The outcome is the same for every order in which messages from different ranks arrive and for repeated exchanges in sequence.",
 ["schedules", "inputs", "configurations"],
 "all meshes, partitions up to 3-4 ranks, groups, repeated exchanges, and all arrival/completion orders",
 "The tests observe the exchange only through converged fluxes with a loose outer tolerance and one arrival order.",
 ["src/CommSides.cc", "src/CommSides.hh"],
 [("packets (global side, angle, data)", "src/CommSides.cc commSides"), ("send metadata and counts", "src/CommSides.cc CommSides")],
 ["boundary data after the exchange"])

prop("C15", "Domain-decomposition solvers converge to the full-sweep solution",
 "Every domain-decomposed solver (block Jacobi in its three variants and the Schur-complement/Krylov solver in its three variants), with source iteration or Krylov inside, converges within its tolerance to the same angular flux as the undecomposed transport solve, for every assignment of cells to ranks, including one rank and assignments where only some ranks have external boundaries. A block-Jacobi step uses exactly the neighbours' previous fluxes, and block Jacobi stops at the first step whose relative L1 change of the flux over all ranks is below its own tolerance, or at its iteration limit; all ranks stop at the same step.",
 ["configurations", "inputs"],
 "all partitions of small meshes x six solvers x inner solver x materials x groups x threads",
 "Tests run one partition per rank count with uniform materials and loose agreement.",
 ["src/SweeperPBJ.cc", "src/SweeperSchur.cc", "src/KrylovSolver.cc", "src/CommSides.cc", "src/Util.cc"],
 [("block Jacobi iteration", "src/SweeperPBJ.cc"), ("interface operators", "src/SweeperSchur.cc"), ("matrix-free GMRES", "src/KrylovSolver.cc")],
 ["psi output file"])

prop("C16", "Source iteration and Krylov solve the scattering problem as configured",
 "For tolerances below one, source iteration from a zero flux performs exactly the iterates of the fixed-point scheme, stopping at the first iterate whose relative L1 change of the scalar flux over all ranks is at or below the tolerance, or after the configured maximum number of iterations, identically on every rank. The Krylov option returns the solution of the same discrete equations to its tolerance, and both agree with each other when converged.",
 ["configurations", "inputs"],
 "iteration limits 0..n, tolerances crossing each iterate's error, scattering ratios including 0, two materials, groups, partitions",
 "Tests run to one tolerance on one problem, so an off-by-one iteration, a rank-local norm or a wrong scattering scale that converges anyway is not seen.",
 ["src/SourceIteration.cc", "src/Util.cc", "src/KrylovSolver.cc"],
 [("fixed point loop", "src/SourceIteration.cc fixedPoint"), ("linear operator and right-hand side", "src/SourceIteration.cc krylov")],
 ["psi output file", "iteration report"])

prop("C17", "Refinement splits each cell into eight and keeps the mesh valid",
 "Refining a mesh gives a conforming mesh with eight cells per cell: total volume and each parent's volume are preserved, children lie in their parent and inherit its material, all cells have positive volume, new nodes are the edge midpoints and old nodes are unchanged, the octahedron in the middle of a cell is split along its shortest diagonal, every interior face is shared by exactly two cells and every boundary face of the parent is covered by exactly four boundary faces. This holds for meshes of any size and for repeated refinement.",
 ["inputs", "histories"],
 "all small meshes x all vertex orderings of their cells x refinement depth 1-2",
 "There is no test of refinement.",
 ["util/RefineSerialMesh.cc"],
 [("edge and face tables, child construction", "util/RefineSerialMesh.cc")],
 ["refined mesh file"])

prop("C18", "The partitioners assign every cell to exactly one valid partition",
 "The column partitioner and the graph partitioner produce, for every mesh and partition count they accept, a partitioned mesh with the requested number of partitions in which every cell of the input occurs exactly once and with consistent partition boundaries; partition sizes are balanced as documented (columns are contiguous in x and then y with sizes differing only by the rounding of the equal split). Requests they cannot honour are refused.",
 ["inputs", "configurations"],
 "meshes with distinct and tied coordinates x partition grids / counts up to the number of cells",
 "Tests use a few column grids on one mesh and never look at the partitioned mesh; the graph partitioner is not tested.",
 ["util/PartitionColumns.cc", "util/PartitionMetis.cc", "src/ParallelMesh.cc"],
 [("sort by x then y", "util/PartitionColumns.cc"), ("dual graph", "util/PartitionMetis.cc")],
 ["partitioned mesh file"])

prop("C19", "Energy groups are independent and handled identically",
 "Running with n energy groups gives, in every group, the same angular flux as running with one group: no data of one group reaches another, in any sweep mode, inner solver, communication mode, thread count or partition. The reported difference between groups is the largest difference of any group's flux to that of the first group, relative to the largest magnitude of the first group's flux, both taken over all ranks.",
 ["configurations", "inputs"],
 "group counts 1..4 x sweep modes x partitions x threads x communication modes; per-group distinct data at the component interfaces",
 "All groups carry the same data in a whole run, so an index mix-up between groups is invisible to the tests.",
 ["src/PsiData.hh", "src/SweepData.hh", "src/Sweeper.cc", "src/CommSides.cc", "src/SweeperSchur.cc", "src/Transport.cc", "src/Util.cc"],
 [("group index in every data layout", "src/PsiData.hh, src/Mat.hh")],
 ["psi output file", "component interfaces with group-dependent data"])

prop("C20", "Moment and scattering operators are exact and thread-independent",
 "The scalar flux is the quadrature-weighted sum of the angular flux at every vertex, cell and group; spreading a scalar flux over directions copies it to each; the total source adds the isotropic share of scattering with each cell's own cross section to the fixed source. The results do not depend on the number of threads, and input arguments are unchanged except where an argument is documented as output (input and output may be the same object for the scattering operator).",
 ["inputs", "schedules", "configurations"],
 "basis vectors for every (group, vertex, direction, cell) of small problems x thread counts x materials",
 "Tests only see converged solutions with uniform groups and materials.",
 ["src/Util.cc", "src/PsiData.hh"],
 [("operators D, M, S", "src/Util.cc psiToPhi/phiToPsi/calcTotalSource/operatorS")],
 ["operator results"])

prop("C21", "Priorities follow the documented rules and work is done in their order",
 "The priority of each (cell, direction) is the documented one. With the level of a cell being its longest downwind chain in the whole mesh (a cell without downwind neighbours has level 0) and M the largest level over all ranks and directions: b-level priority is the level; breadth-first dependent seeking takes the highest level of a neighbouring descendant on another rank that can be reached on this rank; depth-first and strict depth-first take the largest of M + level and M + M*level for downwind neighbours on other ranks and of the priority less one of downwind neighbours on this rank; cells without descendants on other ranks have priority zero. Global angle ordering adds (direction index)*M*(global number of cells); local angle ordering adds the same multiple by the rank of the direction's highest local priority. Priorities never become negative or wrap around. Sweep schedules and traversals always take, of the work that is available to them, one of the highest priority, and full-sweep runs use the step limit and the priorities that the deck names, for all directions.",
 ["inputs", "configurations"],
 "all small meshes and partitions x the 5x3 priority choices x directions x step limits",
 "Priorities influence only the order of work; a wrong priority or a wrong queue order leaves every tested flux unchanged.",
 ["src/Priorities.cc", "src/SweepSchedule.cc", "src/GraphTraverser.cc", "src/SweeperTraverse.cc", "src/Sweeper.cc"],
 [("b-levels by backward traversal", "src/Priorities.cc BLevelData"), ("dependent-seeking priorities", "src/Priorities.cc NeighborPriorityData, src/SweepSchedule.cc neighborPriorities"), ("angle offsets", "src/Priorities.cc anglePriorities"), ("priority queues", "src/GraphTraverser.cc traverse, src/SweepSchedule.cc partialTopoSort")],
 ["priority table", "order of work"])

prop("C22", "The verification problem and its error report are right on any partition",
 "Each cell uses the cross sections of its own material, and a material that the deck does not describe stops the program. The fixed source is the manufactured source of the hat solution at every vertex, direction and group, finite everywhere, also in the centre of the cube. The reported relative L2 error, the norm of (cell average of the computed flux minus hat solution at the cell centre) over all cells, directions and groups divided by the norm of the computed cell averages, is that of the flux that was computed and of the whole mesh, the same for every assignment of cells to ranks.",
 ["inputs", "configurations"],
 "meshes with nodes inside, outside, on the edge and at the centre of the hat x materials x partitions x groups x quadratures",
 "Tests use one material in one mesh and do not compare the reported numbers across partitions.",
 ["src/Problem.cc", "src/Main.cc"],
 [("source and cross sections", "src/Problem.cc hatSource/createCrossSections"), ("global error norm", "src/Problem.cc hatL2Error")],
 ["source values", "printed error"])

prop("C23", "No invalid memory access, and no result that depends on unset memory",
 "Whatever the mesh, its partition, the deck, the number of threads and the fate of file operations, the program and the mesh tools read and write only inside objects that are alive, whether variables, arrays, allocated blocks or the buffers handed to MPI, to the solver library and to file functions; release nothing twice and nothing they do not own; index no array outside its bounds and perform no undefined arithmetic (integer overflow, division by zero, impossible shift or conversion); and what they compute, print and write does not depend on memory that was never set. This holds for refused decks and damaged files too, up to the message that refuses them.",
 ["inputs", "configurations", "fault_sequences"],
 "the scenarios of all other properties: meshes, partitions, decks, schedules, damaged files, failing file operations",
 "An overrun of a few bytes, a dangling pointer or an unset variable usually gives the right answer in a test, and appears only with particular sizes of a partition, a deck or a heap.",
 ["src/*.cc", "src/*.hh", "util/*.cc"],
 [("containers", "src/Mat.hh, src/PsiData.hh"), ("packets and buffers", "src/GraphTraverser.cc, src/CommSides.cc, src/SweeperSchurKrylov.cc, src/SweepSchedule.cc"), ("file readers", "src/ParallelMesh.cc, src/SerialMesh.cc, src/KeyValueReader.cc, src/Comm.cc"), ("tools", "util/*.cc")],
 ["memory accesses", "results"])

prop("C24", "Memory does not grow with the number of iterations",
 "What a run owns is bounded by the problem: a run with more source iterations, Krylov iterations or domain iterations needs, at its peak and at its end, the same memory on every rank as one with fewer (up to a few bytes for each iteration), for every sweep type, communication mode, partition and number of threads and groups: each sweep, exchange and linear solve releases the fluxes, packets, matrices, vectors and solver objects it created. Every file that a run opens is closed by the end of the run.",
 ["configurations", "histories"],
 "all sweep types x both iterations x communication modes x partitions x threads x groups, few against many iterations",
 "Tests make a few iterations on small meshes, where lost memory goes unnoticed; production runs with thousands of sweeps run out of memory.",
 ["src/PsiData.hh", "src/Mat.hh", "src/Sweeper*.cc", "src/GraphTraverser.cc", "src/CommSides.cc", "src/SourceIteration.cc", "src/KrylovSolver.cc"],
 [("owning containers", "src/PsiData.hh, src/Mat.hh destructors, resize, detach"), ("per sweep data", "src/Sweeper.cc, src/GraphTraverser.cc, src/SweeperSchurKrylov.cc, src/SweeperPBJ*.cc"), ("solver objects and files", "src/KrylovSolver.cc, src/PsiData.cc writeToFile, src/ParallelMesh.cc")],
 ["memory owned", "open files"])

prop("C25", "Reproducible results",
 "A run gives the same angular flux, bit for bit, every time: for a given mesh, partition, deck and number of threads, the output file does not depend on how messages and threads are timed nor on whether MPI buffers messages, for every sweep type and both iterations. Nor does it depend on the number of threads: for the same mesh and partition, the bits are the same with every number of threads. A full sweep gives the same bits with every partition, sweep type (OriginalTycho1, OriginalTycho2, TraverseGraph) and choice of priorities, when the same iterations are made.",
 ["schedules", "configurations"],
 "interleavings of ranks and threads up to a preemption bound x sweep types x iterations x partitions x threads x buffering",
 "A sum in order of arrival, or a flux taken one message too early, changes the last digits only, in some schedules; tests compare one run within a tolerance.",
 ["src/Sweeper*.cc", "src/GraphTraverser.cc", "src/CommSides.cc", "src/Transport.cc", "src/Util.cc", "src/SourceIteration.cc", "src/KrylovSolver.cc"],
 [("order of updates", "src/GraphTraverser.cc traverse, src/Sweeper.cc, src/CommSides.cc"), ("sums over angles", "src/Util.cc psiToPhi"), ("per cell solve", "src/Transport.cc")],
 ["psi output file", "Krylov iterations"])
prop("C26", "Information tools",
 "SerialMeshInfo and ParallelMeshInfo print exactly what the mesh file holds: the name of the file, the number of cells, faces, nodes and partitions, and with 'verbose' every item of every record, each under its own label, for every valid file and every number of ranks, in the order of the file, every partition once. With wrong arguments they explain their use and end normally on every rank.",
 ["inputs", "configurations"],
 "all shapes of small mesh files with distinct values in every field x real meshes x partitions x ranks x argument lists",
 "The tests do not run the tools on more than one file; a swapped field or a wrong bound shows only where the fields differ.",
 ["util/SerialMeshInfo.cc", "util/ParallelMeshInfo.cc", "src/SerialMesh.cc", "src/ParallelMesh.cc", "src/SerialMesh.hh", "src/ParallelMesh.hh"],
 [("printing", "src/SerialMesh.cc print, src/ParallelMesh.cc print and printPartitionData"), ("argument handling", "util/SerialMeshInfo.cc, util/ParallelMeshInfo.cc main")],
 ["standard output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
