import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)
L="src/lib/"
p("C01","A cdb deck is imported exactly, however the stream delivers it",
 "For every well-formed Ansys cdb/APDL deck in the supported dialects (NBLOCK, EBLOCK with or without SOLID, D, F, CE, CMBLOCK, ignored commands and comments, in any order; LF, CRLF or CR line endings; with or without a final newline) reading it reports success and yields exactly the deck's nodes, cells with their attributes, fixations, loads, constraint equations and components, in deck order, no matter how the operating system splits or interrupts the reads and no matter what the target mesh object held before. Renumbering the imported mesh to consecutive node numbers keeps every cell, fixation, load, constraint term and node component attached to the same physical nodes. Looking up cells by an attribute value or degenerated cells lists exactly the matching cells of the deck.",
 ["inputs","fault_sequences","histories"],"all decks of the grammar, all read chunkings/interruptions, all previous contents of the target",
 "The tests read a handful of fixed decks through the real file system in one big read and never compare the parsed data with the text; odd numbers of constraint terms, CR line endings, permuted node tables and short reads are never produced.",
 [L+"FEReaders.cpp",L+"FEReaders.h",L+"FEComponent.cpp",L+"Dof.cpp"],
 [("line splitter accepting all line endings","FEReaders.cpp getLine"),("fixed-width and comma tokenisers","FEReaders.cpp ssplit, Tokenizer"),("deck parser","FEReaders.cpp readCdbFile"),("renumbering","FEReaders.cpp MeshData::compressNumbers")],
 obs=["return value of the reader","public members of the mesh object"])
p("C02","A cut or unreadable cdb deck never turns into invented or torn data",
 "If a cdb deck ends early at any byte, or the device reports a read error at any point, the import either reports failure (false result, exception or program stop) or yields exactly the leading records of the deck: every record fully delivered is present and exact, and no record is present that the deck does not contain, except that the one record physically cut inside its last number may carry the shortened number. A device read error is never reported as success, and no damaged deck causes an out-of-bounds access or an endless loop.",
 ["inputs","fault_sequences","crash_points"],"all decks, all cut positions, all read-error positions",
 "No test reads a damaged file at all; the behaviour depends on the exact byte at which the stream stops.",
 [L+"FEReaders.cpp",L+"FEReaders.h"],
 [("width check of table rows","FEReaders.cpp ssplit"),("end-of-file handling","FEReaders.cpp getLine/readCdbFile")],obs=["return value, exception or abort of the reader","public members of the mesh object"])
p("C03","A Netgen neutral mesh is imported completely or the import reports failure",
 "For every well-formed neutral mesh file the import reports success and yields exactly its nodes, volume cells with their material numbers, and surface components, however reads are split or interrupted. If the file ends before everything its counts announce has been delivered, contains a token that is not a number where a number is due, or the device fails, the import does not report success.",
 ["inputs","fault_sequences","crash_points"],"all neutral meshes, all chunkings, all cut positions and read errors",
 "No test reads a neutral file; silent zero-filling on a short file needs a cut at a particular place.",
 [L+"FEReaders.cpp"],[("count-driven reader","FEReaders.cpp readNeuFile")],obs=["return value of the reader","public members of the mesh object"])
p("C04","Failing output, logging or clocks never change the computed results",
 "Whatever fails on the output side during an analysis (result files that cannot be created or opened, write errors, a full disk, short writes, at any write of any step) and whatever the wall clock does, the analysis performs the same steps and ends with exactly the same in-memory results as without faults: DoF values, reactions, element results and the recorded reaction curves are bit-identical, and every attached post-processor is still called once per step.",
 ["fault_sequences","configurations"],"all output fault sequences over all analyses (linear, nonlinear, transient) and post-processor sets; all clock behaviours",
 "The tests run on a healthy disk; an error return of one particular open or write is never produced.",
 [L+"ReactionProcessor.cpp",L+"VtkProcessor.cpp",L+"FESolver.cpp",L+"sys.h"],
 [("post-processor callbacks around the solve loops","FESolver.cpp *::solve"),("in-memory reaction curves","ReactionProcessor.cpp process")],
 state=[("reaction curves","sum of reactions per DoF and step","ReactionProcessor.h")],obs=["FEStorage getters","ReactionProcessor::getReactions"])
p("C05","Every VTK snapshot is a faithful, complete and final picture of its step",
 "When an analysis with a VTK writer is not disturbed, the directory holds exactly one snapshot for the initial state and one per published step, and each one parses as a legacy VTK unstructured grid whose points, cells, cell types, displacement, reaction, scalar-DoF and element-result fields equal the model's state at the moment of that step to the printed precision. A snapshot once written is never touched again: a crash or a disk fault at any instant leaves every snapshot completed before it byte-identical to the undisturbed one, and every snapshot whose own writes all succeeded is complete.",
 ["crash_points","fault_sequences","inputs","histories"],"all crash points and disk fault sequences over all models and step counts",
 "Tests never look into the vtk files; they cannot crash the process between two particular writes.",
 [L+"VtkProcessor.cpp",L+"VtkProcessor.h"],[("one truncating open per step, closed before return","VtkProcessor.cpp pre/process"),("field writers","VtkProcessor.cpp write_*")],obs=["bytes on the (simulated) disk"])
p("C06","The reaction history is ordered, exactly-once and crash-consistent",
 "A reaction recorder's in-memory curve always holds the initial zero followed by exactly one value per published step in order, equal to the sum of the reactions of its nodes for each recorded DoF. Its file, when every write succeeds, holds a header, the zero row and one row per step in order with the same values to printed precision; after a crash at any instant it holds a byte prefix of that file including every row of every step already completed; after isolated write faults every row whose own open and write succeeded is present, once and in order. If the DoFs are left to be chosen automatically they are the fixed ones of the first node, and a node in which one of these is not fixed stops the analysis with a fatal error.",
 ["crash_points","fault_sequences","histories"],"all crash points, all open/write fault sequences, all node and DoF selections",
 "No test uses the file variant; the shipped tests only compare one curve at the end of a healthy run.",
 [L+"ReactionProcessor.cpp",L+"ReactionProcessor.h"],[("append per step, closed before return","ReactionProcessor.cpp process"),("truncate and header once","ReactionProcessor.cpp pre")],obs=["bytes on the (simulated) disk","ReactionProcessor::getReactions"])
p("C07","Only converged load steps are published, once, in order, in bounded work",
 "A nonlinear analysis publishes load steps 1..N exactly once each and in order, calls every post-processor's start hook once before and end hook once after them, and publishes a step only after an equilibrium iteration whose mean DoF increment met the convergence criterion. Whatever the equation solver returns (inexact, stalling, diverging, NaN or infinite corrections at any iteration), a step that does not converge is never published and no later step is started: the analysis stops with a fatal error after at most the configured number of iterations of that step; once the disturbances stop early enough the analysis completes.",
 ["fault_sequences","schedules","configurations"],"all sequences of equation-solver answers, all iteration limits, load-step counts and criteria",
 "The tests only run converging problems with an exact equation solver.",
 [L+"FESolver.cpp",L+"FESolver.h"],[("iteration loop with criterion, divergence and limit checks","FESolver.cpp NonlinearFESolver::solve"),("mean increment","FESolver.cpp calculateCriteria"),("step control","FESolver.cpp TimeControl")],obs=["PostProcessor callbacks","EquationSolver calls","process abort"])
p("C08","A published nonlinear step satisfies its boundary data and equilibrium",
 "At every published load step of a nonlinear analysis each prescribed DoF equals its prescribed value times the step's normalised time, the remaining DoFs are in equilibrium with the loads scaled by that time (to the accuracy the convergence criterion implies), linear constraint equations and finite-rotation rigid-body couplings are satisfied, and the reported reactions balance the internal forces. Every element has been updated with exactly the published solution. The final state does not depend on transient disturbances of the equation solver that the iteration has recovered from.",
 ["inputs","fault_sequences","configurations"],"all models with nonlinear springs, constraints and rigid bodies, all step counts, all recoverable solver disturbances",
 "The tests compare one reaction curve of three fixed meshes with a reference curve.",
 [L+"FESolver.cpp",L+"FEStorage.cpp",L+"Mpc.cpp"],[("incremental Newton update with eliminated DoFs","FESolver.cpp NonlinearFESolver::solve"),("constraint rows with Lagrange multipliers","FEStorage.cpp assembleGlobalEqMatrices"),("rigid body coupling","Mpc.cpp RigidBodyMpc::update")],obs=["FEStorage getters inside PostProcessor callbacks"])
p("C09","Linear analyses solve the assembled problem, whatever the registration order",
 "For every well-posed linear model the solution, the reactions of fixed DoFs and the values on constraint equations equal those of an independent dense solution of the same model (element stiffness and load contributions, nodal loads, non-zero fixations, multi-point constraints, node and element DoFs). The order in which nodes, elements, loads, fixations and constraints are registered and assembled, and what uninitialised memory contains, only permutes the numbering and never changes the physical answer beyond rounding; nor does the choice of units, which only scales it. Elements are updated with the published solution.",
 ["schedules","inputs","configurations"],"all models, all registration and assembly schedules, all initial memory contents",
 "The tests solve four fixed models in one fixed order.",
 [L+"FESolver.cpp",L+"FEStorage.cpp",L+"math/SparseMatrix.cpp",L+"math/BlockSparseMatrix.h",L+"elements/element.cpp"],[("elimination of fixed DoFs and reaction recovery","FESolver.cpp LinearFESolver::solve"),("numbering and sparsity","FEStorage.cpp assignEquationNumbers/initSolutionData"),("block-sparse assembly","BlockSparseMatrix.h")],obs=["FEStorage::getNodeDofSolution/getReaction"])
p("C10","Transient analyses take exactly the requested steps of the Newmark scheme",
 "A linear transient analysis publishes exactly the requested number of time steps, in order, for every time interval and step count, with the start hook before and the end hook after them. At each published step DoF values and their first and second derivatives equal those of the Newmark recurrence for the assembled mass, damping and stiffness matrices, loads, prescribed DoF values and the chosen parameters, and an equation solver shared with other work in between does not change them; elements are updated with the published solution.",
 ["inputs","configurations","schedules"],"all time intervals, step counts, Newmark parameters, models with M, C, K, and interleavings with other users of the equation solver",
 "One test integrates one heat problem over one interval without prescribed DoFs and with the default parameters.",
 [L+"FESolver.cpp",L+"elements/element.h",L+"FEStorage.cpp"],[("time loop","FESolver.cpp LinearTransientFESolver::solve"),("matrix assembly helpers","element.h assembleC/assembleM")],obs=["FEStorage getU/getDU/getDDU inside PostProcessor callbacks"])
p("C11","Concurrent analyses in one process do not influence each other",
 "When several analyses (linear, nonlinear, transient, each with its own storage and solver, sharing the process-wide default equation solver and the disk) are interleaved at any point where the library hands control to user code - element routines, post-processors, equation-solver calls, file writes - or nested inside each other, every one of them ends with exactly the results, callback sequence and files it has when it runs alone. Analyses that each have an equation solver of their own share nothing, so they may also be switched in the middle of library routines, as threads are.",
 ["schedules","configurations"],"all interleavings and nestings of up to four analyses at callback granularity",
 "Every test process runs exactly one analysis.",
 [L+"math/EquationSolver.cpp",L+"FESolver.cpp",L+"FEStorage.cpp",L+"elements/isoparametric.cpp"],[("shared default equation solver","EquationSolver.cpp defaultEquationSolver"),("per-analysis storage","FEStorage.h")],obs=["all results and files of each analysis"])
p("C12","Running out of memory never corrupts state or results",
 "If any single memory allocation (or all allocations from some point on) fails during import, model building, solution or output, the operation either completes with correct results or ends with an error (exception or program stop); it never accesses invalid memory, and after an exception every object involved can be destroyed and a fresh analysis in the same process gives correct results.",
 ["fault_sequences","crash_points"],"all allocation failure points in all phases of all analyses",
 "No test makes an allocation fail.",
 [L+"math/SparseMatrix.cpp",L+"math/Vec.cpp",L+"math/Mat.h",L+"FEStorage.cpp",L+"FEReaders.cpp"],[("owning raw pointers and containers","SparseMatrix.cpp, Vec.cpp, Mat.h, FEStorage.cpp")],obs=["exceptions, destructors, later results"])
p("C13","Tearing down and reusing a model behaves like starting afresh",
 "For every history of building, solving, clearing the solution, deleting the mesh (wholly or by kind), rebuilding and solving again on one storage, with new solver objects or the same one again (also after a solve that was interrupted or served another storage), each solve gives the same results as the same model in a fresh storage, entity counts and lookups (nodes, positions before and after deformation, elements and their nodes, components) always match what was added since the last deletion, no entity is freed twice or used after being freed, and everything handed to the storage is freed by the time it is destroyed. Post-processors handed to a solver keep the numbers they were given, are found by them, are called exactly once before, once per published step and once after every solve, and are freed with the solver or when they are deleted from it.",
 ["histories","configurations"],"all histories of public storage operations",
 "Every test builds one model once and exits without tearing it down and reusing it.",
 [L+"FEStorage.cpp",L+"FEStorage.h",L+"FESolver.cpp",L+"Mpc.cpp"],[("delete* procedures and destructor","FEStorage.cpp"),("solution (re)initialisation","FEStorage.cpp initDofs/initSolutionData")],obs=["FEStorage counters and getters","allocator"])
p("C14","A system dump round-trips and a damaged dump is never accepted",
 "Dumping the assembled matrices and vectors of a solver and comparing the same solver against that dump with the default tolerance succeeds for every model. If the dump was cut or could not be written completely so that any stored entry is missing, cannot be read, or any stored entry is damaged or differs by more than the tolerance, the comparison fails with an error and never passes, accesses invalid memory or runs forever.",
 ["inputs","fault_sequences","crash_points"],"all models, all cut positions, all write/read faults and stored-byte corruptions",
 "The round trip is never exercised by a test, nor is a damaged dump.",
 [L+"FESolver.cpp",L+"math/SparseMatrix.cpp",L+"math/Vec.cpp"],[("text formats","SparseMatrix.cpp write/readCoordinateTextFormat, Vec.cpp write/readTextFormat"),("comparison","FESolver.cpp compareMatricesAndVectors")],obs=["return or abort of the comparison"])
p("C15","The load clock is monotone, complete and ends exactly at the end time",
 "For every start time, end time and sequence of requested increments and equilibrium iterations, the load clock starts at the start time, advances strictly with every accepted step, never passes the end time and reaches it exactly, never takes an increment larger than requested, normalised time runs from 0 to exactly 1, and the step and iteration counters count exactly the steps and iterations performed; the number of steps for a constant increment of interval/N is N, and with a constant increment no step is shorter than half of it (or of the interval, if that is shorter).",
 ["histories","inputs"],"all time windows and increment/iteration histories",
 "The test walks one fixed history starting at zero.",
 [L+"FESolver.cpp",L+"FESolver.h"],[("step control","FESolver.cpp TimeControl")],obs=["TimeControl getters"])
p("C16","The command-line program ends, and success means the job was really done",
 "For every command line, model file, reference curve and fault on its files, the nla3d program terminates; it exits with status 0 only if the whole model was read, all load steps converged and, when a reference curve with a threshold was given, the curve was completely read and the mean deviation is within the threshold. An unreadable model, a model cut inside its node, element or component tables, an unreadable, cut or damaged reference curve, a spoiled number, unknown name or missing constant in the options, non-convergence or too big deviation ends with a non-zero status or abort; a job with intact inputs that converges within the threshold ends with status 0. Node numbers in options are those of the model file.",
 ["inputs","fault_sequences","configurations"],"all option sets, model decks, reference files and file fault sequences",
 "The tests run a few fixed, healthy command lines; none checks that a bad one fails or terminates.",
 ["src/main.cpp",L+"sys.cpp",L+"FEReaders.cpp"],[("option parsing and job flow","src/main.cpp main"),("reference curve reader and comparison","src/main.cpp readRefCurveData/compareCurves")],obs=["exit status of the program"])
p("C17","A shared equation solver gives every client the solution of its own system",
 "The built-in equation solver, used by any number of clients in any interleaving of solve, factorize and substitute calls with systems of different sizes, returns for each call the solution of the matrix and right-hand side passed to that call, whatever was solved before. A singular system is reported as a fatal error and never answered with finite numbers as if solved.",
 ["schedules","inputs","histories"],"all interleavings of client calls and system sizes",
 "Tests solve one system per process.",
 [L+"math/EquationSolver.cpp",L+"math/EquationSolver.h",L+"math/Mat.h"],[("dense elimination with partial pivoting","EquationSolver.cpp _solve"),("per-call system size and work matrix","EquationSolver.cpp substituteEquations")],obs=["EquationSolver interface"])
p("C18","DoF registration is order-independent and equation numbers are a bijection",
 "Whatever order and repetition in which elements, constraints and user code register node and element DoFs, exactly the registered DoFs exist, lookups never return a DoF of another entity or kind, and registering again changes nothing. After numbering, fixed DoFs hold exactly the equation numbers 1..nFixed, the others the following ones and the constraint equations the last ones, each number exactly once.",
 ["schedules","histories"],"all registration histories over all entities and DoF kinds",
 "Tests register each DoF in one natural order.",
 [L+"Dof.cpp",L+"Dof.h",L+"FEStorage.cpp",L+"FEStorage.h"],[("flat DoF table with offsets","Dof.cpp DofCollection::addDof"),("numbering","FEStorage.cpp assignEquationNumbers")],obs=["FEStorage DoF getters"])
p("C19","Sparse matrices accumulate like dense ones in every operation order",
 "For every order of declaring entries, compressing, sharing a sparsity pattern, adding values, zeroing and multiplying, sparse, symmetric and block matrices hold exactly the sums a dense matrix would hold, products and transposed products with vectors agree with the dense ones, matrices sharing a pattern never share values, and touching a position outside the declared pattern stops with a fatal error instead of changing another entry.",
 ["schedules","histories"],"all interleavings of operations on several matrices sharing patterns",
 "Tests check a few fixed matrices in one order.",
 [L+"math/SparseMatrix.cpp",L+"math/SparseMatrix.h",L+"math/BlockSparseMatrix.h"],[("compressed rows with binary search","SparseMatrix.cpp SparsityInfo"),("block mapping","BlockSparseMatrix.h getBlockAndPosition")],obs=["matrix getters and products"])
p("C20","Element formulations reproduce the continuum theory",
 "Each element's stiffness, internal force and result queries agree with its continuum formulation (patch tests, rigid-body invariance, tangent equals the derivative of the internal force).",
 ["inputs"],"all geometries and deformation states","Tests sample a few meshes against reference solutions.",
 [L+"elements/SOLID81.cpp",L+"elements/PLANE41.cpp",L+"elements/TETRA0.cpp",L+"elements/INTER3.cpp",L+"elements/isoparametric.cpp"],[("element integration","src/lib/elements")])
p("C21","Hyperelastic materials return stresses and tangents of their energy",
 "For every deformation the stress and tangent of a material equal the first and second derivative of its strain energy.",
 ["inputs"],"all deformation states and constants","No test differentiates the energy.",
 [L+"materials/materials_hyperelastic.cpp",L+"materials/material.cpp"],[("closed-form derivatives","materials_hyperelastic.cpp")])
p("C22","Small dense tensor algebra agrees with its definition",
 "Products, inverses, determinants and symmetric-storage operations on fixed-size matrices equal their mathematical definitions.",
 ["inputs"],"all operands","Tests use a table of sampled products.",
 [L+"math/Mat.h",L+"math/Vec.h"],[("templates","Mat.h")])
p("C23","The Python bindings expose the same behaviour as the C++ API",
 "Every wrapped call made from Python has the effect and result of the corresponding C++ call.",
 ["programs"],"all Python programs using the module","Tests translate four programs.",
 ["python/nla3d.swg"],[("SWIG wrapper","python/nla3d.swg")])
p("C24","Vectors and work matrices are values, windows alias exactly their range",
 "For every history of constructing, copying, moving, assigning (also from itself or from a part of itself), windowing, re-initialising, clearing, filling, summing, comparing, writing and reading text and destroying dynamic vectors, each vector holds exactly what an independent array would hold: copies share nothing, a window reads and writes exactly its range of the vector it was made on and nothing else, assigning equal length writes through a window while any other length or re-initialising detaches it, and nothing is freed twice, leaked or left dangling by the vector itself, even when an allocation fails (the vector then is as before or empty). The same holds for dense work matrices, which are zero after construction and resizing. Indices and windows outside a vector, sums of different lengths and use of an empty vector stop with an error.",
 ["histories","fault_sequences"],"all operation histories over any number of vectors, windows and matrices, with any allocation failing",
 "Tests use vectors in one natural order, never assign overlapping parts, never refill a window and never run out of memory.",
 [L+"math/Vec.cpp",L+"math/Vec.h",L+"math/Mat.h"],[("ownership flag and windows","Vec.cpp dVec::reinit, dVec::operator=, dVec::clear"),("dense matrix","Mat.h dMat")],obs=["dVec and dMat getters","allocator"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
